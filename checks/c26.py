"""C26: noise spectra are consistent between amplitude, power, interpolation and noise draws."""
import itertools
import os
import shutil
import tempfile
import numpy as np
from scipy.special import ndtr
from mc.core import Group
from mc.fakerng import FakeRNG, installed

PROPERTY = "C26"
LEVEL = "model_checking"
RULE = ("all histories up to the depth of specifying the spectrum (power/amplitude array, list, either file, frequency edits, rejected arrays) and queries on several "
        "axes, against a (frequency, power) table; for noise: every unit basis draw of the generator is enumerated, which gives the exact covariance of the linear "
        "map from unit normals to noise, for all axes and spectra; a case = one history or one (spectrum, axis)")
TECHNIQUE = "exhaustive enumeration of specification/query histories, and of the basis draws of the random generator (exact covariance, no sampling)"

F1 = np.array([1., 2., 4., 7., 9.])
F2 = np.array([0., 1.5, 3., 6., 20.])
P = {"p1": np.array([1., 4., .25, 9., 2.]), "p2": np.array([3., 1e-3, 5., 5., 7.]), "p3": np.array([1e-46, 4e-46, 9e-46, 1e-47, 3e-46])}
AXES = {"tab": F1, "mid": np.linspace(0, 10, 41), "short": np.array([0., 3., 30.]), "tab2": F2, "mid2": np.linspace(1, 11, 41)}
BIG = np.linspace(0, 8, 17)
ORIG = dict(P)


def ref(f, p, x):
    i = np.clip(np.searchsorted(f, x, side="right") - 1, 0, len(f) - 2)
    w = (x - f[i]) / (f[i + 1] - f[i])
    out = p[i] * (1 - w) + p[i + 1] * w
    for a, b in zip(f, p):
        out = np.where(x == a, b, out)
    return np.where((x < f[0]) | (x > f[-1]), np.inf, out)


def specify(op, scratch):
    """-> (constructor kwargs, (f, p))"""
    kind, k = op
    f, p = (F1, P[k]) if k != "p2" else (F2, P[k])
    if kind == "psd":
        return dict(frequency_array=f.copy(), psd_array=p.copy()), (f, p)
    if kind == "psdlist":
        return dict(frequency_array=list(f), psd_array=list(p)), (f, p)
    if kind == "asd":
        return dict(frequency_array=f.copy(), asd_array=np.sqrt(p)), (f, p)
    if kind == "asdlist":
        return dict(frequency_array=list(f), asd_array=list(np.sqrt(p))), (f, p)
    name = os.path.join(scratch, f"{kind}_{k}.txt")
    if not os.path.exists(name):
        np.savetxt(name, np.array([f, p if kind == "psdfile" else np.sqrt(p)]).T, fmt="%.17g")
    return {"psd_file" if kind == "psdfile" else "asd_file": name}, (f, p)


SPEC = [(k, p) for k in ("psd", "psdlist", "asd", "asdlist", "psdfile", "asdfile") for p in ("p1", "p2", "p3")]
OPS = SPEC + [("factory", k) for k in ("psdfile", "asdfile", "psd", "asd")] + [("freq", 2.), ("bad", "psd"), ("bad", "asd"), ("nofile", ""), ("move", "")] + \
    [("query", a) for a in AXES]


def run_seq(rec, seq, key, scratch):
    import bilby
    PSD = bilby.gw.detector.PowerSpectralDensity
    kw, (f, p) = specify(seq[0], scratch)
    psd = PSD(**kw)
    axis = AXES["mid"].copy()
    for kind, arg in seq[1:]:
        rec.transition()
        if kind == "query":
            psd.get_power_spectral_density_array(AXES[arg])
            psd.get_amplitude_spectral_density_array(AXES[arg])
        elif kind == "freq":
            f = f * arg
            psd.frequency_array = f.copy()
        elif kind in ("bad", "nofile"):
            try:
                if kind == "nofile":
                    psd.psd_file = os.path.join(scratch, "missing.txt")
                elif arg == "psd":
                    psd.psd_array = np.ones(3)
                else:
                    psd.asd_array = np.ones(9)
            except ValueError:
                continue
            rec.fail(key, f"{kind} {arg} accepted")
        elif kind == "move":  # the caller reuses its own axis array for another axis
            psd.get_power_spectral_density_array(axis)
            axis += 1.
        elif kind == "factory":
            k, (f, p) = specify((arg, "p2"), scratch)
            make = {"psdfile": PSD.from_power_spectral_density_file, "asdfile": PSD.from_amplitude_spectral_density_file,
                    "psd": PSD.from_power_spectral_density_array, "asd": PSD.from_amplitude_spectral_density_array}[arg]
            psd = make(**k)
        else:
            k, (f, p) = specify((kind, arg), scratch)
            for name in ("frequency_array", "psd_array", "asd_array", "psd_file", "asd_file"):
                if name in k:
                    setattr(psd, name, k[name])
    rec.close(psd.frequency_array, f, f"{key}:frequencies", 1e-14)
    rec.close(psd.psd_array, p, f"{key}:psd", 1e-13, 0)
    rec.close(psd.asd_array, np.sqrt(p), f"{key}:asd", 1e-13, 0)
    for x in [axis] + list(AXES.values()) + [f]:
        for order in (0, 1):
            got = {}
            for what in ("pa" if order else "ap"):
                got[what] = psd.get_power_spectral_density_array(x) if what == "p" else psd.get_amplitude_spectral_density_array(x)
            want = ref(f, p, x)
            rec.close(got["p"], want, f"{key}:power", 1e-12, 0)
            rec.close(got["a"], np.sqrt(want), f"{key}:amplitude", 1e-12, 0)
    rec.close(psd.power_spectral_density_interpolated(axis), ref(f, p, axis), f"{key}:interpolant", 1e-12, 0)
    k = {"psdfile": "psd_file", "asdfile": "asd_file"}
    last = [o for o in seq if o in SPEC or o[0] == "factory"][-1]
    kind = last[1] if last[0] == "factory" else last[0]
    if not any(o[0] in ("freq", "nofile") for o in seq):
        for name in ("psd_file", "asd_file"):
            have = getattr(psd, name)
            rec.check((have is not None) == (k.get(kind) == name), f"{key}:file", f"{name} reported as {have}")
        fresh = PSD(**specify((kind, last[1] if last in SPEC else "p2"), scratch)[0])
        rec.check(psd == fresh, f"{key}:equality", "differs from a new spectrum given the same")
    rec.state((kind, f.tobytes(), p.tobytes()))


def history(rec, item):
    first, second, depth = item
    scratch = tempfile.mkdtemp(prefix="c26_")
    try:
        for rest in itertools.product(OPS, repeat=depth):
            seq = (first,) + ((second,) if second else ()) + rest
            if not second and rest:
                continue
            key = ">".join(f"{a}:{b}" for a, b in seq)
            rec.case(seq if len(seq) > 1 else None)
            rec.trace(1, key)
            with rec.guard(key):
                run_seq(rec, seq, key, scratch)
    finally:
        shutil.rmtree(scratch)


def curves(rec, item):
    """the shipped curves: what is read is what is in the file, whichever way round it is read"""
    import bilby
    name, = item
    key = f"curve:{name}"
    rec.case(key)
    path = os.path.join(os.path.dirname(bilby.gw.detector.psd.__file__), "noise_curves", name)
    f, v = np.array([[float(x) for x in line.split()[:2]] for line in open(path) if line.strip() and line.strip()[0] != "#"]).T
    for kind in ("psd_file", "asd_file"):
        with rec.guard(key):
            psd = bilby.gw.detector.PowerSpectralDensity(**{kind: name})
            p = v if kind == "psd_file" else v ** 2
            rec.close(psd.get_power_spectral_density_array(f), p, key, 1e-12, 0)
            rec.close(psd.get_amplitude_spectral_density_array(f), np.sqrt(p), key, 1e-12, 0)
            out = psd.get_power_spectral_density_array(np.array([f.min() * .99 - 1e-3, f.max() * 1.01]))
            rec.check(np.all(np.isinf(out)), key, f"outside the curve: {out}")


NOISE = {"flat": (np.array([0., 100.]), np.array([2., 2.])), "band": (np.array([2., 3., 5.]), np.array([1., 4., 1e-2])),
         "strain": (np.linspace(1, 7, 13), 1e-46 * (1 + np.arange(13.))), "wall": (np.array([0., 1., 2., 6., 6.5]), np.array([np.inf, 3., 1., 2., np.inf])),
         "edge": (np.array([1., 4.]), np.array([1., 7.]))}


def noise(rec, item):
    """exact mean and covariance of the noise from the basis draws of the generator"""
    import bilby
    name, T, fs, via = item
    key = f"noise:{item}"
    rec.case(key)
    f, p = NOISE[name]
    psd = bilby.gw.detector.PowerSpectralDensity(frequency_array=f, psd_array=p)
    if via == "query":
        psd.get_power_spectral_density_array(np.array([2., 3.]))
    n = int(round(T * fs))
    freq = np.arange(n // 2 + 1) / T

    def draw(j, scale=1.):
        count = itertools.count()
        fake = FakeRNG(lambda: ndtr(scale) if next(count) == j else 0.5)
        with installed(fake):
            if via == "ifo":
                ifo = bilby.gw.detector.Interferometer("H1", psd, 0., np.inf, 4., 40., 0., 0., 0., 90.)
                ifo.set_strain_data_from_power_spectral_density(sampling_frequency=fs, duration=T, start_time=3)
                x, a = ifo.frequency_domain_strain, ifo.frequency_array
            else:
                x, a = psd.get_noise_realisation(fs, T)
        rec.close(a, freq, f"{key}:axis")
        return x, next(count)
    with rec.guard(key):
        mean, total = draw(-1)
        rec.check(np.all(mean == 0), f"{key}:mean", f"{mean}")
        basis = np.array([draw(j)[0] for j in range(total)])
        rec.note("basis draws", total)
        big = draw(0, 2.)[0]
        rec.close(big, 2 * basis[0], f"{key}:linear", 1e-6)
        X = np.concatenate([basis.real, basis.imag], axis=1)
        cov = X.T @ X
        with np.errstate(invalid="ignore"):
            S = ref(f, p, freq)
        S = np.where(np.isfinite(S), S, 0)
        var = S * T / 4
        var[0] = 0
        if n % 2 == 0:
            var[-1] = 0
        rec.check(np.all(np.isfinite(basis)), f"{key}:finite", "non-finite noise")
        rec.close(cov, np.diag(np.concatenate([var, var])), f"{key}:covariance", 1e-6, 1e-9 * max(var.max(), 1e-300))


def white(rec, item):
    """white noise: unit one-sided density, so the time series has variance fs/2 per sample"""
    import bilby
    T, fs = item
    key = f"white:{item}"
    rec.case(key)
    n = int(round(T * fs))

    def draw(j):
        count = itertools.count()
        with installed(FakeRNG(lambda: ndtr(1.) if next(count) == j else 0.5)):
            x, a = bilby.core.utils.create_white_noise(fs, T)
        rec.close(a, np.arange(n // 2 + 1) / T, f"{key}:axis")
        return x, next(count)
    with rec.guard(key):
        _, total = draw(-1)
        basis = np.array([draw(j)[0] for j in range(total)])
        if n % 2 == 0:
            h = np.array([bilby.core.utils.infft(b, fs) for b in basis])
            c = h.T @ h
            rec.close(np.trace(c) / n, fs / 2 * (n - 2) / n, f"{key}:variance", 1e-6)


def groups(tier, seed):
    H = [(a, None, 0) for a in SPEC] + [(a, b, d) for a in SPEC for b in OPS for d in ((0, 1) if tier == "quick" else (0, 1, 2))]
    import bilby
    d = os.path.join(os.path.dirname(bilby.gw.detector.psd.__file__), "noise_curves")
    cv = [(n,) for n in sorted(os.listdir(d)) if n.endswith(".txt")]
    nz = [(k, T, fs, via) for k in NOISE for T, fs in ((1, 16), (2, 8), (4., 4.), (1, 15), (3, 5), (2, 20)) for via in ("direct", "query", "ifo")
          if via != "ifo" or (T * fs) % 2 == 0]
    wn = [(T, fs) for T in (1, 2, 4, .5) for fs in (4, 8, 16, 15, 9.) if float(T * fs).is_integer()]
    return [Group("histories", H, history, 850), Group("curves", cv, curves, 120), Group("noise", nz, noise, 120), Group("white", wn, white, 60)]
