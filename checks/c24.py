"""C24: the waveform generator always answers the current request (request/edit histories against the source model itself)."""
import itertools
import numpy as np
from mc.core import Group

PROPERTY = "C24"
LEVEL = "model_checking"
RULE = ("all operation sequences up to the depth (requests in both domains with several parameter sets, repeated requests without parameters, axis and "
        "argument and source model edits, rejected requests, edits of the caller's dictionary) x kinds of source model; every answer is compared with the "
        "source model evaluated directly; a case = one sequence, non-trivial = contains a request after an edit or another request")
TECHNIQUE = "exhaustive enumeration of request/edit histories of the real generator against direct evaluation of the source model"
ASSUMPTIONS = ["callers do not edit a waveform they were given (repeated identical requests share the returned arrays, as the tests require)"]


def fd(frequency_array, a, b=0., **kwargs):
    s = kwargs.get("scale", 1.0)
    return dict(plus=s * a * np.exp(-frequency_array) * (1 + 1j * frequency_array * (frequency_array < frequency_array[-1]) * (frequency_array > 0)),
                cross=s * (b + kwargs.get("shift", 0)) / (1 + frequency_array) + 0j)


def td(time_array, a, b=0., **kwargs):
    s = kwargs.get("scale", 1.0)
    return dict(plus=s * a * np.sin(time_array), cross=s * (b + kwargs.get("shift", 0)) * np.cos(2 * time_array) + time_array)


def fd_arr(frequency_array, a, b=0., **kwargs):
    return fd(frequency_array, a, b, **kwargs)["plus"]


def td_arr(time_array, a, b=0., **kwargs):
    return td(time_array, a, b, **kwargs)["cross"]


def fd2(frequency_array, a, b=0., **kwargs):
    h = fd(frequency_array, a, b, **kwargs)
    return dict(plus=-2 * h["plus"], cross=h["cross"] + 1)


def td2(time_array, a, b=0., **kwargs):
    h = td(time_array, a, b, **kwargs)
    return dict(plus=3 * h["plus"], cross=h["cross"] - 1)


def conv(p):
    p = dict(p)
    added = []
    if "a" not in p and "loga" in p:
        p["a"] = 10 ** p["loga"]
        added.append("a")
    return p, added


CONF = {"fd": (fd, None), "td": (None, td), "both": (fd, td), "fd_arr": (fd_arr, None), "td_arr": (None, td_arr)}
PARAMS = {"p1": dict(a=1.0, b=2.0), "p2": dict(a=1.0, b=-0.5), "p3": dict(loga=0.5, b=2.0), "p4": dict(a=2, b=2.0, extra=7, ra=1.0),
          "p0": dict(a=0.0, b=2.0)}
BAD = {"missing": dict(b=1.0), "nodict": [1, 2]}
OPS = [(d, p) for d in "ft" for p in list(PARAMS) + [None]] + [("f", "missing"), ("t", "nodict"), ("T", 2.0), ("T", 4), ("fs", 16), ("t0", 1.5),
                                                                 ("arg", ("scale", 3.0)), ("arg", ("shift", 1.0)), ("faxis", (2., 8)),
                                                                 ("taxis", (4., 16, 0.5)), ("model", "f"), ("model", "t")]


def expected(models, domain, params, args, T, fs, t0):
    f_model, t_model = models
    n = int(round(T * fs))
    f, t = np.arange(n // 2 + 1) / T, t0 + np.arange(n) / fs
    p, _ = conv(params)
    kw = dict(args)
    kw.update(a=p["a"], b=p["b"])
    if domain == "f":
        if f_model is not None:
            return f_model(f, **kw)
        h = t_model(t, **kw)

        def tr(x):
            return np.fft.rfft(x) / fs
    else:
        if t_model is not None:
            return t_model(t, **kw)
        h = f_model(f, **kw)

        def tr(x):
            return np.fft.irfft(x) * fs
    return {k: tr(v) for k, v in h.items()} if isinstance(h, dict) else tr(h)


def snap(w):
    return {k: v.copy() for k, v in w.items()} if isinstance(w, dict) else w.copy()


def eq(a, b):
    if isinstance(a, dict) != isinstance(b, dict):
        return False
    if isinstance(a, dict):
        return set(a) == set(b) and all(eq(a[k], b[k]) for k in a)
    return a.shape == b.shape and bool(np.all(np.abs(a - b) <= 1e-9 * (1 + np.abs(b))))


def run_seq(rec, kind, seq, key):
    from bilby.gw.waveform_generator import WaveformGenerator
    T, fs, t0, args, cur = 2, 8, 0., {"scale": 1.0}, None
    given = dict(args)
    models = list(CONF[kind])
    wg = WaveformGenerator(duration=T, sampling_frequency=fs, start_time=t0, frequency_domain_source_model=CONF[kind][0],
                           time_domain_source_model=CONF[kind][1], parameter_conversion=conv, waveform_arguments=given)
    earlier = []
    for op, arg in seq:
        if op in "ft":
            call = wg.frequency_domain_strain if op == "f" else wg.time_domain_strain
            if arg in BAD:
                try:
                    call(BAD[arg] if arg == "nodict" else dict(BAD[arg]))
                except (TypeError, KeyError):
                    continue
                rec.fail(key, f"request with {arg} parameters accepted")
                continue
            if arg is None:
                if cur is None:
                    continue
                h = call()
            else:
                cur = PARAMS[arg]
                mine = dict(cur)
                h = call(mine)
                rec.check(mine == cur, key, f"caller's parameters changed to {mine}")
                mine["a"] = -99.  # the caller reuses the dictionary
            rec.transition()
            want = expected(models, op, cur, args, T, fs, t0)
            if not eq(h, want):
                return rec.fail(key, f"{op}({arg}) differs from the model for {cur} {args} T={T} fs={fs} t0={t0}")
            for e, s in earlier:
                rec.check(eq(e, s), key, "an earlier returned waveform changed")
            earlier.append((h, snap(h)))
        elif op == "model":  # the model is replaced by another one (the old one comes back at the second replacement)
            i = "ft".index(arg)
            models[i] = (fd2, td2)[i] if models[i] not in (fd2, td2) else CONF[kind][i]
            if models == [None, None]:
                return
            setattr(wg, ("frequency_domain_source_model", "time_domain_source_model")[i], models[i])
        elif op == "T":
            wg.duration = T = arg
        elif op == "fs":
            wg.sampling_frequency = fs = arg
        elif op == "t0":
            wg.start_time = t0 = arg
        elif op == "arg":
            args[arg[0]] = arg[1]
            wg.waveform_arguments[arg[0]] = arg[1]
        elif op == "faxis":
            T, fs = arg
            wg.frequency_array = np.arange(int(T * fs) // 2 + 1) / T
        elif op == "taxis":
            T, fs, t0 = arg
            wg.time_array = t0 + np.arange(int(T * fs)) / fs
    rec.state((kind, T, fs, t0, tuple(sorted(args.items())), str(cur)))


def history(rec, item):
    kind, first, depth = item
    for d in range(depth):
        for rest in itertools.product(OPS, repeat=d):
            seq = (first,) + rest
            if seq[-1][0] not in "ft" and d == depth - 1:
                continue  # nothing observed after the last edit
            key = kind + ":" + ",".join(f"{o}:{a}" for o, a in seq)
            rec.case(seq if len(seq) > 1 else None)
            rec.trace(1, key)
            with rec.guard(key):
                run_seq(rec, kind, seq, key)


def bbh(rec, item):
    """the default conversion: any sufficient set of mass parameters gives the same waveform, in both domains, again and again"""
    from bilby.gw.waveform_generator import WaveformGenerator
    from bilby.gw.conversion import convert_to_lal_binary_black_hole_parameters

    def model(frequency_array, mass_1, mass_2, luminosity_distance, a_1, tilt_1, phi_12, a_2, tilt_2, phi_jl, theta_jn, phase, **kw):
        v = mass_1 + 3 * mass_2 + 0.1 * a_1 + luminosity_distance / 7 + 0.3 * phase + 0.2 * theta_jn + tilt_1 + a_2
        return dict(plus=v * frequency_array, cross=v + 0 * frequency_array)
    base = dict(luminosity_distance=500., a_1=0.3, a_2=0.1, tilt_1=0.2, tilt_2=0.1, phi_12=0.3, phi_jl=0.1, theta_jn=0.5, phase=0.9)
    m1, m2 = item
    mc, q, eta, M = (m1 * m2) ** .6 / (m1 + m2) ** .2, m2 / m1, m1 * m2 / (m1 + m2) ** 2, m1 + m2
    sets = [dict(mass_1=m1, mass_2=m2), dict(chirp_mass=mc, mass_ratio=q), dict(total_mass=M, mass_ratio=q), dict(chirp_mass=mc, symmetric_mass_ratio=eta),
            dict(total_mass=M, symmetric_mass_ratio=eta), dict(mass_1=m1, mass_ratio=q)]
    v = model(np.array([1.]), m1, m2, **base)["plus"][0]
    for i, j in itertools.product(range(len(sets)), repeat=2):
        wg = WaveformGenerator(duration=2, sampling_frequency=8, frequency_domain_source_model=model,
                               parameter_conversion=convert_to_lal_binary_black_hole_parameters)
        for k, s in enumerate((sets[i], sets[j], sets[i])):
            p = dict(base, ra=1., **s)
            p0 = dict(p)
            key = f"bbh:{item}:{i}>{j}:{k}"
            rec.case(key)
            with rec.guard(key):
                h = wg.frequency_domain_strain(p)
                rec.close(h["plus"], v * np.arange(9) / 2., key, rtol=1e-9)
                rec.check(p == p0, key, "caller's parameters changed")


def groups(tier, seed):
    H = [(k, op, 4 if tier != "quick" or k in ("both", "td") else 3) for k in CONF for op in OPS]
    return [Group("histories", H, history, 850), Group("bbh", [(30., 20.), (36., 36.), (5., 1.4)], bbh, 100)]
