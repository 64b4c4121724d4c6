"""C27: the transient likelihood against its defining formula: networks, frames, time references, calibration and histories of evaluations."""
import copy
import itertools
import pickle
import numpy as np
from mc import gwref as g
from mc.core import Group

PROPERTY = "C27"
LEVEL = "model_checking"
RULE = ("values: every ordered network of one to three detectors x sky frame x time reference x calibration model x parameter set x way of setting the parameters; "
        "histories: all sequences up to the depth over setting (whole, partial, replacing), every kind of evaluation, failing evaluations, other likelihoods sharing the "
        "detectors, copies and pickles, each evaluation compared with an independent evaluation of the formula; rows: tables of samples x row labels x pool sizes; "
        "a case = one evaluation")
TECHNIQUE = "exhaustive enumeration of configurations and evaluation histories of the real likelihood against an independent numpy reference"
ASSUMPTIONS = ["data, spectra and bands are set before the likelihood is built (the noise evidence is kept by the likelihood)", "sidereal time from lal",
               "direction convention of zenith/azimuth from bilby_cython's rotation"]
TOL = dict(rtol=2e-7, atol=2e-7)
KEYCAL = "recalib_{}_amplitude_{}", "recalib_{}_phase_{}"


def spline(name):
    import bilby
    return bilby.gw.detector.calibration.CubicSpline(f"recalib_{name}_", minimum_frequency=4., maximum_frequency=32., n_points=4)


def cal_params(seed):
    p = {}
    for d, name in enumerate(("H1", "L1", "V1")):
        for i in range(4):
            p[f"recalib_{name}_amplitude_{i}"] = 0.05 * np.sin(seed + d + 2.1 * i)
            p[f"recalib_{name}_phase_{i}"] = 0.1 * np.cos(seed + 2 * d + 1.3 * i)
    return p


def cal_factor(name, p):
    """cubic spline (not-a-knot) through log-spaced nodes, (1 + dA) (2 + i dphi) / (2 - i dphi)"""
    from scipy.interpolate import CubicSpline
    x = np.linspace(np.log10(4.), np.log10(32.), 4)
    m = (g.F >= g.BAND[name][0]) & (g.F <= g.BAND[name][1])
    out = np.ones(len(g.F), dtype=complex)
    lf = np.log10(g.F[m])
    a = CubicSpline(x, [p[f"recalib_{name}_amplitude_{i}"] for i in range(4)], bc_type="not-a-knot")(lf)
    b = CubicSpline(x, [p[f"recalib_{name}_phase_{i}"] for i in range(4)], bc_type="not-a-knot")(lf)
    out[m] = (1 + a) * (2 + 1j * b) / (2 - 1j * b)
    return out


def breathing(frequency_array, amp, slope, tau, luminosity_distance, phase, **kw):
    pol = g.model(frequency_array, amp, slope, tau, luminosity_distance, phase)
    return pol and dict(pol, breathing=0.4 * pol["plus"], x=0.3j * pol["cross"])


class Problem:
    def __init__(self, net, frame="sky", tref="geocenter", cal=False, fn=None, signal="C"):
        import bilby
        self.fn, self.cal, self.signal = fn, cal, signal and g.POINTS[signal]
        self.ifos = [g.detector(n, self.signal, spline if cal else None) for n in net]
        det = bilby.gw.detector.get_empty_interferometer
        self.frame = {"sky": None, "H1L1": ("H1", "L1"), "L1V1": ("L1", "V1"), "objects": ("H1", "V1"), "list": ("L1", "H1")}[frame]
        arg = frame
        if frame == "objects":
            arg = bilby.gw.detector.InterferometerList(["H1", "V1", "L1"])
        elif frame == "list":
            arg = [det("L1"), det("H1")]
        self.frame = self.frame and [det(n) for n in self.frame]
        self.tref = "geocent" if "geocent" in tref else tref
        self.ref = None if self.tref == "geocent" else det(tref)
        self.like = bilby.gw.likelihood.GravitationalWaveTransient(interferometers=self.ifos, waveform_generator=g.generator(fn), reference_frame=arg, time_reference=tref)
        self.net = net

    def params(self, name, seed=1.):
        """what the user supplies, and the same source on the sky at the geocenter"""
        p = dict(g.POINTS[name])
        q = g.to_frame(p, self.frame, self.tref, self.ref)
        if self.cal:
            c = cal_params(seed + len(name) + ord(name[0]))
            p.update(c)
            q.update(c)
        return q, p

    def ref_ratio(self, p, ifos=None):
        return g.ratio(ifos or self.ifos, p, self.signal, cal_factor if self.cal else None, self.fn)

    def ref_noise(self):
        return g.noise_ll(self.ifos, self.signal)


def values(rec, item):
    _, net, frames, trefs, cal = item
    for frame, tref in itertools.product(frames, trefs):
        base = f"values/{','.join(net)}/{frame}/{tref}/{'cal' if cal else 'nocal'}"
        with rec.guard(base):
            pr = Problem(net, frame, tref, cal)
        for name, how in itertools.product(g.POINTS, ("update", "assign", "sampler")):
            key = f"{base}/{name}/{how}"
            with rec.guard(key):
                q, p = pr.params(name)
                given = dict(q)
                if how == "assign":
                    pr.like.parameters = q
                elif how == "update":
                    pr.like.parameters = {}
                    pr.like.parameters.update(q)
                else:
                    pr.like.parameters.update(q)
                want, nz = pr.ref_ratio(p), pr.ref_noise()
                rec.close(pr.like.log_likelihood_ratio(), want, key + "/ratio", **TOL)
                rec.close(pr.like.noise_log_likelihood(), nz, key + "/noise", **TOL)
                rec.close(pr.like.log_likelihood(), want + nz, key + "/full", **TOL)
                out = pr.like.compute_per_detector_log_likelihood()
                for i in pr.ifos:
                    rec.close(np.real(out[f"{i.name}_log_likelihood"]), pr.ref_ratio(p, [i]), key + "/" + i.name, **TOL)
                sky = pr.like.get_sky_frame_parameters(given)
                for k in ("ra", "dec", "geocent_time"):
                    rec.close(sky[k], p[k], f"{key}/{k}", 0, 3e-6 if k != "geocent_time" else 2e-6)
                rec.check(all(q[k] == v for k, v in given.items()), key + "/input", lambda: {k: (v, q[k]) for k, v in given.items() if q[k] != v})
                if frame == "sky" and tref == "geocenter" and not cal:
                    import bilby
                    b = bilby.gw.likelihood.BasicGravitationalWaveTransient(bilby.gw.detector.InterferometerList(pr.ifos), g.generator())
                    b.parameters.update(given)
                    rec.close(b.log_likelihood(), want + nz, key + "/basic", **TOL)
                    rec.close(b.noise_log_likelihood(), nz, key + "/basicnoise", **TOL)
                    rec.close(b.log_likelihood_ratio(), want, key + "/basicratio", **TOL)
                rec.outcome(round(float(want), 3))
            rec.case(key)
            rec.transition()
    rec.trace()


# ------------------------------------------------------------- histories
OPS = ["setA", "setB", "dist", "assignC", "ratio", "full", "noise", "perdet", "snrs", "recon", "other", "fails", "none", "copy", "pickle", "extra"]
CONFIGS = {"plain": dict(net=("H1", "L1")), "frame": dict(net=("H1", "V1"), frame="H1L1", tref="H1"), "cal": dict(net=("L1", "H1"), cal=True),
           "modes": dict(net=("H1", "L1"), fn=breathing), "site": dict(net=("H1",), tref="V1"), "zen": dict(net=("V1", "L1"), frame="list")}


class World:
    def __init__(self, config):
        self.pr = Problem(**CONFIGS[config])
        self.like = self.pr.like
        self.cur = None
        self.supplied = []
        self.other = None

    def set(self, name, how, rec, key):
        q, p = self.pr.params(name)
        self.supplied.append((q, dict(q)))
        if how == "assign":
            self.like.parameters = q
        else:
            # the user's own edit: what was assigned before is the dictionary being edited
            self.supplied = [s for s in self.supplied if s[0] is not self.like.parameters]
            self.like.parameters.update(q)
        self.cur = p

    def evaluate(self, kind, rec, key):
        if self.cur is None:
            return
        want, nz, like = self.pr.ref_ratio(self.cur), self.pr.ref_noise(), self.like
        if kind == "ratio":
            rec.close(like.log_likelihood_ratio(), want, key, **TOL)
        elif kind == "full":
            rec.close(like.log_likelihood(), want + nz, key, **TOL)
        elif kind == "noise":
            rec.close(like.noise_log_likelihood(), nz, key, **TOL)
        elif kind == "perdet":
            out = like.compute_per_detector_log_likelihood()
            for i in self.pr.ifos:
                rec.close(np.real(out[f"{i.name}_log_likelihood"]), self.pr.ref_ratio(self.cur, [i]), key, **TOL)
        elif kind == "snrs":
            import bilby
            s = dict(like.parameters, **like.get_sky_frame_parameters())
            bilby.gw.conversion.compute_snrs(s, like)
            for i in self.pr.ifos:
                dh, hh = g.terms(i, self.cur, self.pr.signal, calibration=cal_factor(i.name, self.cur) if self.pr.cal else None, fn=self.pr.fn)
                rec.close(s[i.name + "_optimal_snr"], hh ** .5, key, **TOL)
                # the reference has <d|h>; which of the two is conjugated is a convention
                rec.close(np.array([np.real(s[i.name + "_matched_filter_snr"]), abs(np.imag(s[i.name + "_matched_filter_snr"]))]), np.array([(dh / hh ** .5).real, abs((dh / hh ** .5).imag)]), key, **TOL)
        rec.case(key)

    def apply(self, op, rec, key):
        if op in ("setA", "setB"):
            self.set(op[-1], "update", rec, key)
        elif op == "assignC":
            self.set("C", "assign", rec, key)
        elif op == "dist":
            if self.cur is not None:
                self.like.parameters.update(luminosity_distance=333.)
                self.cur = dict(self.cur, luminosity_distance=333.)
                for i, (q, d) in enumerate(self.supplied):
                    if q is self.like.parameters:
                        d["luminosity_distance"] = 333.
        elif op == "extra":
            self.like.parameters.update(unrelated=3., mass_1=30.)
        elif op in ("ratio", "full", "noise", "perdet", "snrs"):
            self.evaluate(op, rec, key)
        elif op == "recon":
            if self.cur is not None:
                out = self.like.generate_posterior_sample_from_marginalized_likelihood()
                rec.check(all(out[k] == v for k, v in self.like.parameters.items()), key)
        elif op == "other":
            import bilby
            if self.other is None:
                self.other = bilby.gw.likelihood.GravitationalWaveTransient(interferometers=self.like.interferometers, waveform_generator=self.like.waveform_generator)
            p = dict(g.POINTS["B"], phase=1.)
            if self.pr.cal:
                p.update(cal_params(9.))
            self.other.parameters.update(p)
            rec.close(self.other.log_likelihood_ratio(), self.pr.ref_ratio(p), key, **TOL)
            rec.case(key)
        elif op == "fails":
            if self.cur is not None:
                v = self.like.parameters.pop("psi")
                try:
                    self.like.log_likelihood_ratio()
                    rec.fail(key, "no error without psi")
                except (KeyError, RuntimeError, AttributeError, TypeError):
                    pass
                self.like.parameters["psi"] = v
        elif op == "none":
            if self.cur is not None:
                self.like.parameters["amp"] = 99.
                rec.check(self.like.log_likelihood_ratio() <= -1e300, key, "the model has no waveform there")
                self.like.parameters["amp"] = self.cur["amp"]
                rec.case(key)
        elif op in ("copy", "pickle"):
            old = self.like
            if op == "copy":
                self.like = copy.deepcopy(old)
            else:
                conv = old.waveform_generator.parameter_conversion
                old.waveform_generator.parameter_conversion = ident
                self.like = pickle.loads(pickle.dumps(old))
                old.waveform_generator.parameter_conversion = conv
            old.parameters.update(amp=5., psi=1.)
            for i in old.interferometers:
                i.minimum_frequency = 20.
            self.supplied = []
            self.other = None
            self.pr = copy.copy(self.pr)
            self.pr.ifos = list(self.like.interferometers)
        for q, d in self.supplied:
            rec.check(all(q[k] == v for k, v in d.items()), key + "/input", lambda: {k: (v, q[k]) for k, v in d.items() if q[k] != v})


def ident(p):
    return p, []


def histories(rec, item):
    _, config, depth, first = item
    rest = [list(itertools.product(OPS, repeat=n)) for n in range(depth)]
    for tail in itertools.chain(*rest):
        seq = (first,) + tail
        if any(a == b and a not in ("other",) for a, b in zip(seq, seq[1:])) and len(seq) > 2:
            continue
        key = f"hist/{config}/{'>'.join(seq)}"
        with rec.guard(key):
            w = World(config)
            if not seq[0].startswith(("set", "assign")):
                w.set("A", "update", rec, key)
            for op in seq:
                w.apply(op, rec, key)
                rec.transition()
            for k in ("ratio", "full", "perdet", "ratio"):
                w.evaluate(k, rec, key + "/" + k)
            for q, d in w.supplied:
                rec.check(all(q[k] == v for k, v in d.items()), key + "/input", lambda: {k: (v, q[k]) for k, v in d.items() if q[k] != v})
            rec.state((config, seq[-2:]))
        rec.trace()


# ------------------------------------------------------------- tables of samples
LABELS = {"range": lambda n: list(range(n)), "reversed": lambda n: list(range(n))[::-1], "gaps": lambda n: [3 * i + 2 for i in range(n)], "named": lambda n: [f"r{i}" for i in range(n)], "repeated": lambda n: [0] * n}


def rows(rec, item):
    _, config, n, pool = item
    import bilby
    import pandas as pd
    conv = bilby.gw.conversion
    for lab, fn in itertools.product(LABELS, ("snrs", "perdet", "sky", "alone", "all")):
        key = f"rows/{config}/{n}/{pool}/{lab}/{fn}"
        with rec.guard(key):
            w = World(config)
            pr = w.pr
            pts = [(dict(a), dict(b)) for a, b in (pr.params("ABC"[i % 3]) for i in range(n))]
            for i, (a, b) in enumerate(pts):
                a["luminosity_distance"] = b["luminosity_distance"] = 300. + 50 * i
            df = pd.DataFrame([a for a, _ in pts], index=LABELS[lab](n))
            before = df.copy()
            if fn != "sky":
                conv.generate_sky_frame_parameters(df, pr.like)
            out = df
            if fn in ("perdet", "all"):
                out = conv.compute_per_detector_log_likelihoods(df, pr.like, npool=pool, block=2)
            if fn in ("snrs", "all"):
                conv.compute_snrs(df, pr.like, npool=pool)
            if fn == "sky":
                conv.generate_sky_frame_parameters(df, pr.like)
            rec.check(list(out.index) == list(before.index) and len(out) == n, key, lambda: str(out.index))
            for k in before:
                rec.equal(list(out[k]), list(before[k]), f"{key}/{k}")
            for i, (a, b) in enumerate(pts):
                for k in ("ra", "dec", "geocent_time"):
                    rec.close(out[k].iloc[i], b[k], f"{key}/{i}/{k}", 0, 3e-6)
                for ifo in pr.ifos:
                    dh, hh = g.terms(ifo, b, pr.signal, calibration=cal_factor(ifo.name, b) if pr.cal else None, fn=pr.fn)
                    if fn in ("snrs", "all"):
                        rec.close(out[ifo.name + "_optimal_snr"].iloc[i], hh ** .5, f"{key}/{i}", **TOL)
                        rec.close(np.real(out[ifo.name + "_matched_filter_snr"].iloc[i]), dh.real / hh ** .5, f"{key}/{i}", **TOL)
                    if fn in ("perdet", "all"):
                        rec.close(np.real(out[ifo.name + "_log_likelihood"].iloc[i]), dh.real - hh / 2, f"{key}/{i}", **TOL)
                rec.case(f"{key}/{i}")
        rec.transition()
        rec.trace()


def run(rec, item):
    globals()[item[0]](rec, item)


def groups(tier, seed):
    deep = tier == "thorough"
    nets = [p for n in (1, 2, 3) for p in itertools.permutations(("H1", "L1", "V1"), n)]
    frames, trefs = ["sky", "H1L1", "L1V1", "objects", "list"], ["geocenter", "H1", "L1", "V1"]
    val = [("values", net, frames, trefs, cal) for net in nets for cal in (False, True)]
    hist = [("histories", c, (4 if deep else 3) if c in ("plain", "frame") else (3 if deep else 2), op) for c in CONFIGS for op in OPS]
    tab = [("rows", c, n, pool) for c in CONFIGS for n, pool in ((1, 1), (5, 1), (5, 2))]
    return [Group("values", val, run, 600), Group("histories", hist, run, 2400), Group("rows", tab, run, 600)]
