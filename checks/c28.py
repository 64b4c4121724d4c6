"""C28: marginalised transient likelihoods against explicit integration, and the reconstruction of marginalised parameters against the conditional posterior."""
import copy
import itertools
import os
import shutil
import tempfile
import numpy as np
from mc import fakerng
from mc import gwref as g
from mc.core import Group

PROPERTY = "C28"
LEVEL = "model_checking"
RULE = ("marginal: every combination of time / phase / distance / calibration marginalisation x distance-prior kind x time prior (wide, narrow, shaped) x jitter x parameter "
        "set x position in an evaluation history, against the prior-weighted sum of the formula; reconstruct: every combination x a lattice of all random answers of the "
        "reconstruction, each returned value placed in the conditional posterior given the values drawn before it; tables: every state of a stored table (absent, "
        "matching, each setting different, torn, given as dictionary); a case = one evaluation or one drawn value")
TECHNIQUE = "exhaustive enumeration of marginalisation combinations, histories and random answers of the real likelihood against explicit numerical integration"
ASSUMPTIONS = ["time integrals are the documented sum over the sampling grid with the detector orientation at the fixed reference time",
               "phase marginalisation is for models whose phase enters as exp(2 i phase) and a uniform prior, as documented",
               "the distance table is an interpolant: compared to 2e-2 at the signal-to-noise ratios used"]
NET = ("H1", "L1")
NCAL = 4
CALMODEL = {n: (g.BAND[n][0], g.BAND[n][1]) for n in g.BAND}


def spline(name):
    import bilby
    lo, hi = CALMODEL[name]
    return bilby.gw.detector.calibration.CubicSpline(f"recalib_{name}_", minimum_frequency=lo, maximum_frequency=hi, n_points=4)


def factor(name, row):
    from scipy.interpolate import CubicSpline
    lo, hi = CALMODEL[name]
    x = np.linspace(np.log10(lo), np.log10(hi), 4)
    m = (g.F >= g.BAND[name][0]) & (g.F <= g.BAND[name][1])
    out = np.ones(len(g.F), dtype=complex)
    lf = np.log10(g.F[m])
    a = CubicSpline(x, [row[f"recalib_{name}_amplitude_{i}"] for i in range(4)])(lf)
    b = CubicSpline(x, [row[f"recalib_{name}_phase_{i}"] for i in range(4)])(lf)
    out[m] = (1 + a) * (2 + 1j * b) / (2 - 1j * b)
    return out


def dprior(kind):
    from bilby.core import prior as P
    from bilby.gw import prior as GP
    n = dict(name="luminosity_distance")
    if kind == "power":
        return P.PowerLaw(2, 100., 1200., **n)
    if kind == "uniform":
        return P.Uniform(150., 800., **n)
    if kind == "source":
        return GP.UniformSourceFrame(100., 1500., cosmology="Planck15", **n)
    if kind == "gauss":
        return P.TruncatedGaussian(mu=500., sigma=150., minimum=100., maximum=1000., **n)
    if kind == "narrow":
        return P.Uniform(300., 330., **n)
    return P.Interped(np.array([100., 300., 500., 900.]), np.array([0., 2., 1., 0.3]), **n)


def tprior(kind):
    from bilby.core import prior as P
    n = dict(name="geocent_time")
    return {"wide": lambda: P.Uniform(g.T0 + .5, g.T0 + 1.5, **n), "edge": lambda: P.Uniform(g.T0 + 1.035, g.T0 + 1.21, **n),
            "shaped": lambda: P.TruncatedGaussian(mu=g.T0 + 1.0, sigma=.06, minimum=g.T0 + .9, maximum=g.T0 + 1.2, **n),
            "start": lambda: P.Uniform(g.T0, g.T0 + 1.3, **n), "end": lambda: P.Uniform(g.T0 + .7, g.T0 + 2., **n)}[kind]()


class Setup:
    """one marginalised likelihood and the reference for it"""

    def __init__(self, time=False, phase=False, dist=False, cal=False, dkind="power", tkind="wide", jitter=True, table=None, quiet=1., signal="C", cls=None, **kw):
        import bilby
        from bilby.core import prior as P
        self.flags = dict(time=time, phase=phase, dist=dist, cal=cal)
        self.signal = dict(g.POINTS[signal], luminosity_distance=g.POINTS[signal]["luminosity_distance"] * quiet)
        self.ifos = [g.detector(n, self.signal, spline if cal else None) for n in NET]
        pri = P.PriorDict(dict(geocent_time=tprior(tkind), phase=P.Uniform(0, 2 * np.pi, boundary="periodic"), luminosity_distance=dprior(dkind)))
        self.pt, self.pd = tprior(tkind), dprior(dkind)
        if cal:
            for n in NET:
                for i in range(4):
                    pri[f"recalib_{n}_amplitude_{i}"] = P.Gaussian(0, 0.15)
                    pri[f"recalib_{n}_phase_{i}"] = P.Gaussian(0, 0.25)
            bilby.core.utils.random.seed(11)
            kw["number_of_response_curves"] = NCAL
        self.user_priors = pri
        self.like = (cls or bilby.gw.likelihood.GravitationalWaveTransient)(interferometers=self.ifos, waveform_generator=g.generator(), priors=pri, time_marginalization=time, phase_marginalization=phase,
                                                                 distance_marginalization=dist, calibration_marginalization=cal, jitter_time=jitter, distance_marginalization_lookup_table=table, **kw)
        self.jitter = time and jitter
        self.factors = None
        if cal:
            d = self.like.calibration_parameter_draws
            self.factors = {n: [factor(n, d[n].iloc[i]) for i in range(NCAL)] for n in NET}
        self.dt = 2 / g.FS
        self.quiet = quiet

    def params(self, name, jit=0.):
        p = dict(g.POINTS[name])
        p["luminosity_distance"] *= self.quiet
        if self.flags["time"]:
            p["geocent_time"] = g.T0
            if self.jitter:
                p["time_jitter"] = jit
        if self.flags["phase"]:
            p["phase"] = 0.
        if self.flags["dist"]:
            p["luminosity_distance"] = float(self.user_priors["luminosity_distance"].peak) if hasattr(self.user_priors["luminosity_distance"], "peak") else float(self.user_priors["luminosity_distance"])
        if self.flags["cal"]:
            for k in self.user_priors:
                if k.startswith("recalib"):
                    p[k] = 0.
        return p

    # ----- reference: <d|h>[cal][time], <h|h>[cal] at the parameters, for phase 0 and the current distance
    def terms(self, p, shifts, index=None, at=None):
        """shifts: times after the reference time p['geocent_time'] (+ jitter); index: one calibration curve only"""
        q = dict(p)
        t = q["geocent_time"] + (q.get("time_jitter", 0.) if self.flags["time"] and self.jitter else 0.)
        q["geocent_time"] = t if at is None else at
        cs = range(NCAL) if self.factors and index is None else [index]
        dh, hh = [], []
        for c in cs:
            a, b = np.zeros(len(shifts), dtype=complex), 0.
            for ifo in self.ifos:
                h = g.project(ifo, q, calibration=self.factors[ifo.name][c] if c is not None else None)
                m = g.mask(ifo)
                d = g.data(ifo, self.signal)
                w = 4 / g.T * np.conj(d[m]) * h[m] / g.psd(ifo.name)[m]
                a += np.exp(-2j * np.pi * np.outer(shifts, g.F[m])) @ w
                b += g.inner(ifo, h, h).real
            dh.append(a)
            hh.append(b)
        return np.array(dh), np.array(hh)

    def grid(self, p):
        """the time samples and their prior weights"""
        if not self.flags["time"]:
            return np.array([0.]), np.array([1.])
        k = np.arange(int(round(g.T / self.dt)))
        j = p.get("time_jitter", 0.) if self.jitter else 0.
        t = g.T0 + k * self.dt + j
        w = np.array([float(self.pt.prob(x)) if self.pt.minimum <= x <= self.pt.maximum else 0. for x in t]) * self.dt
        return k * self.dt, w

    def over_distance(self, dh, hh, d0, phase):
        """log of the integral over distance of the likelihood for arrays dh, hh (same shape)"""
        x = np.linspace(self.pd.minimum, self.pd.maximum, 1501)
        w = np.array(self.pd.prob(x), dtype=float)
        w = w / np.trapz(w, x)
        s = d0 / x
        lo = np.abs(dh) if phase else dh.real
        out = np.empty(dh.shape)
        for i in np.ndindex(dh.shape):
            y = self.lnphase(lo[i] * s) if phase else lo[i] * s
            y = y - hh[i] * s ** 2 / 2
            m = y.max()
            out[i] = m + np.log(np.trapz(w * np.exp(y - m), x))
        return out

    @staticmethod
    def lnphase(a):
        """log of the average of exp(a cos) over the phase"""
        from scipy.special import i0e
        return np.log(i0e(a)) + a

    def table(self, p, shifts, index=None, **kw):
        """log-likelihood for each calibration curve and time shift, phase and distance integrated as configured"""
        dh, hh = self.terms(p, shifts, index, **kw)
        hh = np.repeat(hh[:, None], dh.shape[1], axis=1)
        if self.flags["dist"]:
            return self.over_distance(dh, hh, p["luminosity_distance"], self.flags["phase"])
        if self.flags["phase"]:
            return self.lnphase(np.abs(dh)) - hh / 2
        return dh.real - hh / 2

    def value(self, p):
        shifts, w = self.grid(p)
        keep = w > 0
        y = self.table(p, shifts[keep])
        m = y.max()
        tot = np.sum(w[keep] * np.exp(y - m)) / y.shape[0]
        return m + np.log(tot)


def name(f):
    return "".join(k[0] for k, v in f.items() if v) or "none"


def combos(dist):
    for t, p, c in itertools.product((False, True), repeat=3):
        yield dict(time=t, phase=p, dist=dist, cal=c)


def tol(f):
    return dict(rtol=1e-4, atol=2e-2) if f["dist"] else dict(rtol=1e-8, atol=1e-6)


def evaluate(rec, s, key, points="ABC", jits=(0., .004, -.007)):
    """every point and jitter, twice over and in between other evaluations"""
    f = s.flags
    first = {}
    for rnd, pts in enumerate((points, points[::-1], points)):
        for pt in pts:
            for j in jits if s.jitter else (0.,):
                k = f"{key}/{pt}/{j}/{rnd}"
                with rec.guard(k):
                    p = s.params(pt, j)
                    given = dict(p)
                    if rnd == 1:
                        s.like.parameters = p
                    else:
                        s.like.parameters.update(p)
                    v = s.like.log_likelihood_ratio()
                    if rnd == 0:
                        rec.close(v, s.value(given), k, **tol(f))
                        first[pt, j] = v
                    else:
                        rec.check(abs(v - first.get((pt, j), v)) <= 1e-9 * max(1, abs(v)), k, lambda: f"{v} after other evaluations, {first[pt, j]} at first")
                    rec.check(all(p[q] == x for q, x in given.items()), k + "/input", lambda: {q: (x, p[q]) for q, x in given.items() if p[q] != x})
                    rec.check(all(s.like.parameters[q] == x for q, x in given.items()), k + "/parameters", lambda: {q: (x, s.like.parameters[q]) for q, x in given.items() if s.like.parameters[q] != x})
                    if rnd == 0:
                        rec.close(s.like.log_likelihood(), s.value(given) + g.noise_ll(s.ifos, s.signal), k + "/full", **tol(f))
                    if rnd == 1 and any(f.values()) and (j == 0 or not s.jitter):
                        out = s.like.compute_per_detector_log_likelihood()
                        for ifo in s.ifos:
                            one = copy.copy(s)
                            one.ifos = [ifo]
                            rec.close(out[ifo.name + "_log_likelihood"], one.value(given), k + "/" + ifo.name, **tol(f))
                        s.like.generate_posterior_sample_from_marginalized_likelihood()
                rec.case(k)
                rec.transition()
    rec.trace()


def draw(rec, s, key, pts="AC", lattice=(.07, .31, .5, .82, .985)):
    """every lattice answer for each of the values drawn; each value's place in its conditional posterior is the answer given"""
    f = s.flags
    kinds = [k for k in ("cal", "time", "dist", "phase") if f[k]]
    pname = dict(cal="recalib_index", time="geocent_time", dist="luminosity_distance", phase="phase")
    for pt in pts:
        base = [.5] * len(kinds)
        answers = [tuple(base)] + [tuple(base[:i] + [u] + base[i + 1:]) for i in range(len(kinds)) for u in lattice if u != .5]
        answers += list(itertools.product((.2, .8), repeat=len(kinds))) if len(kinds) > 1 else []
        for ans in answers:
            k = f"{key}/{pt}/{ans}"
            with rec.guard(k):
                it = iter(ans + (.5,) * 50)
                s.like.parameters.update(s.params(pt, .003))
                with fakerng.installed(fakerng.FakeRNG(lambda: next(it))):
                    out = s.like.generate_posterior_sample_from_marginalized_likelihood()
                p = s.params(pt, .003)
                t0 = p["geocent_time"] + (p.get("time_jitter", 0.) if s.jitter else 0.)
                fixed = {q: v for q, v in p.items() if q not in pname.values()}
                rec.check(all(out[q] == v for q, v in fixed.items()), k + "/others", lambda: {q: (v, out[q]) for q, v in fixed.items() if out[q] != v})
                index = None
                u = dict(zip(kinds, ans))
                if f["cal"]:
                    index = int(out["recalib_index"])
                    shifts, w = s.grid(p)
                    keep = w > 0
                    y = s.table(p, shifts[keep])
                    c = (w[keep] * np.exp(y - y.max())).sum(axis=1)
                    c = np.cumsum(c / c.sum())
                    rec.check((c[index - 1] if index else 0) - .02 <= u["cal"] <= c[index] + .02, k + "/cal", lambda: f"{index} for {u['cal']} in {c}")
                shift = 0.
                if f["time"]:
                    tn = out["geocent_time"]
                    rec.check(s.pt.minimum - 1e-6 <= tn <= s.pt.maximum + 1e-6, k, f"time {tn} outside the prior")
                    shift = tn - t0
                    x = np.linspace(s.pt.minimum, s.pt.maximum, 3001)
                    y = s.table(p, x - t0, index)[0]
                    d = np.array(s.pt.prob(x)) * np.exp(y - y.max())
                    cdf = np.concatenate([[0], np.cumsum((d[1:] + d[:-1]) / 2)])
                    rec.close(np.interp(tn, x, cdf / cdf[-1]), u["time"], k + "/time", 0, 2e-2)
                dh, hh = s.terms(p, np.array([shift]), index, at=out["geocent_time"] if f["time"] else None)
                if f["time"]:
                    # at the drawn time the projection uses the orientation at that time
                    q = dict(p, geocent_time=out["geocent_time"])
                    q.pop("time_jitter", None)
                    dh, hh = s.terms(q, np.array([0.]), index)
                dh, hh = dh[0, 0], hh[0]
                scale = 1.
                if f["dist"]:
                    dn = out["luminosity_distance"]
                    x = np.linspace(s.pd.minimum, s.pd.maximum, 4001)
                    r = p["luminosity_distance"] / x
                    y = (s.lnphase(abs(dh) * r) if f["phase"] else dh.real * r) - hh * r ** 2 / 2
                    d = np.array(s.pd.prob(x)) * np.exp(y - y.max())
                    cdf = np.concatenate([[0], np.cumsum((d[1:] + d[:-1]) / 2)])
                    rec.close(np.interp(dn, x, cdf / cdf[-1]), u["dist"], k + "/dist", 0, 1e-2)
                    rec.check(s.pd.minimum <= dn <= s.pd.maximum, k, f"distance {dn} outside the prior")
                    scale = p["luminosity_distance"] / dn
                if f["phase"]:
                    ph = out["phase"]
                    x = np.linspace(0, 2 * np.pi, 4001)
                    y = (dh * scale * np.exp(2j * x)).real
                    d = np.exp(y - y.max())
                    cdf = np.concatenate([[0], np.cumsum((d[1:] + d[:-1]) / 2)])
                    rec.check(0 <= ph <= 2 * np.pi, k, f"phase {ph}")
                    rec.close(np.interp(ph, x, cdf / cdf[-1]), u["phase"], k + "/phase", 0, 3e-2)
                rec.case(k)
                # the evaluation that follows is not affected
                s.like.parameters.update(s.params(pt, .003))
                rec.close(s.like.log_likelihood_ratio(), s.value(s.params(pt, .003)), k + "/after", **tol(f))
            rec.transition()
    rec.trace()


class Scratch:
    def __enter__(self):
        self.cwd, self.d = os.getcwd(), tempfile.mkdtemp(prefix="c28_")
        os.chdir(self.d)
        return self.d

    def __exit__(self, *a):
        os.chdir(self.cwd)
        shutil.rmtree(self.d, ignore_errors=True)


def fresh():
    for n in NET:
        if os.path.exists(f"{n}_calibration_file.h5"):
            os.remove(f"{n}_calibration_file.h5")


def nodist(rec, item):
    _, f, tkinds = item
    with Scratch():
        for tk, jit in itertools.product(tkinds if f["time"] else ("wide",), (True, False) if f["time"] else (True,)):
            key = f"marg/{name(f)}/{tk}/{jit}"
            fresh()
            with rec.guard(key):
                evaluate(rec, Setup(**f, tkind=tk, jitter=jit), key)
            fresh()
            with rec.guard(key):
                draw(rec, Setup(**f, tkind=tk, jitter=jit, quiet=8.), "draw" + key[4:])


def dist(rec, item):
    _, phase, kind, tkinds = item
    with Scratch():
        for t, c in itertools.product((False, True), repeat=2):
            f = dict(time=t, phase=phase, dist=True, cal=c)
            for tk, jit in itertools.product(tkinds if t else ("wide",), (True, False) if t else (True,)):
                key = f"marg/{name(f)}/{kind}/{tk}/{jit}"
                fresh()
                with rec.guard(key):
                    evaluate(rec, Setup(**f, dkind=kind, tkind=tk, jitter=jit, quiet=4., table="table.npz"), key)
                fresh()
                with rec.guard(key):
                    draw(rec, Setup(**f, dkind=kind, tkind=tk, jitter=jit, quiet=6., table="table.npz"), "draw" + key[4:])


# ------------------------------------------------------------- stored tables
def tables(rec, item):
    """every state of the stored table: only a complete table built for the same settings is used"""
    from bilby.gw.likelihood import GravitationalWaveTransient as L
    f = dict(time=False, phase=True, dist=True, cal=False)
    with Scratch():
        s = Setup(**f, dkind="power", quiet=4., table="built.npz")
        want = s.value(s.params("A"))
        with np.load("built.npz") as z:
            good = {k: z[k] for k in z.files}
        kinds = [k for k in good if k != "lookup_table"]
        stub = hasattr(L, "_create_lookup_table") and hasattr(L, "cache_lookup_table")
        built = [0]

        class Quick(L):
            """builds by copying the table built above (kept for the settings it was built for)"""
            if stub:
                def _create_lookup_table(self):
                    built[0] += 1
                    self._dist_margd_loglikelihood_array = good["lookup_table"].copy()
                    self.cache_lookup_table()
        poison = dict(good, lookup_table=good["lookup_table"] + 50.)
        cases = [("same", dict(good), 0), ("empty", {}, 1)]
        for k in kinds:
            bad = dict(poison)
            v = np.array(bad[k])
            bad[k] = ~v if v.dtype == bool else v * (1 + 1e-6)
            cases.append((f"other {k}", bad, 1))
            if v.ndim:
                w = v.copy()
                w[len(w) // 2] *= 1.01
                cases.append((f"one entry of {k}", dict(poison, **{k: w}), 1))
                cases.append((f"shorter {k}", dict(poison, **{k: v[:-1]}), 1))
            cases.append((f"without {k}", {a: b for a, b in poison.items() if a != k}, 1))
        cases.append(("without table", {a: b for a, b in good.items() if a != "lookup_table"}, 1))
        if not stub:
            cases = cases[:1]
        size = os.path.getsize("built.npz")
        raw = open("built.npz", "rb").read()
        for cname, table, n in cases:
            for via in ("file", "dict", "stem"):
                key = f"tables/{cname}/{via}"
                with rec.guard(key):
                    for x in os.listdir("."):
                        if x not in ("built.npz",) and x.endswith("npz"):
                            os.remove(x)
                    arg = "given.npz" if via == "file" else "given" if via == "stem" else table
                    if via != "dict":
                        np.savez("given.npz", **table)
                    built[0] = 0
                    t = Setup(**f, dkind="power", quiet=4., table=arg, cls=Quick)
                    t.like.parameters.update(t.params("A"))
                    rec.close(t.like.log_likelihood_ratio(), want, key, **tol(f))
                    rec.check(built[0] == n or not stub, key, f"built {built[0]} times")
                    if via != "dict":
                        built[0] = 0
                        t = Setup(**f, dkind="power", quiet=4., table=arg, cls=Quick)
                        rec.check(built[0] == 0, key, "the table just stored was not found again")
                        t.like.parameters.update(t.params("A"))
                        rec.close(t.like.log_likelihood_ratio(), want, key + "/again", **tol(f))
                rec.case(key)
                rec.transition()
        for i in range(0, 9) if stub else ():
            key = f"tables/torn/{i}"
            with rec.guard(key):
                with open("given.npz", "wb") as h:
                    h.write(raw[: size * i // 8] if i < 8 else b"something else" * 100)
                built[0] = 0
                t = Setup(**f, dkind="power", quiet=4., table="given.npz", cls=Quick)
                t.like.parameters.update(t.params("A"))
                rec.close(t.like.log_likelihood_ratio(), want, key, **tol(f))
                rec.check(built[0] == 1, key, f"built {built[0]} times")
            rec.case(key)
        # another analysis in the same directory
        if stub:
            real = dict(good)
            for order in itertools.product(("power", "uniform"), repeat=3):
                key = f"tables/shared/{order}"
                with rec.guard(key):
                    if os.path.exists("shared.npz"):
                        os.remove("shared.npz")
                    last = None
                    for k in order:
                        built[0] = 0
                        Setup(**f, dkind=k, quiet=4., table="shared.npz", cls=Quick)
                        rec.check(built[0] == (k != last), key, f"{k} after {last}: built {built[0]} times")
                        last = k
                rec.case(key)
    rec.trace()


def number(x):
    return float(getattr(x, "peak", x))


def refused(rec, item):
    import bilby
    from bilby.core import prior as P
    with Scratch():
        for kw, key_ in (("time_marginalization", "geocent_time"), ("phase_marginalization", "phase"), ("distance_marginalization", "luminosity_distance")):
            for kind in ("fixed", "number", "nothing", "conditional"):
                key = f"refused/{kw}/{kind}"
                pri = P.PriorDict(dict(luminosity_distance=dprior("power"), geocent_time=tprior("wide"), phase=P.Uniform(0, 2 * np.pi)))
                if kind == "fixed":
                    pri[key_] = P.DeltaFunction(1.)
                elif kind == "number":
                    pri[key_] = 1.
                elif kind == "nothing":
                    pri = None
                else:
                    continue
                try:
                    bilby.gw.likelihood.GravitationalWaveTransient([g.detector("H1")], g.generator(), priors=pri, **{kw: True})
                    rec.fail(key, "accepted")
                except (ValueError, AttributeError):
                    pass
                except Exception as e:
                    rec.fail(key, f"{type(e).__name__} {e}")
                rec.case(key)
        for ref in ("H1", "L1"):
            key = f"refused/time/{ref}"
            with rec.guard(key):
                pri = P.PriorDict(dict(geocent_time=tprior("wide"), phase=P.Uniform(0, 2 * np.pi)))
                like = bilby.gw.likelihood.GravitationalWaveTransient([g.detector("H1"), g.detector("L1")], g.generator(), priors=pri, time_marginalization=True, time_reference=ref)
                p = g.to_frame(g.A, None, ref, bilby.gw.detector.get_empty_interferometer(ref))
                like.parameters.update(p)
                rec.close(like.log_likelihood_ratio(), g.ratio([g.detector("H1"), g.detector("L1")], g.A), key, 2e-7, 2e-7)
            rec.case(key)
        for t, p, jit in itertools.product((False, True), repeat=3):
            # the priors handed back: marginalised parameters are fixed at reference values, others are untouched
            key = f"priors/{t}{p}{jit}"
            with rec.guard(key):
                s = Setup(time=t, phase=p, jitter=jit)
                u = s.user_priors
                rec.check(number(u["geocent_time"]) == g.T0 if t else u["geocent_time"] == tprior("wide"), key, lambda: str(u["geocent_time"]))
                rec.check(number(u["phase"]) == 0 if p else u["phase"] == P.Uniform(0, 2 * np.pi, boundary="periodic"), key, lambda: str(u["phase"]))
                rec.check(u["luminosity_distance"] == dprior("power"), key)
                rec.check(("time_jitter" in u) == (t and jit), key)
                if t and jit:
                    rec.check(abs(u["time_jitter"].minimum + s.dt / 2) < 1e-12 and abs(u["time_jitter"].maximum - s.dt / 2) < 1e-12, key)
            rec.case(key)
    rec.trace()


# ------------------------------------------------------------- reconstruction of tables of samples
def rows(rec, item):
    _, f, n = item
    import bilby
    import pandas as pd
    conv, rnd = bilby.gw.conversion, bilby.core.utils.random
    names = dict(cal="recalib_index", time="geocent_time", dist="luminosity_distance", phase="phase")
    new = [v for k, v in names.items() if f[k]]

    class Stop(Exception):
        pass

    with Scratch():
        s = Setup(**f, quiet=8., jitter=True)
        pts = [dict(s.params("ABC"[i % 3], .001 * i), psi=.3 + .2 * i) for i in range(n)]

        def table(index):
            return pd.DataFrame(pts, index=index)
        ranges = dict(geocent_time=(s.pt.minimum, s.pt.maximum), phase=(0, 2 * np.pi), recalib_index=(0, NCAL - 1))

        def go(df, stop=None, **kw):
            rnd.seed(7)
            count = [0]
            old = s.like.generate_posterior_sample_from_marginalized_likelihood

            def counted():
                if stop is not None and count[0] == stop:
                    raise Stop
                count[0] += 1
                return old()
            s.like.generate_posterior_sample_from_marginalized_likelihood = counted
            try:
                return conv.generate_posterior_samples_from_marginalized_likelihood(df, s.like, **kw), count[0]
            except Stop:
                return None, count[0]
            finally:
                del s.like.generate_posterior_sample_from_marginalized_likelihood
        ref, _ = go(table(range(n)), use_cache=False)
        ref = {k: np.array(ref[k]) for k in ref}
        key = f"rows/{name(f)}/{n}"
        for k in new:
            rec.check(np.all((ref[k] >= ranges[k][0] - 1e-6) & (ref[k] <= ranges[k][1] + 1e-6)), key, lambda: str(ref[k]))

        def same(out, key, index):
            rec.check(list(out.index) == index and len(out) == n, key, lambda: str(out.index))
            for k in ref:
                rec.check(len(out[k]) == n and np.all(np.array(out[k]) == ref[k]), f"{key}/{k}", lambda: f"{list(out[k])} for {list(ref[k])}")
        for lab, pool, block in itertools.product(("range", "reversed", "gaps", "repeated"), (1, 2), (1, 2, 3, 10)):
            if pool == 2 and (lab not in ("gaps",) or block == 1):
                continue
            index = dict(range=list(range(n)), reversed=list(range(n))[::-1], gaps=[3 * i + 2 for i in range(n)], repeated=[0] * n)[lab]
            k = f"{key}/{lab}/{pool}/{block}"
            with rec.guard(k):
                if pool == 2:
                    rnd.seed(7)
                    out = conv.generate_posterior_samples_from_marginalized_likelihood(table(index), s.like, npool=2, block=block, use_cache=False)
                else:
                    out, _ = go(table(index), block=block, use_cache=False)
                same(out, k, index)
            rec.case(k)
            rec.transition()
        s.like.outdir, s.like.label = os.getcwd(), "lab"
        for stop, b1, b2 in itertools.product(range(n + 1), (1, 2, 3), (1, 2, 3)):
            k = f"{key}/stopped {stop}/{b1}>{b2}"
            with rec.guard(k):
                for x in os.listdir("."):
                    if "cache" in x:
                        os.remove(x)
                go(table(range(n)), stop=stop, block=b1)
                out, cnt = go(table(range(n)), block=b2)
                same(out, k, list(range(n)))
                if b1 == b2:
                    rec.check(cnt == n - stop // b1 * b1 if stop < n else cnt == 0, k, f"{cnt} rows were drawn again after stopping at {stop}")
                # other samples never use the stored draws
                other = table(range(n))
                other["psi"] += 1e-3
                out, cnt = go(other, block=b2)
                rec.check(cnt == n and out is not None, k, f"{cnt} of {n} rows of another posterior drawn")
            rec.case(k)
            rec.transition()
    rec.trace()


def run(rec, item):
    globals()[item[0]](rec, item)


def groups(tier, seed):
    deep = tier == "thorough"
    tk = ("wide", "edge", "shaped", "start", "end") if deep else ("wide", "edge", "shaped")
    nd = [("nodist", f, (t,)) for f in combos(False) for t in (tk if f["time"] else ("wide",))]
    kinds = ("power", "uniform", "source", "gauss", "narrow", "table") if deep else ("power", "gauss")
    dd = [("dist", p, k, tk if deep else ("edge",)) for k in kinds for p in (True, False)]
    rw = [("rows", dict(time=t, phase=p, dist=False, cal=c), n) for t, p, c in ((True, True, False), (False, True, False), (True, False, True), (False, True, True)) for n in ((5, 7) if deep else (5,))]
    return [Group("tables", [("tables",)], run, 1200), Group("rows", rw, run, 900), Group("refused", [("refused",)], run, 300), Group("distance", dd, run, 1800), Group("others", nd, run, 900)]
