"""C01: every prior distribution is self-consistent (class x settings x quantile lattice x containers x edits)."""
import itertools
import os
import pickle
import copy
import numpy as np
import scipy.stats as st
from mc.core import Group
from mc import fakerng

PROPERTY = "C01"
LEVEL = "exploration"
RULE = ("one case = (prior class, settings, checked aspect, lattice element); all classes x all settings of the table x all "
        "quantiles/values of the lattice are enumerated; non-trivial = quantile strictly inside (0,1) or value at/around a bound")
ASSUMPTIONS = ["values between lattice points behave like the enclosing cell (cell probabilities are integrated numerically)",
               "interpolated priors are compared at their table accuracy (2e-3)"]
inf = np.inf
pi = np.pi


def C():
    import bilby.core.prior as P
    import bilby.gw.prior as G
    return P, G


# name -> (factory(P, G), reference cdf or None, tolerance)
def table(tier):
    P, G = C()
    T = []

    def add(label, make, ref=None, tol=1e-7, **kw):
        T.append(dict(label=label, make=make, ref=ref, tol=tol, **kw))

    for a, b in [(0, 1), (-3.0, 2.0), (0.25, 8), (1e-8, 2e-8), (-1e6, 1e6), (5, 5 + 1e-6)]:
        add(f"Uniform({a},{b})", lambda a=a, b=b: P.Uniform(a, b), st.uniform(a, b - a).cdf)
    for al, a, b in itertools.product([-2, -1, 0, 1, 2.5, -0.5, -1.0000001], [1, 0.1], [2, 50.0]):
        def ref(x, al=al, a=a, b=b):
            if al == -1:
                return np.clip(np.log(x / a) / np.log(b / a), 0, 1)
            n = al + 1
            # stable power-law cdf
            return np.clip(np.expm1(n * np.log(x / a)) / np.expm1(n * np.log(b / a)), 0, 1)
        add(f"PowerLaw({al},{a},{b})", lambda al=al, a=a, b=b: P.PowerLaw(al, a, b), ref,
            tol=1e-6 if al == -1.0000001 else 1e-8)
    for al in (0, 1, 2.0):
        add(f"PowerLaw({al},0,3)", lambda al=al: P.PowerLaw(al, 0, 3), lambda x, al=al: np.clip(x / 3., 0, 1) ** (al + 1))
    for a, b in [(1, 2), (1e-3, 1e3), (10.0, 5000.0)]:
        add(f"LogUniform({a},{b})", lambda a=a, b=b: P.LogUniform(a, b), st.loguniform(a, b).cdf)
        add(f"SymmetricLogUniform({a},{b})", lambda a=a, b=b: P.SymmetricLogUniform(a, b),
            lambda x, a=a, b=b: np.where(x < 0, 0.5 * (1 - np.clip(np.log(np.clip(-x, a, b) / a) / np.log(b / a), 0, 1)),
                                         0.5 + 0.5 * np.log(np.clip(x, a, b) / a) / np.log(b / a)), support=(-b, b), gap=(-a, a))
    for a, b in [(-pi / 2, pi / 2), (-0.5, 0.7), (0.1, 1.0)]:
        add(f"Cosine({a:.2f},{b:.2f})", lambda a=a, b=b: P.Cosine(a, b),
            lambda x, a=a, b=b: np.clip((np.sin(np.clip(x, a, b)) - np.sin(a)) / (np.sin(b) - np.sin(a)), 0, 1))
    for a, b in [(0, pi), (0.2, 1.5), (1.0, 3.0)]:
        add(f"Sine({a:.2f},{b:.2f})", lambda a=a, b=b: P.Sine(a, b),
            lambda x, a=a, b=b: (np.cos(a) - np.cos(np.clip(x, a, b))) / (np.cos(a) - np.cos(b)))
    for mu, s in [(0, 1), (-3.5, 0.1), (1e3, 20.0)]:
        add(f"Gaussian({mu},{s})", lambda mu=mu, s=s: P.Gaussian(mu, s), st.norm(mu, s).cdf)
        add(f"Normal({mu},{s})", lambda mu=mu, s=s: P.Normal(mu, s), st.norm(mu, s).cdf)
        add(f"Logistic({mu},{s})", lambda mu=mu, s=s: P.Logistic(mu, s), st.logistic(mu, s).cdf)
        add(f"Cauchy({mu},{s})", lambda mu=mu, s=s: P.Cauchy(mu, s), st.cauchy(mu, s).cdf)
        add(f"Lorentzian({mu},{s})", lambda mu=mu, s=s: P.Lorentzian(mu, s), st.cauchy(mu, s).cdf)
        for df in (1, 2.5, 30):
            add(f"StudentT({df},{mu},{s})", lambda df=df, mu=mu, s=s: P.StudentT(df, mu, s), st.t(df, mu, s).cdf)
    add("StudentT(4)", lambda: P.StudentT(4), st.t(4).cdf)
    for mu, s, a, b in [(0, 1, -1, 2), (0.5, 0.4, 0, 1), (0, 2, 1, 3), (10, 1, -inf, 11.0), (-2, 1.5, -3, inf)]:
        t = st.truncnorm((a - mu) / s, (b - mu) / s, mu, s)
        add(f"TruncatedGaussian({mu},{s},{a},{b})", lambda mu=mu, s=s, a=a, b=b: P.TruncatedGaussian(mu, s, a, b), t.cdf)
        add(f"TruncatedNormal({mu},{s},{a},{b})", lambda mu=mu, s=s, a=a, b=b: P.TruncatedNormal(mu, s, a, b), t.cdf)
    for s in (1, 0.2, 7.0):
        add(f"HalfGaussian({s})", lambda s=s: P.HalfGaussian(s), st.halfnorm(0, s).cdf)
        add(f"HalfNormal({s})", lambda s=s: P.HalfNormal(s), st.halfnorm(0, s).cdf)
        add(f"Exponential({s})", lambda s=s: P.Exponential(s), st.expon(0, s).cdf)
    for mu, s in [(0, 1), (2.0, 0.3), (-4, 0.05)]:
        add(f"LogNormal({mu},{s})", lambda mu=mu, s=s: P.LogNormal(mu, s), st.lognorm(s, 0, np.exp(mu)).cdf)
        add(f"LogGaussian({mu},{s})", lambda mu=mu, s=s: P.LogGaussian(mu, s), st.lognorm(s, 0, np.exp(mu)).cdf)
    for a, b, lo, hi in [(2, 3, 0, 1), (1, 1, 0, 1), (0.5, 0.5, 0, 1), (2.0, 5.0, -1.0, 3.0), (1, 3, 2, 4), (3, 1, 0, 10)]:
        add(f"Beta({a},{b},{lo},{hi})", lambda a=a, b=b, lo=lo, hi=hi: P.Beta(a, b, lo, hi),
            lambda x, a=a, b=b, lo=lo, hi=hi: st.beta(a, b).cdf((x - lo) / (hi - lo)))
    for k, th in [(1, 1), (2, 0.5), (0.5, 3.0), (7.5, 2.0)]:
        add(f"Gamma({k},{th})", lambda k=k, th=th: P.Gamma(k, th), st.gamma(k, scale=th).cdf)
    add("Gamma(3)", lambda: P.Gamma(3), st.gamma(3).cdf)
    for nu in (1, 2, 5):
        add(f"ChiSquared({nu})", lambda nu=nu: P.ChiSquared(nu), st.chi2(nu).cdf)
    for s, mu, r in [(1.0, 10.0, None), (2.0, None, 3.0), (0.5, 1.0, None), (1.5, None, 10.0)]:
        m = mu if mu is not None else s * r

        def ref(x, s=s, m=m):
            x = np.maximum(x, 0)
            tot = s * np.log1p(np.exp(m / s))
            # integral_0^x dx/(exp((x-m)/s)+1) = x - s*log((1+e^{(x-m)/s})/(1+e^{-m/s}))
            return (x - s * (np.logaddexp(0, (x - m) / s) - np.logaddexp(0, -m / s))) / tot
        add(f"FermiDirac({s},{mu},{r})", lambda s=s, mu=mu, r=r: P.FermiDirac(s, mu=mu, r=r), ref, tol=1e-6, nocdf=True)
    for m, a, b in [(0.5, 0, 1), (0, 0, 1), (1, 0, 1), (3.0, -1.0, 4.0), (-0.9, -1, 4)]:
        add(f"Triangular({m},{a},{b})", lambda m=m, a=a, b=b: P.Triangular(m, a, b),
            st.triang((m - a) / (b - a), a, b - a).cdf)
    # interpolated
    xs = np.linspace(-1, 2, 400)
    yv = np.exp(-0.5 * xs ** 2)
    add("Interped(gauss)", lambda: P.Interped(xs.copy(), yv.copy()), st.truncnorm(-1, 2).cdf, tol=2e-4)
    add("Interped(gauss,-0.5,1)", lambda: P.Interped(xs.copy(), yv.copy(), minimum=-0.5, maximum=1.0),
        st.truncnorm(-0.5, 1).cdf, tol=2e-4)
    add("Interped(unnormalised)", lambda: P.Interped(xs.copy(), 17 * (xs + 2), minimum=0.),
        lambda x: np.clip(((x + 2) ** 2 - 4) / 12., 0, 1) * (x >= 0), tol=2e-4)
    fn = os.path.join(os.getcwd(), "c01_table.txt")
    if not os.path.exists(fn):
        np.savetxt(fn, np.array([xs, yv]).T)
    add("FromFile", lambda: P.FromFile(fn, minimum=-1, maximum=2), st.truncnorm(-1, 2).cdf, tol=2e-4)
    # slab and spike
    for loc, h in [(None, 0.3), (0.5, 0.4), (1.0, 0.2), (0.25, 0.0), (0.7, 0.9)]:
        add(f"SlabSpike(U,{loc},{h})", lambda loc=loc, h=h: P.SlabSpikePrior(P.Uniform(0, 1), loc, h), None,
            spike=(0.0 if loc is None else loc, h), slabcdf=st.uniform(0, 1).cdf)
    add("SlabSpike(PL,20,0.4)", lambda: P.SlabSpikePrior(P.PowerLaw(2, 1, 30), 20.0, 0.4), None, spike=(20.0, 0.4),
        slabcdf=lambda x: (x ** 3 - 1) / (30. ** 3 - 1))
    add("SlabSpike(TG,0.1,0.1)", lambda: P.SlabSpikePrior(P.TruncatedGaussian(0, 1, -1, 1), 0.1, 0.1), None,
        spike=(0.1, 0.1), slabcdf=st.truncnorm(-1, 1).cdf)
    # gw
    for a, b in [(5., 50.), (1.0, 2.0)]:
        add(f"UniformInComponentsChirpMass({a},{b})", lambda a=a, b=b: G.UniformInComponentsChirpMass(a, b),
            lambda x, a=a, b=b: np.clip((x * x - a * a) / (b * b - a * a), 0, 1))
    from scipy.integrate import quad
    for a, b in [(0.125, 1.0), (0.05, 0.6)]:
        nrm = quad(lambda q: (1 + q) ** .4 / q ** 1.2, a, b)[0]
        add(f"UniformInComponentsMassRatio({a},{b})", lambda a=a, b=b: G.UniformInComponentsMassRatio(a, b),
            np.vectorize(lambda x, a=a, b=b, nrm=nrm: quad(lambda q: (1 + q) ** .4 / q ** 1.2, a, min(max(x, a), b))[0] / nrm),
            tol=1e-5)
    from bilby.gw.cosmology import get_cosmology
    cosmo = get_cosmology()
    zz = np.linspace(0, 2.0, 20001)
    dv = cosmo.differential_comoving_volume(zz).value
    dl, dc = cosmo.luminosity_distance(zz).value, cosmo.comoving_distance(zz).value
    for cls, w in (("UniformComovingVolume", dv), ("UniformSourceFrame", dv / (1 + zz))):
        cum = np.concatenate([[0], np.cumsum((w[1:] + w[:-1]) / 2 * np.diff(zz))])
        for name, ax, rngs in (("redshift", zz, [(0.01, 1.0), (0.2, 0.5)]), ("luminosity_distance", dl, [(100., 5000.), (10., 500.)]),
                               ("comoving_distance", dc, [(100., 3000.)])):
            for a, b in rngs:
                ca, cb = np.interp([a, b], ax, cum)
                add(f"{cls}({a},{b},{name})", lambda cls=cls, a=a, b=b, name=name: getattr(G, cls)(a, b, name=name),
                    lambda x, ax=ax, cum=cum, ca=ca, cb=cb: np.clip((np.interp(x, ax, cum) - ca) / (cb - ca), 0, 1), tol=2e-3)

    def alref(x, amax, zmin, zmax):
        # P(a z < x) for a~U(0,amax), z~U(zmin,zmax), by direct quadrature over a
        a = np.linspace(1e-6, amax, 4001)
        x = np.atleast_1d(x)
        return np.array([np.trapz(np.clip((xx / a - zmin) / (zmax - zmin), 0, 1), a) / amax for xx in x])
    for amax, z0, z1 in [(1.0, -1, 1), (0.8, -1, 1)]:
        add(f"AlignedSpin({amax},{z0},{z1})", lambda amax=amax, z0=z0, z1=z1: G.AlignedSpin(P.Uniform(0, amax), P.Uniform(z0, z1)),
            lambda x, amax=amax, z0=z0, z1=z1: alref(x, amax, z0, z1), tol=1.2e-2)
    return T


U = np.array([1e-6, 1e-3, 0.01, 0.05, 0.1, 0.2, 0.25, 0.3, 0.4, 0.4999, 0.5, 0.5001, 0.6, 0.7, 0.75, 0.8, 0.9, 0.95, 0.99, 0.999,
              1 - 1e-6])


def dens(rec, key, spec, p):
    """cdf o transform, cell probabilities by quadrature of the density, monotonicity, containers, edges"""
    tol = spec["tol"]
    x = np.asarray(p.rescale(U.copy()), float)
    rec.check(x.shape == U.shape and np.all(np.isfinite(x)), key + ":finite", lambda: f"{x}")
    rec.check(np.all(np.diff(x) >= -1e-12 * np.abs(x[1:])), key + ":monotonic", lambda: f"{x}")
    for u in U:
        rec.case(f"{key}:u={u:.6g}")
    lo, hi = spec.get("support", (p.minimum, p.maximum))
    w = 0.0 if not np.isfinite(hi - lo) else 1e-9 * (hi - lo)
    rec.check(np.all((x >= lo - w) & (x <= hi + w)), key + ":support", lambda: f"{x} not in [{lo},{hi}]")
    inr = np.array([bool(p.is_in_prior_range(v)) for v in x[1:-1]])
    rec.check(inr.all(), key + ":inrange", lambda: f"transformed values flagged out of range: {x[1:-1][~inr]}")
    # reference
    if spec["ref"] is not None:
        rec.close(spec["ref"](x), U, key + ":reference-cdf", rtol=0, atol=max(tol, 1e-9), message="reference cdf of transform")
    if not spec.get("nocdf"):
        c = np.asarray(p.cdf(x.copy()), float)
        rec.close(c, U, key + ":cdf(rescale)", rtol=0, atol=max(tol, 1e-9), message="cdf(rescale(u))")
    # cell probabilities from prob
    gx, gw = np.polynomial.legendre.leggauss(64)
    interp = tol > 1e-5
    for i in range(len(U) - 1):
        a, b = x[i], x[i + 1]
        if spec.get("gap") and a < 0 < b:
            continue
        m = 20 if interp else 1
        edges = np.linspace(a, b, m + 1)
        tot = 0
        for e0, e1 in zip(edges[:-1], edges[1:]):
            pts = 0.5 * (e1 - e0) * gx + 0.5 * (e1 + e0)
            pr = np.asarray(p.prob(pts), float)
            if pr.shape != pts.shape or np.any(pr < 0):
                rec.fail(key + ":prob-shape-sign", f"{pr.shape}")
                return
            tot += 0.5 * (e1 - e0) * np.sum(gw * pr)
        # small cells of heavy tails / singular ends integrate poorly
        atol = max(2 * tol, 2e-6)
        if i in (0, len(U) - 2):
            atol = max(atol, 2e-5)
        rec.check(abs(tot - (U[i + 1] - U[i])) < atol, f"{key}:cell{i}",
                  lambda: f"mass in [{a},{b}] from prob {tot} expected {U[i+1]-U[i]}")
        rec.case(f"{key}:cell{i}")
    # log density, scalars vs arrays
    grid = np.concatenate([x, outside(lo, hi), [v for v in (lo, hi) if np.isfinite(v)]])
    pa, la = np.asarray(p.prob(grid.copy()), float), np.asarray(p.ln_prob(grid.copy()), float)
    ca = None if spec.get("nocdf") else np.asarray(p.cdf(grid.copy()), float)
    with np.errstate(all="ignore"):
        rec.check(np.allclose(np.exp(la), pa, rtol=1e-8, atol=1e-300, equal_nan=False) or
                  np.all((np.exp(la) == pa) | np.isclose(np.exp(la), pa, rtol=1e-8, atol=1e-300)),
                  key + ":ln_prob", lambda: f"x={grid} prob={pa} exp(ln_prob)={np.exp(la)}")
    rec.check(np.all(pa >= 0), key + ":nonneg")
    out = outside(lo, hi)
    po = np.asarray(p.prob(out.copy()), float) if len(out) else np.array([])
    rec.check(np.all(po == 0), key + ":zero-outside", lambda: f"prob{out}={po}")
    if not spec.get("nocdf") and len(out):
        co = np.asarray(p.cdf(out.copy()), float)
        rec.check(np.all((np.abs(co - (out > hi)) < max(1e-9, 1e-2 * tol))), key + ":cdf-outside", lambda: f"cdf{out}={co}")
    for j, v in enumerate(grid):
        v = float(v)
        rec.case(f"{key}:v{j}")
        for nm, f, arr in (("prob", p.prob, pa), ("ln_prob", p.ln_prob, la), ("cdf", None if ca is None else p.cdf, ca)):
            if f is None:
                continue
            for conv in (float, np.float64):
                try:
                    s = np.ravel(np.asarray(f(conv(v)), float))
                except Exception as e:
                    rec.fail(f"{key}:scalar-{nm}", f"{nm}({v}) raised {e!r}")
                    continue
                if not (len(s) == 1 and (np.isclose(s[0], arr[j], rtol=max(1e-9, 1e-2 * tol), atol=1e-300) or s[0] == arr[j] or (s[0] != s[0] and arr[j] != arr[j]))):
                    rec.fail(f"{key}:scalar-{nm}", f"{nm}({v}) scalar {s} array {arr[j]}")
            one = np.ravel(np.asarray(f(np.array([v])), float))
            if not (len(one) == 1 and (np.isclose(one[0], arr[j], rtol=1e-9, atol=1e-300) or one[0] == arr[j])):
                rec.fail(f"{key}:array1-{nm}", f"{nm}([{v}]) {one} array {arr[j]}")
    for v in (-7, -1, 0, 1, 2, 3, 12):
        for nm in ("prob", "ln_prob") + (() if ca is None else ("cdf",)):
            a, b = (np.ravel(np.asarray(getattr(p, nm)(w), float)) for w in (v, np.array([float(v)])))
            rec.check(len(a) == 1 and (a[0] == b[0] or np.isclose(a[0], b[0], rtol=1e-7, atol=1e-300)), f"{key}:int-{nm}",
                      lambda: f"{nm}({v}) int {a} float array {b}")
        rec.case(f"{key}:int{v}")
    for j, u in enumerate(U):
        s = np.ravel(np.asarray(p.rescale(float(u)), float))
        rec.check(len(s) == 1 and np.isclose(s[0], x[j], rtol=1e-10, atol=1e-300), key + ":scalar-rescale",
                  lambda: f"rescale({u}) scalar {s} array {x[j]}")
    # end points of the unit interval
    e = np.asarray(p.rescale(np.array([0.0, 1.0])), float)
    es = [float(np.ravel(p.rescale(v))[0]) for v in (0.0, 1.0)]
    for got, sc, want, nm in ((e[0], es[0], lo, "0"), (e[1], es[1], hi, "1")):
        ok = (got == want or np.isclose(got, want, rtol=1e-7, atol=1e-9)) and (
            sc == want or np.isclose(sc, want, rtol=1e-7, atol=1e-9))
        if not np.isfinite(want):  # a very large finite number is an acceptable representation of the infinite end
            far = float(np.ravel(p.rescale(np.array([1 - 1e-12 if want > 0 else 1e-12])))[0])
            ok = all(v == want or (v >= far if want > 0 else v <= far) for v in (got, sc))
        rec.check(ok, f"{key}:end{nm}", lambda: f"rescale({nm}) array {got} scalar {sc}, support end {want}")
    # inclusive bounds: density at a finite bound equals its inner limit when that is finite
    for v, sgn in ((lo, 1), (hi, -1)):
        if np.isfinite(v):
            inner = float(np.ravel(p.prob(np.array([v + sgn * 1e-9 * max(1e-3, abs(v), 1e-9 if not np.isfinite(hi - lo) else hi - lo)])))[0])
            atb = float(np.ravel(p.prob(np.array([float(v)])))[0])
            if np.isfinite(inner) and 1e-4 < inner < 1e4 and not spec.get("gap"):
                rec.check(np.isclose(atb, inner, rtol=1e-3, atol=2e-3 if interp else 1e-6), f"{key}:bound{'lo' if sgn > 0 else 'hi'}",
                          lambda: f"prob({v})={atb} inner limit {inner}")


def outside(lo, hi):
    out = []
    s = hi - lo if np.isfinite(hi - lo) else 1.0
    if np.isfinite(lo):
        out += [lo - 1e-3 * s, lo - s, lo - 100 * s]
    if np.isfinite(hi):
        out += [hi + 1e-3 * s, hi + s, hi + 100 * s]
    return np.array(out, float)


def untouched(rec, key, p):
    for nm, arr in (("rescale", U), ("prob", None), ("ln_prob", None), ("cdf", None)):
        a = U.copy() if arr is not None else np.asarray(p.rescale(U.copy()), float)
        b = a.copy()
        try:
            getattr(p, nm)(a)
        except Exception as e:
            if nm != "cdf":
                rec.fail(f"{key}:{nm}-raised", repr(e))
        rec.check(np.array_equal(a, b), f"{key}:input-modified-{nm}")


def sampling(rec, key, p):
    us = [0.1, 0.37, 0.5, 0.93]
    expect = [float(np.ravel(p.rescale(u))[0]) for u in us]
    with fakerng.installed(fakerng.from_list(us)):
        got = [p.sample() for _ in us]
    rec.check(all(np.isclose(float(np.ravel(g)[0]), e, rtol=1e-10) for g, e in zip(got, expect)), key + ":sample",
              lambda: f"{got} {expect}")
    with fakerng.installed(fakerng.from_list(us)):
        got = np.asarray(p.sample(len(us)))
    rec.check(got.shape == (len(us),) and np.allclose(got, expect, rtol=1e-10), key + ":sample(n)", lambda: f"{got} {expect}")
    with fakerng.installed(fakerng.from_list(us[:1])):
        got = np.asarray(p.sample(1))
    rec.check(got.shape == (1,) and np.allclose(got, expect[:1], rtol=1e-10), key + ":sample(1)", lambda: f"{got}")


def run_spec(rec, idx):
    spec = SPECS[idx]
    key = spec["label"]
    p = spec["make"]()
    if spec.get("spike"):
        return run_spike(rec, key, spec, p)
    dens(rec, key, spec, p)
    untouched(rec, key, p)
    sampling(rec, key, p)
    q = pickle.loads(pickle.dumps(p)) if "<lambda>" not in key else p
    rec.close(q.rescale(U.copy()), p.rescale(U.copy()), key + ":pickle", rtol=1e-12)
    q = copy.deepcopy(p)
    rec.close(q.prob(np.asarray(p.rescale(U.copy()))), p.prob(np.asarray(p.rescale(U.copy()))), key + ":deepcopy", rtol=1e-12)
    rec.check(q == p, key + ":copy-equal")


def run_spike(rec, key, spec, p):
    loc, h = spec["spike"]
    slab = spec["slabcdf"]
    below = float(slab(loc)) * (1 - h)
    edge = np.array([below - 1e-9, below + 1e-9, below + h - 1e-9, below + h + 1e-9])
    us = np.sort(np.concatenate([U, edge[(edge > 0) & (edge < 1)]]))
    x = p.rescale(us.copy())
    xs = np.array([p.rescale(float(u)) for u in us], float)
    rec.close(xs, x, key + ":scalar-rescale", rtol=1e-10)
    for u, v in zip(us, x):
        rec.case(f"{key}:{u:.9g}")
        if below + 1e-10 < u < below + h - 1e-10:
            rec.check(v == loc, f"{key}:on-spike", f"u={u} x={v}")
        elif u < below - 1e-10:
            rec.check(abs(float(slab(v)) * (1 - h) - u) < 1e-7, f"{key}:below", f"u={u} x={v}")
        elif u > below + h + 1e-10:
            rec.check(abs(float(slab(v)) * (1 - h) + h - u) < 1e-7, f"{key}:above", f"u={u} x={v}")
    lo, hi = p.minimum, p.maximum
    grid = np.concatenate([[lo, hi], outside(lo, hi), np.linspace(lo, hi, 13), [loc]])
    pr, lp = p.prob(grid.copy()), p.ln_prob(grid.copy())
    cd = p.cdf(grid.copy())
    for g, a, l, c in zip(grid, pr, lp, cd):
        rec.case(f"{key}:x={g}")
        g = float(g)
        if g == loc:
            rec.check(a == inf and l == inf, f"{key}:spike-density", f"{a} {l}")
        else:
            ref = float(np.ravel(p.slab.prob(np.array([g])))[0]) * (1 - h)
            rec.check(np.isclose(a, ref), f"{key}:slab-density", f"{g} {a} {ref}")
            rec.check(np.isclose(np.exp(l), ref), f"{key}:slab-lndensity", f"{g} {np.exp(l)} {ref}")
        sc = float(np.ravel(p.prob(g))[0])
        rec.check(sc == a or np.isclose(sc, a), f"{key}:scalar-prob", f"{sc} {a}")
        sc = float(np.ravel(p.ln_prob(g))[0])
        rec.check(sc == l or np.isclose(sc, l), f"{key}:scalar-lnprob", f"{sc} {l}")
        cref = float(np.clip(slab(min(max(g, lo), hi)), 0, 1)) * (1 - h) + (h if g > loc else 0)
        rec.check(np.isclose(c, cref, atol=1e-9) or g == loc, f"{key}:cdf", f"{g} {c} {cref}")
    sampling(rec, key, p)


# ------------------------------------------------------------------ discrete and degenerate
def discrete(rec, n):
    P, G = C()
    p = P.Categorical(n)
    us = np.concatenate([(np.arange(n) + 0.5) / n, np.arange(n) / n + 1e-9, (np.arange(n) + 1) / n - 1e-9])
    us = us[(us > 0) & (us < 1)]
    x = p.rescale(us.copy())
    exp = np.floor(us * n + 1e-13)
    rec.close(x, np.minimum(exp, n - 1), f"Categorical({n}):rescale")
    for u in us:
        rec.case(f"Categorical({n}):{u:.9g}")
        rec.check(float(p.rescale(float(u))) in range(n), f"Categorical({n}):support", f"{u} {p.rescale(float(u))}")
    vals = np.concatenate([np.arange(-1, n + 1), [0.5, n - 0.5]]).astype(float)
    pr, lp = p.prob(vals), p.ln_prob(vals)
    for v, a, l in zip(vals, pr, lp):
        ref = 1 / n if v in range(n) else 0.
        rec.check(np.isclose(a, ref) and np.isclose(np.exp(l), ref), f"Categorical({n}):prob", f"{v} {a} {l}")
        rec.check(np.isclose(p.prob(float(v)), ref) and np.isclose(np.exp(p.ln_prob(float(v))), ref),
                  f"Categorical({n}):scalar", f"{v}")
    rec.close(np.sum(p.prob(np.arange(n).astype(float))), 1.0, f"Categorical({n}):norm")
    sampling(rec, f"Categorical({n})", p)


def degenerate(rec, peak):
    P, G = C()
    p = P.DeltaFunction(peak)
    rec.check(np.all(p.rescale(U.copy()) == peak) and p.rescale(0.3) == peak, f"Delta({peak}):rescale")
    rec.check(p.prob(peak) > 1e300 and p.prob(peak + 1) == 0 and p.prob(peak - 1e-6 * max(1, abs(peak))) == 0, f"Delta({peak}):prob")
    rec.check(p.ln_prob(peak) > 0 and p.ln_prob(peak + 1) == -inf, f"Delta({peak}):ln_prob")
    rec.check(p.cdf(peak - 1) == 0 and p.cdf(peak + 1) == 1, f"Delta({peak}):cdf")
    rec.check(p.is_fixed, f"Delta({peak}):fixed")
    rec.check(np.all(np.asarray(p.sample(3)) == peak) and np.shape(p.sample(3)) == (3,), f"Delta({peak}):sample")
    c = P.Constraint(-1.0, 2.0)
    v = np.array([-1.1, -1.0, -0.999, 0, 1.99, 2.0, 2.1])
    rec.check(list(np.asarray(c.prob(v)).astype(bool)) == [False, False, True, True, True, False, False], "Constraint:prob")
    rec.check(c.is_fixed, "Constraint:fixed")
    for x in v:
        rec.case(f"Constraint:{x}")
    rec.case(f"Delta:{peak}")


# ------------------------------------------------------------------ edits of the bounds
def edit_targets():
    P, G = C()
    xs = np.linspace(0, 3, 61)
    T = {
        "Uniform": lambda a, b: P.Uniform(a, b),
        "PowerLaw2": lambda a, b: P.PowerLaw(2, a, b),
        "PowerLaw-1": lambda a, b: P.PowerLaw(-1, a, b),
        "LogUniform": lambda a, b: P.LogUniform(a, b),
        "SymmetricLogUniform": lambda a, b: P.SymmetricLogUniform(a, b),
        "Cosine": lambda a, b: P.Cosine(a / 3, b / 3),
        "Sine": lambda a, b: P.Sine(a, b),
        "TruncatedGaussian": lambda a, b: P.TruncatedGaussian(1., 2., a, b),
        "Beta": lambda a, b: P.Beta(2., 3., a, b),
        "Triangular": lambda a, b: P.Triangular(1.2, a, b),
        "Interped": lambda a, b: P.Interped(xs.copy(), 1 + xs, minimum=a, maximum=b),
        "UniformInComponentsChirpMass": lambda a, b: G.UniformInComponentsChirpMass(a, b),
        "UniformInComponentsMassRatio": lambda a, b: G.UniformInComponentsMassRatio(a / 3, b / 3),
        "UniformComovingVolume": lambda a, b: G.UniformComovingVolume(a / 3, b / 3, name="redshift"),
        "UniformSourceFrame": lambda a, b: G.UniformSourceFrame(a * 500, b * 500, name="luminosity_distance"),
        "ConditionalUniform": lambda a, b: P.Uniform(a, b),
    }
    return T


LO, HI = [0.3, 0.8, 1.0], [1.5, 2.0, 2.9]


def edits(rec, name):
    mk = edit_targets()[name]
    scale = {"Cosine": 1 / 3, "UniformInComponentsMassRatio": 1 / 3, "UniformComovingVolume": 1 / 3, "UniformSourceFrame": 500}.get(name, 1)
    ops = [("minimum", v) for v in LO] + [("maximum", v) for v in HI]
    us = np.array([0.01, 0.3, 0.5, 0.77, 0.99])
    tol = 5e-3 if name in ("Interped", "UniformComovingVolume", "UniformSourceFrame") else 1e-6
    for seq in itertools.product(ops, repeat=2):
        a, b = 0.5, 2.5
        p = mk(a, b)
        p.rescale(us.copy())
        for at, v in seq:
            setattr(p, at, v * scale)
            p.prob(us.copy())  # evaluations between edits
            if at == "minimum":
                a = v
            else:
                b = v
        f = mk(a, b)
        k = f"edit:{name}:" + ",".join(f"{x}={v}" for x, v in seq)
        rec.case(k)
        kk = f"edit:{name}"
        x = np.asarray(f.rescale(us.copy()), float)
        rec.close(np.asarray(p.rescale(us.copy()), float), x, kk + ":rescale", rtol=tol, message=k)
        rec.close(np.asarray(p.prob(x), float), np.asarray(f.prob(x), float), kk + ":prob", rtol=tol, message=k)
        rec.close(np.asarray(p.ln_prob(x), float), np.asarray(f.ln_prob(x), float), kk + ":ln_prob", rtol=tol, atol=tol, message=k)
        rec.close(np.asarray(p.cdf(x), float), np.asarray(f.cdf(x), float), kk + ":cdf", rtol=tol, atol=tol, message=k)
        rec.close([p.minimum, p.maximum], [f.minimum, f.maximum], kk + ":bounds", rtol=1e-12)
        rec.close(p.width, f.width, kk + ":width")
        out = np.array([a * scale * 0.9, b * scale * 1.05])
        rec.close(np.asarray(p.prob(out), float), np.asarray(f.prob(out), float), kk + ":outside", rtol=tol, message=k)


PARAMS = {
    "Gaussian": (lambda P, **k: P.Gaussian(**{**dict(mu=0., sigma=1.), **k}), dict(mu=[1., -2.], sigma=[0.5, 3.])),
    "TruncatedGaussian": (lambda P, **k: P.TruncatedGaussian(**{**dict(mu=0., sigma=1., minimum=-1., maximum=2.), **k}),
                          dict(mu=[1., -0.5], sigma=[0.5, 3.], minimum=[-3.], maximum=[4.])),
    "LogNormal": (lambda P, **k: P.LogNormal(**{**dict(mu=0., sigma=1.), **k}), dict(mu=[1., -2.], sigma=[0.5])),
    "Exponential": (lambda P, **k: P.Exponential(**{**dict(mu=1.), **k}), dict(mu=[2., 0.5])),
    "StudentT": (lambda P, **k: P.StudentT(**{**dict(df=3., mu=0., scale=1.), **k}), dict(df=[5.], mu=[1.], scale=[0.5])),
    "Beta": (lambda P, **k: P.Beta(**{**dict(alpha=2., beta=3.), **k}), dict(alpha=[1.5], beta=[2.5])),
    "Logistic": (lambda P, **k: P.Logistic(**{**dict(mu=0., scale=1.), **k}), dict(mu=[1.], scale=[2.])),
    "Cauchy": (lambda P, **k: P.Cauchy(**{**dict(alpha=0., beta=1.), **k}), dict(alpha=[1.], beta=[2.])),
    "Gamma": (lambda P, **k: P.Gamma(**{**dict(k=2., theta=1.), **k}), dict(k=[3.], theta=[2.])),
    "ChiSquared": (lambda P, **k: P.ChiSquared(**{**dict(nu=2), **k}), dict(nu=[3, 5])),
    "PowerLaw": (lambda P, **k: P.PowerLaw(**{**dict(alpha=2., minimum=1., maximum=3.), **k}), dict(alpha=[-1, 0., 3.], minimum=[2.])),
    "Triangular": (lambda P, **k: P.Triangular(**{**dict(mode=1., minimum=0., maximum=3.), **k}), dict(mode=[2., 0.5], maximum=[4.])),
    "HalfGaussian": (lambda P, **k: P.HalfGaussian(**{**dict(sigma=1.), **k}), dict(sigma=[2., 0.5])),
}


def param_edits(rec, name):
    P, G = C()
    mk, par = PARAMS[name]
    ops = [(k, v) for k, vs in par.items() for v in vs]
    us = np.array([0.02, 0.3, 0.5, 0.77, 0.97])
    for seq in list(itertools.product(ops, repeat=1)) + list(itertools.product(ops, repeat=2)):
        p = mk(P)
        cur = {}
        for k, v in seq:
            p.prob(us.copy())
            setattr(p, k, v)
            cur[k] = v
        f = mk(P, **cur)
        key = f"param:{name}"
        rec.case(key + repr(seq))
        x = np.asarray(f.rescale(us.copy()), float)
        rec.close(np.asarray(p.rescale(us.copy()), float), x, key + ":rescale", message=repr(seq))
        for nm in ("prob", "ln_prob", "cdf"):
            rec.close(np.asarray(getattr(p, nm)(x), float), np.asarray(getattr(f, nm)(x), float), key + ":" + nm, message=repr(seq))


def spike_edits(rec, _):
    P, G = C()
    ops = [("spike_location", v) for v in (0.2, 0.5, 0.8)] + [("spike_height", v) for v in (0.0, 0.3, 0.6)]
    us = np.array([0.01, 0.15, 0.3, 0.45, 0.55, 0.7, 0.85, 0.99])
    for seq in itertools.product(ops, repeat=2):
        p = P.SlabSpikePrior(P.Uniform(0, 1), 0.4, 0.1)
        cur = dict(spike_location=0.4, spike_height=0.1)
        for k, v in seq:
            p.rescale(us.copy())
            setattr(p, k, v)
            cur[k] = v
        f = P.SlabSpikePrior(P.Uniform(0, 1), **cur)
        rec.case("spike-edit" + repr(seq))
        rec.close(p.rescale(us.copy()), f.rescale(us.copy()), "spike-edit:rescale", message=repr(seq))
        for nm in ("prob", "ln_prob", "cdf"):
            rec.close(getattr(p, nm)(us.copy()), getattr(f, nm)(us.copy()), "spike-edit:" + nm, message=repr(seq))


def equal_mass(rec, bounds):
    P, G = C()
    a, b = bounds
    p, f = G.UniformInComponentsMassRatio(a, b, equal_mass=True), G.UniformInComponentsMassRatio(a, b)
    us = np.linspace(0.01, 0.99, 25)
    x = np.asarray(p.rescale(us.copy()))
    rec.close(x, f.rescale(2 * np.minimum(us, 1 - us)), "equal_mass:rescale")
    for u, v in zip(us, x):
        rec.case(f"equal_mass:{bounds}:{u:.4f}")
        rec.close(p.rescale(float(u)), v, "equal_mass:scalar")
        rec.close(float(f.cdf(v)), 2 * min(u, 1 - u), "equal_mass:cdf", atol=1e-6)
    rec.close(p.prob(x), f.prob(x), "equal_mass:prob")


SPECS = []


def groups(tier, seed):
    global SPECS
    SPECS = table(tier)
    return [Group("distribution", range(len(SPECS)), run_spec),
            Group("discrete", [2, 3, 5, 10], discrete),
            Group("degenerate", [0.0, 3.5, -1e4], degenerate),
            Group("bound-edits", list(edit_targets()), edits),
            Group("parameter-edits", list(PARAMS), param_edits),
            Group("equal-mass", [(0.125, 1.0), (0.05, 0.8)], equal_mass),
            Group("spike-edits", [0], spike_edits)]
