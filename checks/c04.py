"""C04: constraints cut the prior and the density stays normalised.

Enumerated: all subsets of a set of constraints x collections (independent, conditional, with fixed members, BBH) x a lattice
of points with the exact edges x containers; sampling is explored over *every* sequence of random draws from a small lattice of
uniforms up to a bound, so acceptance and (un)biasedness are decided by counting, not by statistics.
"""
import itertools
import numpy as np
from mc.core import Group, Choices
from mc import fakerng

PROPERTY = "C04"
LEVEL = "exploration"
RULE = "one case = (collection, constraint subset, call, point or draw sequence); non-trivial = at least one constraint active"
ASSUMPTIONS = ["the package's Monte-Carlo estimate of the allowed mass is accepted within 2.5%"]
TOL = 0.025

CONS = {
    "s": (0.5, 1.5),       # a + b, two sided
    "d": (-0.5, 1e9),      # a - b, one sided
    "p": (-1.0, 0.5),      # a * b
    "aa": (0.25, 2.0),     # a itself under a derived name
    "r": (0.0, 0.75),      # 0.5 * (a + c), uses the fixed parameter
}


def conv(sample):
    out = dict(sample)
    if "a" in out and "b" in out:
        out["s"] = out["a"] + out["b"]
        out["d"] = out["a"] - out["b"]
        out["p"] = out["a"] * out["b"]
    if "a" in out:
        out["aa"] = out["a"] * 1
        out["r"] = 0.5 * (out["a"] + 0.25)
    return out


def allowed(a, b, subset):
    v = conv(dict(a=np.asarray(a, float), b=np.asarray(b, float)))
    ok = np.ones(np.broadcast(a, b).shape, bool)
    for k in subset:
        ok &= (v[k] > CONS[k][0]) & (v[k] < CONS[k][1])
    return ok


def cond(reference_params, a):
    return dict(minimum=0 * a, maximum=1 + a)


def build(kind, subset, order=0):
    import bilby.core.prior as P
    d = dict(a=P.Uniform(0, 1), b=P.Uniform(0, 2))
    if kind in ("fixed", "fixedcond"):
        d = dict(c=P.DeltaFunction(0.25), **d)
    if kind in ("cond", "fixedcond"):
        d["b"] = P.ConditionalUniform(condition_func=cond, minimum=0, maximum=1)
    if kind == "power":
        d["a"] = P.PowerLaw(1, 0, 1)
    c = {k: P.Constraint(*CONS[k]) for k in subset}
    d = {**d, **c} if order == 0 else {**c, **d}
    cls = P.ConditionalPriorDict if "cond" in kind else P.PriorDict
    return cls(d, conversion_function=conv)


def dens(kind, a, b):
    a, b = np.asarray(a, float), np.asarray(b, float)
    pa = np.where((a >= 0) & (a <= 1), 2 * a if kind == "power" else 1.0, 0)
    if "cond" in kind:
        pb = np.where((b >= 0) & (b <= 1 + a), 1 / np.where(a == -1, 1, 1 + a), 0)
    else:
        pb = np.where((b >= 0) & (b <= 2), 0.5, 0)
    return pa * pb


def mass(kind, subset):
    n = 1500
    a = (np.arange(n) + 0.5) / n
    b = 2 * (np.arange(n) + 0.5) / n
    A, B = np.meshgrid(a, b, indexing="ij")
    w = dens(kind, A, B) * 2 / n / n
    return (w * allowed(A, B, subset)).sum() / w.sum()


PA = [-0.25, 0.0, 0.25, 0.5, 0.625, 0.75, 1.0, 1.25]
PB = [-0.25, 0.0, 0.25, 0.5, 0.75, 0.875, 1.0, 1.25, 1.5, 2.0, 2.25]


def density(rec, item):
    kind, subset, order = item
    from bilby.core.utils import random as br
    br.seed(99)
    d = build(kind, subset, order)
    m = mass(kind, subset)
    if m < 0.02:
        return
    lab = f"{kind}:{'+'.join(subset)}:{order}"
    pts = list(itertools.product(PA, PB))
    norm = None
    extra = {}
    for keyorder in (("a", "b"), ("b", "a")):
        for a, b in pts:
            x = dict(a=a, b=b)
            pt = {k: x[k] for k in keyorder}
            ok = bool(allowed(a, b, subset))
            e = float(dens(kind, a, b)) * ok / m
            got, gl = d.prob(dict(pt)), d.ln_prob(dict(pt))
            gu = d.ln_prob(dict(pt), normalized=False)
            rec.case(f"{lab}:{keyorder}:{a},{b}" if subset else None)
            if e == 0:
                rec.check(got == 0 and gl == -np.inf and gu == -np.inf, f"outside-nonzero:{kind}", f"{lab} {pt}: {got} {gl} {gu}")
                continue
            rec.check(abs(got / e - 1) < TOL, f"normalisation:{kind}", f"{lab} {pt}: {got} expected {e}")
            rec.check(abs(gl - np.log(got)) < 1e-9, f"log-inconsistent:{kind}", f"{lab} {pt}: {gl} vs {np.log(got)}")
            rec.check(abs(gu - np.log(float(dens(kind, a, b)))) < 1e-9, f"unnormalised:{kind}", f"{lab} {pt}")
            q = got / float(dens(kind, a, b))
            norm = norm or q
            rec.check(abs(q / norm - 1) < TOL, "normalisation-varies", lab)
            rec.check(bool(d.evaluate_constraints(dict(pt))) == ok, "evaluate", lab)
    # arrays and tables, elementwise like single points
    import pandas as pd
    A, B = np.array([p[0] for p in pts]), np.array([p[1] for p in pts])
    single = np.array([d.prob(dict(a=a, b=b)) for a, b in pts])
    for cont in ("array", "one", "frame", "list1"):
        if cont == "array":
            x, e = dict(a=A, b=B), single
        elif cont == "frame":
            x, e = pd.DataFrame(dict(a=A, b=B)), single
        else:
            for i in (0, 13, 40, 60):
                y = dict(a=A[i:i + 1], b=B[i:i + 1])
                rec.case(f"{lab}:one:{i}")
                rec.close(np.ravel(d.prob(dict(y), axis=0)), single[i:i + 1], f"container:{cont}", 1e-9, 0, lab)
                rec.close(np.ravel(d.ln_prob(dict(y), axis=0)), np.log(single[i:i + 1]), f"container:{cont}", 1e-9, 1e-9, lab)
            continue
        rec.case(f"{lab}:{cont}", len(pts))
        rec.close(d.prob(x, axis=0), e, f"container:{cont}:prob", 1e-9, 0, lab)
        rec.close(d.ln_prob(x, axis=0), np.log(e), f"container:{cont}:ln_prob", 1e-9, 1e-9, lab)
        ev = np.broadcast_to(np.asarray(d.evaluate_constraints(x), bool), len(pts))
        rec.check(np.array_equal(ev, allowed(A, B, subset)), f"container:{cont}:evaluate", lab)
        # all-rejected and all-accepted arrays
        for mask in (single == 0, single > 0):
            if mask.any():
                y = dict(a=A[mask], b=B[mask])
                rec.close(d.prob(y, axis=0), e[mask], f"container:{cont}:mask", 1e-9, 0, lab)
    # partial points: the constraints that can be evaluated still apply
    sub = [k for k in subset if k in ("aa", "r")]
    ma = np.mean(allowed((np.arange(2000) + .5) / 2000, 0.0, sub)) if kind != "power" else None
    if ma and "cond" not in kind:
        for a in PA:
            e = (1.0 if 0 <= a <= 1 else 0.0) * bool(allowed(a, 0.0, sub)) / ma
            rec.case(f"{lab}:partial:{a}")
            rec.check(abs(d.prob(dict(a=a)) - e) <= TOL * e, "partial-point", f"{lab} a={a}: {d.prob(dict(a=a))} expected {e}")


class Cut(Exception):
    pass


def draws(rec, item):
    """every sequence of uniforms from a 3-point lattice, up to a number of draws"""
    kind, subset, size = item
    U = [0.1, 0.45, 0.8]
    d = build(kind, subset)
    import bilby.core.prior as P
    keys = [k for k in d if not isinstance(d[k], P.Constraint)]
    n = 1 if size is None else int(np.prod(size))
    ndim = len(keys)
    cut = {1: 3 * ndim, 2: 2 * 2 * ndim if ndim == 2 else 2 * ndim, 4: 4 * ndim}[n]
    weights = {}
    npath = 0

    def run(choose):
        cnt = [0]

        def unit():
            cnt[0] += 1
            if cnt[0] > cut:
                raise Cut
            return U[choose(3)]
        with fakerng.installed(fakerng.FakeRNG(unit)):
            try:
                return d.sample(size), cnt[0]
            except Cut:
                return None, cnt[0]
    # outcomes possible for one row (the transform of the lattice)
    for (out, used), path in Choices().explore(run):
        npath += 1
        rec.case(f"{kind}:{subset}:{size}:{path}")
        if out is None:
            continue
        rec.check(sorted(k for k in out) == sorted(keys), "sample-keys", str(sorted(out)))
        shape = () if size is None else (size if isinstance(size, tuple) else (size,))
        a, b = np.asarray(out["a"]), np.asarray(out["b"])
        rec.check(a.shape == shape and b.shape == shape, f"sample-shape:{size}", f"{a.shape}")
        if not rec.check(np.all(allowed(a, b, subset)), f"sample-violates:{kind}", f"{subset} {size} {out} draws {path}"):
            continue
        if "c" in keys:
            rec.check(np.all(np.asarray(out["c"]) == 0.25), "fixed-value")
        row = tuple(np.round(np.concatenate([np.ravel(a), np.ravel(b)]), 6).tolist())
        weights[row] = weights.get(row, 0.0) + 3.0 ** -used
    # expected rows
    rows = []
    for u, v in itertools.product(U, U):
        a = np.sqrt(u) if kind == "power" else u
        b = v * (1 + a) if "cond" in kind else 2 * v
        if allowed(a, b, subset):
            rows.append((a, b))
    if not rows or not weights:
        rec.note("no_accepted")
        return
    exp = set()
    for combo in itertools.product(rows, repeat=n):
        exp.add(tuple(np.round([r[0] for r in combo] + [r[1] for r in combo], 6).tolist()))
    got = set(weights)
    rec.check(got <= exp, f"sample-not-a-draw:{kind}", f"{subset} {size}: {sorted(got - exp)[:3]}")
    if npath and len(exp) < 10000 and cut >= n * ndim:
        rec.check(exp <= got, f"sample-missing:{kind}", f"{subset} {size}: never produced {sorted(exp - got)[:3]}")
        w = np.array(list(weights.values()))
        rec.check(np.max(w) / np.min(w) < 1 + 1e-6, f"sample-biased:{kind}", f"{subset} {size}: weights {w.min()}..{w.max()}")


def bbh(rec, item):
    """default conversion of the compact-binary collections: constraints on derived masses"""
    subset, cls, wrong = item
    import bilby
    from bilby.core.utils import random as br
    br.seed(7)
    C = dict(mass_1=(10.0, 40.0), mass_2=(8.0, 30.0), total_mass=(20.0, 60.0), symmetric_mass_ratio=(0.1, 0.2475))
    P = bilby.core.prior
    pr = dict(chirp_mass=P.Uniform(8, 25), mass_ratio=P.Uniform(0.2, 1.0), luminosity_distance=P.Uniform(100, 500))
    if wrong:
        pr["mass_ratio"] = P.DeltaFunction(0.5)
    for k in subset:
        pr[k] = P.Constraint(*C[k])
    d = getattr(bilby.gw.prior, cls)(pr)

    def ok(mc, q):
        m1 = mc * (1 + q) ** 0.2 / q ** 0.6
        v = dict(mass_1=m1, mass_2=m1 * q, total_mass=m1 * (1 + q), symmetric_mass_ratio=q / (1 + q) ** 2)
        r = np.ones(np.broadcast(mc, q).shape, bool)
        for k in subset:
            r &= (v[k] > C[k][0]) & (v[k] < C[k][1])
        return r
    g = (np.arange(800) + 0.5) / 800
    MC = 8 + 17 * g
    Q = 0.2 + 0.8 * g if not wrong else np.array([0.5])
    m = np.mean(ok(MC[:, None], Q[None, :]))
    lab = f"{cls}:{'+'.join(subset)}:{wrong}"
    for mc, q in itertools.product([8.0, 9.5, 12.0, 17.3, 21.1, 24.9, 26.0], [0.2, 0.3, 0.5, 0.77, 0.999, 1.1] if not wrong else [0.5]):
        pt = dict(chirp_mass=mc, mass_ratio=q, luminosity_distance=200.0)
        base = (8 <= mc <= 25) / 17. / 400. * (1.0 if wrong else (0.2 <= q <= 1) / 0.8)
        if wrong:
            del pt["mass_ratio"]
        e = base * bool(ok(mc, q)) / m
        got, gl = d.prob(dict(pt)), d.ln_prob(dict(pt))
        rec.case(f"{lab}:{mc}:{q}" if subset else None)
        rec.check(abs(got - e) <= TOL * e, f"bbh-density:{cls}", f"{lab} {pt}: {got} expected {e}")
        with np.errstate(all="ignore"):
            rec.close(gl, np.log(got), "bbh-log", 1e-9, 1e-9)
    for size in (None, 1, 5, 200, (3, 4)):
        s = d.sample(size)
        rec.case(f"{lab}:sample:{size}")
        rec.check(np.all(ok(np.asarray(s["chirp_mass"]), np.asarray(s["mass_ratio"]))), f"bbh-sample:{cls}", f"{lab} {size}")
        rec.check(set(s) == {"chirp_mass", "mass_ratio", "luminosity_distance"}, "bbh-sample-keys", str(set(s)))


def edges(rec, _):
    """Constraint itself: open interval, scalar/array, and it takes no part in fixed/free bookkeeping"""
    import bilby.core.prior as P
    for lo, hi in [(0, 1), (-np.inf, 2.), (1.5, np.inf), (-3, -1)]:
        c = P.Constraint(lo, hi)
        vals = [v for v in (lo, hi, lo + 1e-9, hi - 1e-9, lo - 1e-9, hi + 1e-9, 0.5, -2) if np.isfinite(v)]
        for v in vals:
            rec.case(f"constraint:{lo},{hi}:{v}")
            rec.check(bool(c.prob(v)) == (lo < v < hi), "constraint-edge", f"({lo},{hi}) {v}")
        rec.check(np.array_equal(np.asarray(c.prob(np.array(vals)), bool), [lo < v < hi for v in vals]), "constraint-array")
    for kind in ("plain", "cond", "fixed"):
        d = build(kind, ("s", "aa"))
        rec.check(d.non_fixed_keys == ["a", "b"] and sorted(d.constraint_keys) == ["aa", "s"], "bookkeeping", kind)
        rec.check(d.fixed_keys == (["c"] if kind == "fixed" else []), "bookkeeping-fixed", f"{kind} {d.fixed_keys}")
        n = 50
        for keys in (["a", "b"], ["b", "a"], ["a"]):
            arr = d.sample_subset_constrained_as_array(keys=list(keys), size=n) if kind != "cond" or "a" in keys else None
            rec.case(f"asarray:{kind}:{keys}")
            rec.check(arr.shape == (len(keys), n), "asarray-shape", f"{arr.shape}")
            row = dict(zip(keys, arr))
            rec.check(np.all(allowed(row["a"], row.get("b", 1.0 - 0 * row["a"]), [c for c in ("s", "aa") if "b" in row or c == "aa"])),
                      "asarray-violates", f"{kind} {keys}")


def groups(tier, seed):
    names = list(CONS)
    subsets = [s for n in range(0, len(names) + 1) for s in itertools.combinations(names, n)]
    kinds = ["plain", "cond", "fixed", "power", "fixedcond"]
    dn = [(k, s, o) for k in kinds for s in subsets for o in ((0, 1) if tier == "thorough" else (len(s) % 2,))
          if tier == "thorough" or len(s) <= 2 or (k in ("plain", "cond"))]
    sizes = [None, 1, 2] + ([(2, 1), (2, 2)] if tier == "thorough" else [(2, 1)])
    dr = [(k, s, z) for k in kinds for s in [("s",), ("s", "p"), ("aa",), ("d", "p"), ()] for z in sizes
          if not (z == (2, 2) and "fixed" in k)]
    bb = [(s, c, w) for c in ("BBHPriorDict", "BNSPriorDict") for w in (False, True)
          for s in [(), ("mass_1",), ("mass_2",), ("mass_1", "mass_2"), ("total_mass", "mass_2"), ("symmetric_mass_ratio",)]
          if not (c == "BNSPriorDict" and s == ("symmetric_mass_ratio",)) and not (w and s == ("symmetric_mass_ratio",))]
    return [Group("density", dn, density), Group("draws", dr, draws), Group("bbh", bb, bbh), Group("edges", ["x"], edges)]
