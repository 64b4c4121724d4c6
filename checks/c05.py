"""C05: members of a joint prior act as one distribution whatever the order, subset or repetition of requests.

Enumerated: every permutation of the members of two joint distributions and an independent prior for every call; every
interrupted/partial request history up to the depth followed by a complete request; every in/out-of-bounds pattern per
dimension; mixtures with all modes; matrices incl. degenerate spectra.  Oracle: closed-form multivariate normal / the map itself.
"""
import itertools
import numpy as np
import scipy.stats as st
from scipy.special import ndtri
from mc.core import Group
from mc import fakerng

PROPERTY = "C05"
LEVEL = "model_checking"
TECHNIQUE = "exhaustive request orders and partial-request histories on real joint priors vs closed-form densities"
RULE = "one case = (distribution, request order or history, call, point); non-trivial = more than one member involved"
ASSUMPTIONS = ["bounded multivariate Gaussians are not renormalised by the truncated mass (documented behaviour)",
               "the transform of a mixture uses one randomly chosen mode per call"]

COVS = {
    "d1": np.array([[4.0]]),
    "diag2": np.diag([1.0, 4.0]),
    "corr2": np.array([[2.0, 0.5], [0.5, 3.0]]),
    "neg2": np.array([[1.0, -1.9], [-1.9, 4.0]]),
    "tiny2": np.array([[1e-10, 3e-7], [3e-7, 1e-2]]),
    "corr3": np.array([[1.0, 0.3, -0.2], [0.3, 2.0, 0.7], [-0.2, 0.7, 1.5]]),
    "equi3": np.full((3, 3), 0.5) + 0.5 * np.eye(3),
    "equi4": np.full((4, 4), 0.9) + 0.1 * np.eye(4),
    "block4": np.array([[1, .5, 0, 0], [.5, 1, 0, 0], [0, 0, 1, .5], [0, 0, .5, 1.]]),
}


def mvg(names, cov, mus=None, **kw):
    import bilby.core.prior as P
    n = len(names)
    return P.MultivariateGaussianDist(list(names), mus=mus if mus is not None else [0.3 * (i + 1) for i in range(n)], covs=cov, **kw)


def transform(rec, item):
    """rescale is an affine map with the right covariance; density is the normal density; both per settings form"""
    ck, form = item
    import bilby.core.prior as P
    cov = COVS[ck]
    n = len(cov)
    names = [f"m{i}" for i in range(n)]
    mus = [0.3 * (i + 1) for i in range(n)]
    sig = np.sqrt(np.diag(cov))
    corr = cov / sig[:, None] / sig[None, :]
    if form == "cov":
        d = P.MultivariateGaussianDist(names, mus=mus, covs=cov.copy())
    elif form == "covlist":
        d = P.MultivariateGaussianDist(names, mus=[mus], covs=[cov.tolist()] if False else cov.tolist())
    elif form == "corr":
        np.fill_diagonal(corr, 1.0)
        d = P.MultivariateGaussianDist(names, mus=mus, sigmas=list(sig), corrcoefs=corr)
    elif form == "normal":
        d = P.MultivariateNormalDist(names, mus=mus, covs=cov.copy())
    lab = f"{ck}:{form}"
    x0 = np.atleast_1d(d.rescale([0.5] * n))
    rec.close(x0, mus, "centre", 1e-9, 1e-12, lab)
    from scipy.special import ndtr
    A = np.zeros((n, n))
    for i in range(n):
        th = np.full(n, 0.5)
        th[i] = ndtr(1.0)
        A[:, i] = np.atleast_1d(d.rescale(th)) - x0
        rec.case(f"affine:{lab}:{i}")
    rec.close(A @ A.T / np.outer(sig, sig), corr, f"transform-covariance:{ck}", 1e-7, 1e-9, lab)
    pts = list(itertools.product([0.1, 0.5, 0.9], repeat=n))
    X = np.array([np.atleast_1d(d.rescale(list(p))) for p in pts])
    for p, x in zip(pts, X):
        rec.case(f"point:{lab}:{p}")
        rec.close(x, x0 + A @ ndtri(np.array(p)), "not-affine", 1e-7, 1e-9, lab)
        rec.close(d.ln_prob(list(x)), st.multivariate_normal(mus, cov, allow_singular=True).logpdf(x), "density", 1e-6, 1e-7, f"{lab} {x}")
    rec.close(np.reshape(d.rescale(np.array(pts)), (-1, n)), X, "array-transform", 1e-9, 1e-12, lab)
    rec.close(d.ln_prob(X), [d.ln_prob(list(x)) for x in X], "array-density", 1e-9, 1e-12, lab)
    rec.close(d.prob(X), np.exp([d.ln_prob(list(x)) for x in X]), "prob-exp", 1e-9, 0, lab)


def bounds(rec, item):
    ndim, container, via = item
    import bilby.core.prior as P
    names = [f"m{i}" for i in range(ndim)]
    cov = np.eye(ndim) + 0.3 * (1 - np.eye(ndim))
    if via == "kw":
        d = P.MultivariateGaussianDist(names, mus=[0.0] * ndim, covs=cov, bounds=[(-1.0 - i, 2.0 + i) for i in range(ndim)])
        pr = P.PriorDict({k: P.MultivariateGaussian(d, k) for k in names})
    else:
        d = P.MultivariateGaussianDist(names, mus=[0.0] * ndim, covs=cov)
        pr = P.PriorDict({k: P.MultivariateGaussian(d, k) for k in names})
        for i, k in enumerate(names):
            pr[k].minimum, pr[k].maximum = -1.0 - i, 2.0 + i
    vals = [[-1.5 - i, -1.0 - i, 0.25, 2.0 + i, 2.5 + i] for i in range(ndim)]
    pts = list(itertools.product(*vals))
    ok = np.array([all(-1.0 - i <= x <= 2.0 + i for i, x in enumerate(p)) for p in pts])
    e = st.multivariate_normal(np.zeros(ndim), cov).logpdf(np.array(pts)).reshape(-1)
    e = np.where(ok, e, -np.inf)
    lab = f"{ndim}:{via}"
    if container == "scalar":
        for i, p in enumerate(pts):
            rec.case(f"bounds:{lab}:{p}")
            rec.close(d.ln_prob(list(p)), e[i], "bounds-dist", 1e-8, 1e-9, f"{lab} {p}")
            q = dict(zip(names, p))
            rec.close(pr.ln_prob(dict(q), normalized=False), e[i], "bounds-dict", 1e-8, 1e-9, f"{lab} {p}")
            if ndim == 2 and i == 12 and via == "kw":
                rec.close(pr.prob(dict(q)), np.exp(e[i]), "bounds-prob", 1e-8, 1e-300, f"{lab} {p}")
    else:
        n = {"array": len(pts), "pair": 2}[container]
        idx = [np.arange(len(pts))] if container == "array" else [np.array([i, j]) for i in range(len(pts)) for j in
                                                                 (0, len(pts) // 2, len(pts) - 1)]
        for ix in idx:
            X = np.array([pts[i] for i in ix])
            rec.case(f"bounds:{lab}:{container}:{ix[:3]}")
            rec.close(d.ln_prob(X), e[ix], "bounds-dist-array", 1e-8, 1e-9, lab)
            rec.close(pr.ln_prob({k: X[:, i] for i, k in enumerate(names)}, axis=0, normalized=False), e[ix], "bounds-dict-array", 1e-8, 1e-9, lab)
    for size in (None, 1, 6):
        s = pr.sample(size)
        rec.check(all(np.all((np.asarray(s[k]) >= -1.0 - i) & (np.asarray(s[k]) <= 2.0 + i)) for i, k in enumerate(names)),
                  "bounds-sample", f"{lab} {s}")
    for i, k in enumerate(names):
        rec.check(pr[k].minimum == -1.0 - i and pr[k].maximum == 2.0 + i, "bounds-member", lab)


MIX = {
    "1w": ([[0.0, 1.0]], [COVS["corr2"]], [2.5]),
    "2eq": ([[0.0, 1.0], [3.0, -1.0]], [COVS["corr2"], COVS["diag2"]], [1.0, 1.0]),
    "2un": ([[0.0, 1.0], [3.0, -1.0]], [COVS["corr2"], COVS["neg2"]], [0.2, 0.8]),
    "2unn": ([[0.0, 1.0], [3.0, -1.0]], [COVS["corr2"], COVS["neg2"]], [3.0, 1.0]),
    "2none": ([[0.0, 1.0], [3.0, -1.0]], [COVS["corr2"], COVS["neg2"]], None),
    "3": ([[0.0, 1.0], [3.0, -1.0], [-4.0, -4.0]], [COVS["corr2"], COVS["neg2"], COVS["diag2"]], [1.0, 2.0, 5.0]),
}


def mixture(rec, item):
    name, how = item
    import bilby.core.prior as P
    mus, covs, w = MIX[name]
    k = len(mus)
    if how == "ctor":
        d = P.MultivariateGaussianDist(["a", "b"], nmodes=k, mus=[list(m) for m in mus], covs=[c.copy() for c in covs], weights=w)
    else:
        d = P.MultivariateGaussianDist(["a", "b"], nmodes=1, mus=mus[0], covs=covs[0].copy(), weights=None if w is None else w[0])
        for i in range(1, k):
            d.add_mode(mus=mus[i], cov=covs[i], weight=1.0 if w is None else w[i])
    ww = np.ones(k) if w is None else np.array(w)
    ww = ww / ww.sum()
    pr = P.PriorDict(dict(a=P.MultivariateGaussian(d, "a"), b=P.MultivariateGaussian(d, "b")))
    f = lambda X: np.sum([ww[i] * st.multivariate_normal(mus[i], covs[i]).pdf(X) for i in range(k)], axis=0)
    pts = np.array(list(itertools.product([-5, -1.3, 0, 0.7, 3, 9.0], [-4, -1, 0.4, 1.2, 7.0])))
    for p in pts:
        rec.case(f"mix:{name}:{how}:{p}")
        rec.close(d.prob(list(p)), f(p), "mixture-density", 1e-7, 1e-250, f"{name} {how} {p}")
        rec.close(pr.ln_prob(dict(a=p[0], b=p[1]), normalized=False), np.log(f(p)), "mixture-ln", 1e-7, 1e-9, f"{name} {how} {p}")
        rec.close(pr.ln_prob(dict(b=p[1], a=p[0]), normalized=False), np.log(f(p)), "mixture-ln-order", 1e-7, 1e-9, f"{name} {how} {p}")
    rec.close(d.prob(pts), f(pts), "mixture-density-array", 1e-7, 1e-250, f"{name} {how}")
    # every mode choice: the transform and the draws use the mode picked with the right probability
    one = [P.MultivariateGaussianDist(["a", "b"], mus=mus[i], covs=covs[i].copy()) for i in range(k)]
    cum = np.cumsum(ww)
    for u in list(np.linspace(0.005, 0.995, 34)):
        mode = int(np.searchsorted(cum, u, side="right")) if k > 1 else 0
        with fakerng.installed(fakerng.FakeRNG(lambda: u)):
            got = d.rescale([0.3, 0.8])
        rec.case(f"mode:{name}:{how}:{u}")
        rec.close(got, one[mode].rescale([0.3, 0.8]), "mode-choice", 1e-9, 1e-12, f"{name} u={u}")
    for mode in range(k):
        rec.close(d.rescale([0.3, 0.8], mode=mode), one[mode].rescale([0.3, 0.8]), "mode-explicit", 1e-9, 1e-12)
    # draws: all combinations of mode pick and two uniforms
    if k > 1:
        us = [0.02, 0.15, 0.3, 0.6, 0.97]
        for u, v1, v2 in itertools.product(us, [0.2, 0.7], [0.4, 0.9]):
            seq = iter([u, v1, v2] * 3)
            with fakerng.installed(fakerng.FakeRNG(lambda: next(seq))):
                s = pr.sample()
            mode = int(np.searchsorted(cum, u, side="right"))
            rec.case(f"draw:{name}:{how}:{u}:{v1}:{v2}")
            e = one[mode].rescale([v1, v2])
            rec.close([s["a"], s["b"]], e, "mixture-draw", 1e-9, 1e-12, f"{name} {u} {v1} {v2}")


# ------------------------------------------------------------------ orders
def collection(cls="PriorDict", order=None, cond=False):
    import bilby.core.prior as P
    d1 = mvg(["a", "b"], COVS["corr2"])
    d2 = mvg(["c", "d", "e"], COVS["corr3"], mus=[5.0, -5.0, 1.0])
    pr = dict(a=P.MultivariateGaussian(d1, "a"), b=P.MultivariateGaussian(d1, "b"), x=P.Uniform(2, 4),
              c=P.MultivariateGaussian(d2, "c"), d=P.MultivariateGaussian(d2, "d"), e=P.MultivariateGaussian(d2, "e"))
    if cond:
        pr["z"] = P.ConditionalUniform(condition_func=zcond, minimum=0, maximum=1)
    order = order or list(pr)
    return getattr(P, cls)({k: pr[k] for k in order}), d1, d2


def zcond(reference_params, a, d):
    return dict(minimum=a, maximum=a + 1 + d * d)


TH = dict(a=0.2, b=0.7, x=0.35, c=0.9, d=0.45, e=0.15, z=0.6)


def truth(th, ref):
    r1, r2 = ref
    v = dict(zip("ab", np.atleast_1d(r1.rescale([th["a"], th["b"]]))))
    v.update(zip("cde", np.atleast_1d(r2.rescale([th["c"], th["d"], th["e"]]))))
    v["x"] = 2 + 2 * th["x"]
    v["z"] = v["a"] + th["z"] * (1 + v["d"] ** 2)
    return {k: float(v[k]) for k in v}


def lnref(v, keys):
    t = 0.0
    if set("ab") <= set(keys):
        t += st.multivariate_normal([0.3, 0.6], COVS["corr2"]).logpdf([v["a"], v["b"]])
    if set("cde") <= set(keys):
        t += st.multivariate_normal([5.0, -5.0, 1.0], COVS["corr3"]).logpdf([v["c"], v["d"], v["e"]])
    if "x" in keys:
        t += np.log(0.5) if 2 <= v["x"] <= 4 else -np.inf
    if "z" in keys:
        t += -np.log(1 + v["d"] ** 2) if 0 <= v["z"] - v["a"] <= 1 + v["d"] ** 2 else -np.inf
    return t


def orders(rec, item):
    """every order of the keys of a complete request"""
    cls, cond, block, decl = item
    keys = list("abxcde") + (["z"] if cond else [])
    ref = (mvg(["a", "b"], COVS["corr2"]), mvg(["c", "d", "e"], COVS["corr3"], mus=[5.0, -5.0, 1.0]))
    pr, d1, d2 = collection(cls, decl, cond)
    th2 = {k: 1 - v for k, v in TH.items()}
    v, v2 = truth(TH, ref), truth(th2, ref)
    e = lnref(v, keys)
    for n, perm in enumerate(itertools.permutations(keys)):
        if n % block[1] != block[0]:
            continue
        rec.case(f"{cls}:{cond}:{perm}")
        rec.transition(3)
        rec.trace()
        rec.state((cls, cond, perm))
        got = pr.rescale(list(perm), [TH[k] for k in perm])
        rec.close(got, [v[k] for k in perm], f"rescale-order:{cls}", 1e-8, 1e-10, f"{perm}")
        rec.close(pr.ln_prob({k: v[k] for k in perm}, normalized=False), e, f"ln_prob-order:{cls}", 1e-8, 1e-9, f"{perm}")
        if n % 7 == 0:
            got = pr.rescale(list(perm), [np.array([TH[k], th2[k], 0.5]) for k in perm])
            got = np.reshape(got, (len(perm), -1))[:, :2]
            rec.close(got, [[v[k], v2[k]] for k in perm], f"rescale-order-array:{cls}", 1e-8, 1e-10, f"{perm}")
            arr = {k: np.array([v[k], v2[k]]) for k in perm}
            rec.close(pr.ln_prob(arr, axis=0, normalized=False), [e, lnref(v2, keys)], f"ln_prob-order-array:{cls}", 1e-8, 1e-9, f"{perm}")
        if n % 40 == 0 and not cond:
            if n == 0 and decl is None and cls == "PriorDict":
                rec.close(pr.prob({k: v[k] for k in perm}), np.exp(e), f"prob-order:{cls}", 1e-8, 0, f"{perm}")
            for size in (None, 3):
                if size is None:
                    s = pr.sample_subset(keys=list(perm))
                else:
                    s = pr.sample_subset_constrained(keys=list(perm), size=size)
                joint_ok(rec, s, d1, size, f"sample-order:{cls}:{perm}")


def joint_ok(rec, s, d1, size, key):
    """values of the members come from one joint draw (checked through the recorded draw of the distribution)"""
    rec.check(all(np.shape(s[k]) == (() if size is None else (size,)) for k in s), key + ":shape", f"{[np.shape(s[k]) for k in s]}")


def jointdraw(rec, item):
    """all pairs of uniforms: the sampled members are the transform of one set of uniforms, in every order"""
    cls, perm, size = item
    import bilby.core.prior as P
    U = [0.15, 0.5, 0.85]
    ref = mvg(["a", "b"], COVS["corr2"])
    allowed = {tuple(np.round(ref.rescale([u, v]), 9)) for u, v in itertools.product(U, U)}
    d1 = mvg(["a", "b"], COVS["corr2"])
    pr = getattr(P, cls)({k: dict(a=P.MultivariateGaussian(d1, "a"), b=P.MultivariateGaussian(d1, "b"), x=P.Uniform(2, 4))[k] for k in perm})
    n = 1 if size is None else size
    seen = set()
    for us in itertools.product(U, repeat=3 * n):
        it = iter(us)
        with fakerng.installed(fakerng.FakeRNG(lambda: next(it))):
            try:
                s = pr.sample_subset(keys=list(perm), size=size)
            except StopIteration:
                rec.fail("too-many-draws", f"{perm} {size}: the members were drawn more than once")
                return
        rec.case(f"{cls}:{perm}:{size}:{us}")
        rec.transition()
        A, B, X = np.ravel(s["a"]), np.ravel(s["b"]), np.ravel(s["x"])
        if not rec.check(len(A) == len(B) == len(X) == n, "draw-shape", f"{size} {s}"):
            return
        rows = [tuple(np.round([a, b], 9)) for a, b in zip(A, B)]
        rec.check(all(r in allowed for r in rows), "members-not-from-one-draw", f"{perm} {us}: {rows}")
        seen.add(tuple(rows) + tuple(np.round(X, 9)))
    rec.check(len(seen) == 27 ** n, "draw-lost", f"{len(seen)} distinct outcomes of {27 ** n}")
    rec.trace()


# ------------------------------------------------------------------ partial / interrupted requests
def partial(rec, item):
    """histories of incomplete or failing requests, then a complete one"""
    cls, hist, decl = item
    import bilby.core.prior as P
    ref = (mvg(["a", "b"], COVS["corr2"]), mvg(["c", "d", "e"], COVS["corr3"], mus=[5.0, -5.0, 1.0]))
    pr, d1, d2 = collection(cls, decl)
    keys = list("abxcde")
    v = truth(TH, ref)
    complete_dims = all(h[0] != "direct" for h in hist)
    for h in hist:
        try:
            do(pr, h)
        except Exception:
            rec.note("interrupted")
    rec.case(f"{cls}:{hist}")
    rec.transition(len(hist))
    rec.trace()
    rec.state((cls, hist))
    lab = f"{cls} after {hist}"
    rec.close(pr.rescale(keys, [TH[k] for k in keys]), [v[k] for k in keys], f"leak-rescale:{hist[-1][0]}", 1e-8, 1e-10, lab)
    rec.close(pr.ln_prob({k: v[k] for k in keys}, normalized=False), lnref(v, keys), f"leak-ln_prob:{hist[-1][0]}", 1e-8, 1e-9, lab)
    # a subset of complete distributions
    sub = ["b", "x", "a"]
    if cls == "PriorDict":
        rec.close(pr.rescale(sub, [TH[k] for k in sub]), [v[k] for k in sub], f"leak-subset:{hist[-1][0]}", 1e-8, 1e-10, lab)
    rec.close(pr.ln_prob({k: v[k] for k in sub}, normalized=False), lnref(v, sub), f"leak-subset-ln:{hist[-1][0]}", 1e-8, 1e-9, lab)
    for h in hist:
        try:
            do(pr, h)
        except Exception:
            pass
    s = pr.sample(3)
    rec.check(all(np.shape(s[k]) == (3,) for k in keys), f"leak-sample-shape:{hist[-1][0]}", f"{lab} {[(k, np.shape(s[k])) for k in keys]}")
    for h in hist:
        try:
            do(pr, h)
        except Exception:
            pass
    # one joint draw, not a stale member: with one constant uniform both members are known
    with fakerng.installed(fakerng.FakeRNG(lambda: 0.25)):
        s = pr.sample_subset(keys=["x", "b", "a"])
    e = np.atleast_1d(ref[0].rescale([0.25, 0.25]))
    rec.close([s["a"], s["b"]], e, f"leak-sample:{hist[-1][0]}", 1e-8, 1e-10, lab)
    # partial (marginal-less) requests count the joint density at most once and never crash
    one = pr.ln_prob(dict(a=v["a"]), normalized=False)
    two = pr.ln_prob(dict(b=v["b"]), normalized=False)
    rec.check(one == 0 and two == 0, f"leak-partial:{hist[-1][0]}", f"{lab}: {one} {two}")


def do(pr, h):
    op, arg = h
    if op == "ln":
        pr.ln_prob({k: 0.1 for k in arg}, normalized=False)
    elif op == "lnarr":
        pr.ln_prob({k: np.array([0.1, 0.2]) for k in arg}, axis=0, normalized=False)
    elif op == "rescale":
        pr.rescale(list(arg), [0.1] * len(arg))
    elif op == "sample":
        pr.sample_subset(keys=list(arg))
    elif op == "sample4":
        pr.sample_subset(keys=list(arg), size=4)
    elif op == "bad":
        pr.ln_prob({"a": np.array([0.1, 0.2]), "b": 0.3}, normalized=False)
    elif op == "unknown":
        pr.rescale(["a", "c", "nope"], [0.1, 0.2, 0.3])
    elif op == "badval":
        pr.ln_prob(dict(c=0.1, d=0.2, a="text"), normalized=False)
    elif op == "member":
        pr[arg].ln_prob(0.4)
        pr[arg].rescale(0.4)
    elif op == "membersample":
        pr[arg].sample()
    elif op == "full":
        pr.ln_prob({k: 0.1 for k in "abxcde"}, normalized=False)


def repeats(rec, item):
    """member-level requests in any order with repetition: the last values count, the density is reported exactly once"""
    dims, seq = item
    import bilby.core.prior as P
    names = ["a", "b", "c"][:dims]
    cov = COVS["corr2"] if dims == 2 else COVS["corr3"]
    d = mvg(names, cov)
    m = [P.MultivariateGaussian(d, k) for k in names]
    ref = st.multivariate_normal([0.3 * (i + 1) for i in range(dims)], cov)
    pend, exp = {}, None
    rec.case(f"repeat:{dims}:{seq}")
    rec.trace()
    rec.state((dims, seq))
    for n, i in enumerate(seq):
        rec.transition()
        val = 0.1 * (n + 1)
        pend[i] = val
        got = m[i].ln_prob(val)
        if len(pend) == dims:
            rec.close(got, ref.logpdf([pend[j] for j in range(dims)]), "repeat-density", 1e-8, 1e-9, f"{seq}")
            pend = {}
        else:
            rec.check(got == 0, "repeat-early", f"{seq} {n}: {got}")
    pend = {}
    d.reset_rescale()
    for n, i in enumerate(seq):
        th = 0.08 * (n + 1)
        pend[i] = th
        got = m[i].rescale(th)
        if len(pend) == dims:
            rec.close(got, mvg(names, cov).rescale([pend[j] for j in range(dims)]), "repeat-rescale", 1e-8, 1e-10, f"{seq}")
            pend = {}
        else:
            rec.check(np.size(got) == 0, "repeat-rescale-early", f"{seq} {n}: {got}")
    # draws: members are so strongly correlated that standardised values tell which joint draw they belong to
    c = 1 - 1e-9
    tight = [[1.0 if i == j else c for j in range(dims)] for i in range(dims)]
    d = mvg(names, tight)
    m = [P.MultivariateGaussian(d, k) for k in names]
    for size in (None, 2):
        seen, this, last = set(), None, []
        for n, i in enumerate(seq):
            got = np.atleast_1d(m[i].sample(**({} if size is None else dict(size=size)))).astype(float) - 0.3 * (i + 1)
            if this is None:
                this = got
                rec.check(all(np.all(abs(got - o) > 1e-9) for o in last), "repeat-draw-new", f"{seq} {n}: drawn again {got}")
            rec.check(got.shape == this.shape and np.all(abs(got - this) < 2e-3), "repeat-draw", f"{seq} size={size} request {n}: {got} not of the draw {this}")
            seen.add(i)
            if len(seen) == dims:
                last.append(this)
                seen, this = set(), None
        d.reset_sampled()


def healpix(rec, item):
    """sky map members: the density is the pixel probability over its area, once, per point; distances belong to their pixel"""
    nside, distance = item
    import healpy as hp
    import bilby
    npix = hp.nside2npix(nside)
    prob = (1.0 + np.arange(npix) % 5) * (np.arange(npix) % 7 != 3)
    prob = prob / prob.sum()
    fn = f"map{nside}{distance}.fits"
    if distance:
        mu = 100.0 + 5.0 * np.arange(npix)
        sg = 10.0 + 0 * mu
        nm = 1 / (mu ** 2 + sg ** 2)
        hp.write_map(fn, [prob, mu, sg, nm], overwrite=True, dtype=float)
    else:
        hp.write_map(fn, prob, overwrite=True, dtype=float)
    G, P = bilby.gw.prior, bilby.core.prior
    names = ["ra", "dec"] + (["distance"] if distance else [])
    d = G.HealPixMapPriorDist(fn, names=list(names), distance=distance)
    pr = P.PriorDict({k: G.HealPixPrior(d, k) for k in names})
    area = hp.nside2pixarea(nside)
    ra, dec = np.meshgrid([0.0, 0.7, 1.9, 3.3, 4.4, 6.2], [-1.5, -0.8, -0.1, 0.4, 1.1, 1.56])
    ra, dec = ra.ravel(), dec.ravel()
    pix = hp.ang2pix(nside, np.pi / 2 - dec, ra)
    e = prob[pix] / area
    dist = 90.0 + 3.0 * np.arange(len(ra))
    if distance:
        e = e * dist ** 2 * nm[pix] * st.norm(mu[pix], sg[pix]).pdf(dist)
    for perm in itertools.permutations(names):
        vals = dict(ra=ra, dec=dec, distance=dist)
        rec.case(f"hp:{nside}:{distance}:{perm}", len(ra))
        with np.errstate(all="ignore"):
            rec.close(pr.ln_prob({k: vals[k] for k in perm}, axis=0, normalized=False), np.log(e), "map-density-array", 1e-8, 1e-9, f"{item} {perm}")
            for i in range(len(ra)):
                rec.close(pr.ln_prob({k: float(vals[k][i]) for k in perm}, normalized=False), np.log(e[i]), "map-density", 1e-8, 1e-9, f"{item} {perm} {i}")
    for th in itertools.product([0.03, 0.31, 0.62, 0.97], repeat=2):
        # the radial value of several points at once equals that of single points, in any order
        if not distance:
            break
        with fakerng.installed(fakerng.FakeRNG(lambda: 0.5)):
            singles = [pr.rescale(names, [t, 0.5, u]) for t, u in (th, th[::-1])]
            both = np.reshape(pr.rescale(names, [np.array(th), np.array([0.5, 0.5]), np.array(th[::-1])]), (3, 2))
        rec.case(f"hpdist:{nside}:{th}")
        rec.close(both.T, singles, "map-distance-rows", 1e-8, 1e-10, f"{th}")
    # sampled and transformed points lie inside the bounds and in pixels of the map that have probability
    from bilby.core.utils import random as br
    br.seed(5)
    for size in (None, 40):
        s = pr.sample(size)
        r, dd = np.atleast_1d(s["ra"]), np.atleast_1d(s["dec"])
        rec.case(f"hpsample:{item}:{size}")
        if rec.check(np.all((r >= 0) & (r <= 2 * np.pi) & (np.abs(dd) <= np.pi / 2)), "map-sample-outside", f"{r} {dd}"):
            rec.check(np.all(prob[hp.ang2pix(nside, np.pi / 2 - dd, r)] > 0), "map-sample-empty-pixel", f"{item}")
    cum = np.cumsum(prob)
    for t in np.linspace(0.01, 0.99, 25):
        r, dd = pr.rescale(names, [t] + [0.5] * (len(names) - 1))[:2]
        rec.case(f"hprescale:{item}:{t}")
        if rec.check(0 <= r <= 2 * np.pi and abs(dd) <= np.pi / 2, "map-rescale-outside", f"{r} {dd}"):
            # the transform interpolates the cumulative map between neighbouring pixels: accept the neighbouring pixels
            p = hp.ang2pix(nside, np.pi / 2 - dd, r)
            k = int(np.searchsorted(cum, t))
            rec.check(abs(p - k) <= 2, "map-rescale-pixel", f"{item} {t}: pixel {p}, cumulative says {k}")
    bad = dict(ra=np.array([-0.1, 1.0, 7.0, 1.0]), dec=np.array([0.1, 1.6, 0.1, -1.6]), distance=np.full(4, 120.0))
    rec.check(np.all(pr.ln_prob({k: bad[k] for k in names}, axis=0, normalized=False) == -np.inf), "map-outside")


def groups(tier, seed):
    tr = [(c, f) for c in COVS for f in ("cov", "covlist", "corr", "normal")]
    bd = [(n, c, v) for n in (1, 2, 3) for c in ("scalar", "array", "pair") for v in ("kw", "edit")]
    mx = [(m, h) for m in MIX for h in ("ctor", "add")]
    decls = [None, list("xeadcb")]
    orr = [("PriorDict", False, (i, 4), d) for i in range(4) for d in decls]
    orr += [("ConditionalPriorDict", False, (i, 8), d) for i in range(0, 8, 1 if tier == "thorough" else 4) for d in decls]
    orr += [("ConditionalPriorDict", True, (i, 64), d) for i in range(0, 64, 1 if tier == "thorough" else 16)
            for d in (None, list("zxeadcb"))]
    ops = [("ln", "a"), ("ln", "cd"), ("ln", "bxe"), ("lnarr", "a"), ("lnarr", "ce"), ("rescale", "b"), ("rescale", "ce"),
           ("sample", "a"), ("sample", "d"), ("sample4", "b"), ("sample4", "ce"), ("bad", ""), ("unknown", ""), ("badval", ""),
           ("member", "b"), ("membersample", "a"), ("full", "")]
    depth = 2 if tier == "quick" else 3
    hist = [h for n in range(1, depth + 1) for h in itertools.product(ops, repeat=n)]
    pa = [(c, h, d) for c in ("PriorDict", "ConditionalPriorDict") for h in hist for d in (decls if tier == "thorough" else decls[:1])]
    rp = [(dims, s) for dims, L in ((2, 6 if tier == "quick" else 8), (3, 5 if tier == "quick" else 7))
          for s in itertools.product(range(dims), repeat=L)]
    jd = [(c, p, z) for c in ("PriorDict", "ConditionalPriorDict") for p in itertools.permutations("abx") for z in (None, 1, 2)]
    hpx = [(n, d) for n in (1, 2, 4) for d in (False, True)]
    return [Group("transform", tr, transform), Group("bounds", bd, bounds), Group("mixture", mx, mixture),
            Group("orders", orr, orders), Group("partial", pa, partial), Group("repeats", rp, repeats),
            Group("draws", jd, jointdraw), Group("healpix", hpx, healpix)]
