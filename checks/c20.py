"""C20: core likelihoods return their defining formula at their current data and parameters, whatever happened before."""
import copy
import itertools
import pickle
import numpy as np
from mc.core import Group

PROPERTY = "C20"
LEVEL = "model_checking"
RULE = ("formula lattices: every built-in likelihood x data sets (single values, lists, arrays, repeated and zero entries) x parameter lattices including the "
        "edges of the support, against independently written densities; histories: every sequence of operations (set one parameter, replace the parameter "
        "dict, other key order, change x / y / sigma, evaluate any of the three values, copy, pickle) up to the depth bound, the three values compared "
        "with a likelihood freshly built from the model's data and parameters after each; a case = one evaluated point or one history prefix")
TECHNIQUE = "exhaustive lattices against independent densities; bounded exhaustive exploration of operation histories of the real likelihood objects against fresh twins"
INF = float("inf")


def line(x, m, c):
    return m * np.asarray(x) + c


def const(x, c):
    return c


def posline(x, m, c):
    return np.abs(m) * np.asarray(x, dtype=float) + c


class Model:
    def func(self, x, m, c):
        return m * np.asarray(x) + c


def lgam(n):
    from math import lgamma
    return np.array([lgamma(v) for v in np.ravel(n)])


def f_gauss(y, mu, s):
    y, mu, s = np.broadcast_arrays(np.asarray(y, float), mu, s)
    return float(sum(-.5 * ((a - b) / w) ** 2 - .5 * np.log(2 * np.pi) - np.log(w) for a, b, w in zip(y.ravel(), mu.ravel(), s.ravel())))


def f_poisson(y, lam):
    y, lam = np.broadcast_arrays(np.asarray(y), lam)
    tot = 0.
    for k, r in zip(y.ravel(), lam.ravel()):
        if r == 0:
            tot += 0. if k == 0 else -INF
        else:
            tot += k * np.log(r) - r - sum(np.log(j) for j in range(1, int(k) + 1))
    return float(tot)


def f_expon(y, mu):
    y, mu = np.broadcast_arrays(np.asarray(y, float), mu)
    if np.any(mu <= 0):
        return -INF
    return float(sum(-np.log(b) - a / b for a, b in zip(y.ravel(), mu.ravel())))


def f_student(y, mu, s, nu):
    from math import lgamma
    y, mu = np.broadcast_arrays(np.asarray(y, float), mu)
    return float(sum(lgamma((nu + 1) / 2) - lgamma(nu / 2) - .5 * np.log(nu * np.pi) - np.log(s) - (nu + 1) / 2 * np.log(1 + ((a - b) / s) ** 2 / nu)
                     for a, b in zip(y.ravel(), mu.ravel())))


def f_multinomial(k, p):
    from math import lgamma
    if min(p) < 0:
        return -INF
    tot = lgamma(sum(k) + 1)
    for a, b in zip(k, p):
        tot += -lgamma(a + 1) + (0. if a == 0 else (-INF if b == 0 else a * np.log(b)))
    return float(tot)


def f_mvn(x, mu, cov):
    cov = np.atleast_2d(cov)
    d = np.asarray(x, float) - np.atleast_1d(mu)
    w, v = np.linalg.eigh(cov)
    return float(-.5 * np.sum((v.T @ d) ** 2 / w) - .5 * np.sum(np.log(w)) - .5 * len(d) * np.log(2 * np.pi))


XS = {"one": (2., 3.), "three": (np.array([0., 1., 2.]), np.array([.5, 2., -1.])), "list": ([0, 1, 2], np.array([.5, 2., -1.])),
      "zero": (np.array([0., 0., 1.]), np.zeros(3)), "int": (3, 1), "big": (np.array([-1e3, 1e3]), np.array([1e4, -1e4]))}


def put(L, params, mode):
    if mode == "update":
        L.parameters.update(params)
    elif mode == "replace":
        L.parameters = dict(params)
    elif mode == "reverse":
        L.parameters = dict(reversed(list(params.items())))
    elif mode == "extra":
        L.parameters.update(dict(zzz=3., **params))
    elif mode == "one":
        for k in params:
            L.parameters[k] = params[k]
    elif mode == "numpy":
        L.parameters.update({k: np.float64(v) for k, v in params.items()})


PUT = ["update", "replace", "reverse", "extra", "one", "numpy"]


def formulas(rec, item):
    import bilby.core.likelihood as bl
    kind, dn, pm = item
    key = f"{kind}/{dn}/{pm}"
    with rec.guard(key), np.errstate(all="ignore"):
        if kind in ("gauss", "gauss_free", "gauss_array", "gauss_kw", "gauss_method", "student", "student_free"):
            x, y = XS[dn]
            n = len(np.atleast_1d(x))
            for m, c in itertools.product((0., 1., -2.5), (0., .7)):
                mu = line(np.atleast_1d(x), m, c)
                for s in (1., .3, 2, 50.):
                    if kind == "gauss":
                        L, p, e = bl.GaussianLikelihood(x, y, line, s), dict(m=m, c=c), f_gauss(y, mu, s)
                    elif kind == "gauss_free":
                        L, p, e = bl.GaussianLikelihood(x, y, line), dict(m=m, c=c, sigma=s), f_gauss(y, mu, s)
                    elif kind == "gauss_array":
                        sg = s * np.arange(1., n + 1)
                        L, p, e = bl.GaussianLikelihood(x, y, line, sg if s != 2 else list(sg)), dict(m=m, c=c), f_gauss(y, mu, sg)
                        if s == 2:
                            L.sigma = sg
                    elif kind == "gauss_kw":
                        L, p, e = bl.GaussianLikelihood(x, y, line, s, c=c), dict(m=m), f_gauss(y, mu, s)
                    elif kind == "gauss_method":
                        L, p, e = bl.GaussianLikelihood(x, y, Model().func, s), dict(m=m, c=c), f_gauss(y, mu, s)
                    elif kind == "student":
                        for nu in (.5, 3, 100.):
                            L = bl.StudentTLikelihood(x, y, line, nu=nu, sigma=s)
                            put(L, dict(m=m, c=c), pm)
                            rec.close(L.log_likelihood(), f_student(y, mu, s, nu), key, 1e-9, 1e-9, f"m={m} c={c} s={s} nu={nu}")
                            rec.case((key, m, c, s, nu))
                        continue
                    else:
                        for nu in (.5, 3, 100.):
                            L = bl.StudentTLikelihood(x, y, line, sigma=s)
                            put(L, dict(m=m, c=c, nu=nu), pm)
                            rec.close(L.log_likelihood(), f_student(y, mu, s, nu), key, 1e-9, 1e-9, f"m={m} c={c} s={s} nu={nu}")
                            rec.case((key, m, c, s, nu))
                        continue
                    put(L, p, pm)
                    rec.close(L.log_likelihood(), e, key, 1e-9, 1e-9, f"{p} s={s}")
                    rec.case((key, m, c, s))
        elif kind == "poisson":
            y = dict(a=np.array([0, 1, 5]), b=np.array([0, 0, 0]), c=np.array([1, 2, 1000]), d=7, e=np.array([3, 0, 255], dtype="uint8"), f=0)[dn]
            x = np.arange(len(np.atleast_1d(y)))
            for m, c in itertools.product((0., 1., 3.), (0., .5, 40.)):
                L = bl.PoissonLikelihood(x, y, posline)
                put(L, dict(m=m, c=c), pm)
                lam = posline(x, m, c)
                zero = "-zero-rate-zero-count" if np.any((lam == 0) & (np.atleast_1d(y) == 0)) and not np.any((lam == 0) & (np.atleast_1d(y) > 0)) else ""
                rec.close(L.log_likelihood(), f_poisson(y, lam), "poisson" + zero if zero else key, 1e-9, 1e-8, f"y={y} rate={lam}")
                rec.case((key, m, c))
        elif kind in ("expon", "expon_scalar"):
            y = dict(a=np.array([0., 1., 5.]), b=np.zeros(2), c=np.array([1e-3, 1e3]), d=2.5, e=np.array([1, 2]))[dn]
            x = np.arange(len(np.atleast_1d(y)))
            for m, c in itertools.product((0., 1.), (-1., 0., .5, 40.)):
                f = line if kind == "expon" else const
                L = bl.ExponentialLikelihood(x, y, f)
                p = dict(m=m, c=c) if kind == "expon" else dict(c=c)
                put(L, p, pm)
                rec.close(L.log_likelihood(), f_expon(y, f(x, **p)), key, 1e-9, 1e-9, f"y={y} {p}")
                rec.case((key, m, c))
        elif kind == "multinomial":
            for d in ((3, 2), (0, 4), (0, 0), (1, 2, 3), (5, 0, 1), (2, 1, 0, 7)):
                n = len(d)
                for ps in itertools.product((0., .25, .5, 1., -.25, .75), repeat=n - 1):
                    for base in ("parameter_", "p"):
                        data = dict(list=list(d), array=np.array(d), float=np.array(d, float))[dn]
                        L = bl.Multinomial(data, n, base) if base != "parameter_" else bl.Multinomial(data, n)
                        put(L, {f"{base}{i}": v for i, v in enumerate(ps)}, pm)
                        rec.close(L.log_likelihood(), f_multinomial(d, list(ps) + [1 - sum(ps)]), key, 1e-9, 1e-9, f"{d} {ps}")
                        rec.close(L.noise_log_likelihood(), f_multinomial(d, [1 / n] * n), key, 1e-9, 1e-9, f"noise {d}")
                        rec.close(L.log_likelihood_ratio(), L.log_likelihood() - L.noise_log_likelihood(), key, 1e-12, 0)
                        rec.case((key, d, ps, base))
        elif kind == "mvn":
            for mu, cov in ((0., 2.), ([1., -1.], [[2., .5], [.5, 1.]]), ([0., 1., 2.], np.diag([1., 4., .25])), ([0., 1.], [[1e-4, 0], [0, 1e4]])):
                dim = len(np.atleast_1d(mu))
                for xs in itertools.product((-1.5, 0., 2.), repeat=dim):
                    L = bl.AnalyticalMultidimensionalCovariantGaussian(mu, cov)
                    put(L, {f"x{i}": v for i, v in enumerate(xs)}, pm)
                    rec.close(L.log_likelihood(), f_mvn(xs, mu, cov), key, 1e-9, 1e-9)
                    mu2 = np.atleast_1d(mu) + 3.
                    L = bl.AnalyticalMultidimensionalBimodalCovariantGaussian(mu, mu2, cov)
                    put(L, {f"x{i}": v for i, v in enumerate(xs)}, pm)
                    a, b = f_mvn(xs, mu, cov), f_mvn(xs, mu2, cov)
                    h = max(a, b)
                    rec.close(L.log_likelihood(), h + np.log(np.exp(a - h) + np.exp(b - h)) - np.log(2), key, 1e-9, 1e-9)
                    rec.case((key, dim, xs))


def gp(rec, item):
    import bilby.core.likelihood as bl
    lib, dn, pm = item
    key = f"gp/{lib}/{dn}/{pm}"
    t, y, yerr = dict(a=([0., 1., 2.], [0., 1., 2.], [.4, .5, .6]), b=(np.array([0., .3, 2., 2.5]), np.array([1., -1., 0., 3.]), .2 * np.ones(4)))[dn]
    with rec.guard(key), np.errstate(all="ignore"):
        for a, b in itertools.product((0., 1., -2.), (0., .5)):
            for k1, k2, k3 in itertools.product((0., .7), (0., -.5), (0., .3)):
                if lib == "celerite":
                    import celerite
                    L = bl.CeleriteLikelihood(celerite.terms.SHOTerm(log_S0=0., log_Q=.1, log_omega0=0.), bl.function_to_celerite_mean_model(line)(m=1., c=0.), t, y, yerr)
                    p = {"kernel:log_S0": k1, "kernel:log_Q": k2 + 1., "kernel:log_omega0": k3, "mean:m": a, "mean:c": b}
                    ker = celerite.terms.SHOTerm(log_S0=k1, log_Q=k2 + 1., log_omega0=k3)
                    K = ker.get_value(np.subtract.outer(np.array(t), np.array(t)))
                else:
                    import george
                    L = bl.GeorgeLikelihood(2. * george.kernels.Matern32Kernel(metric=5.), bl.function_to_george_mean_model(line)(m=1., c=0.), t, y, yerr)
                    p = {"kernel:k1:log_constant": k1, "kernel:k2:metric:log_M_0_0": k2, "mean:m": a, "mean:c": b}
                    r = np.abs(np.subtract.outer(np.array(t), np.array(t))) * np.sqrt(3 / np.exp(k2))
                    K = np.exp(k1) * (1 + r) * np.exp(-r)
                white = [k for k in L.parameters if k not in p]
                p.update({k: L.parameters[k] for k in white})
                put(L, p, pm)
                extra = 0.
                for k in white:
                    extra = np.exp(p[k])
                e = f_mvn(y, line(np.array(t), a, b), K + np.diag(np.asarray(yerr) ** 2 + extra))
                rec.close(L.log_likelihood(), e, key, 1e-6, 1e-6, str(p))
                L.set_parameters({"mean:m": a + 1})
                e = f_mvn(y, line(np.array(t), a + 1, b), K + np.diag(np.asarray(yerr) ** 2 + extra))
                rec.close(L.log_likelihood(), e, key, 1e-6, 1e-6, "after set_parameters")
                rec.case((key, a, b, k1, k2, k3))


# ------------------------------------------------------------------ histories
class State:
    """model of a likelihood: what a fresh one has to be built from"""

    def __init__(self, kind):
        self.kind, self.p, self.x, self.y, self.sigma = kind, None, 0, 0, 0

    def clone(self):
        s = State(self.kind)
        s.__dict__.update(self.__dict__)
        return s


DATA_X = [np.array([0., 1., 2.]), np.array([3., -1., 2.])]
DATA_Y = dict(gauss=[np.array([1., 2., 0.]), np.array([0., 0., 5.])], student=[np.array([1., 2., 0.]), np.array([0., 0., 5.])],
              poisson=[np.array([1, 2, 0]), np.array([3, 0, 9])], expon=[np.array([1., 2., 0.]), np.array([.5, 3., 9.])],
              multinomial=[np.array([1, 2, 4]), np.array([3, 0, 1])])
SIG = [1.5, np.array([.5, 1., 2.])]
PARS = dict(gauss=[dict(m=1., c=2.), dict(c=-1., m=.5)], gauss_free=[dict(m=1., c=2., sigma=1.2), dict(sigma=3., c=-1., m=.5)],
            student=[dict(m=1., c=2., nu=3.), dict(nu=10., c=-1., m=.5)], poisson=[dict(m=1., c=2.), dict(c=1., m=.5)], expon=[dict(m=1., c=2.), dict(c=1., m=.5)],
            multinomial=[dict(parameter_0=.2, parameter_1=.3), dict(parameter_1=.1, parameter_0=.6)],
            mvn=[dict(x0=0., x1=.5), dict(x1=-1., x0=2.)])
CHANGE = dict(gauss=("m", 4.), gauss_free=("sigma", 5.), student=("nu", 1.5), poisson=("c", 7.), expon=("c", 9.), multinomial=("parameter_0", .5), mvn=("x1", 3.))


def fresh(s):
    import bilby.core.likelihood as bl
    x = DATA_X[s.x]
    if s.kind == "gauss":
        L = bl.GaussianLikelihood(x, DATA_Y["gauss"][s.y], line, SIG[s.sigma])
    elif s.kind == "gauss_free":
        L = bl.GaussianLikelihood(x, DATA_Y["gauss"][s.y], line)
    elif s.kind == "student":
        L = bl.StudentTLikelihood(x, DATA_Y["student"][s.y], line, sigma=(1.5, .5)[s.sigma])
    elif s.kind == "poisson":
        L = bl.PoissonLikelihood(x, DATA_Y["poisson"][s.y], posline)
    elif s.kind == "expon":
        L = bl.ExponentialLikelihood(x, DATA_Y["expon"][s.y], posline)
    elif s.kind == "multinomial":
        L = bl.Multinomial(DATA_Y["multinomial"][s.y], 3)
    else:
        L = bl.AnalyticalMultidimensionalCovariantGaussian([0., 1.], [[2., .5], [.5, 1.]])
    if s.p is not None:
        L.parameters.update(s.p)
    return L


def value(s):
    """independent value of the log likelihood and its noise evidence"""
    p, x = s.p, DATA_X[s.x]
    if s.kind == "gauss":
        return f_gauss(DATA_Y["gauss"][s.y], line(x, p["m"], p["c"]), SIG[s.sigma]), np.nan
    if s.kind == "gauss_free":
        return f_gauss(DATA_Y["gauss"][s.y], line(x, p["m"], p["c"]), p["sigma"]), np.nan
    if s.kind == "student":
        return f_student(DATA_Y["student"][s.y], line(x, p["m"], p["c"]), (1.5, .5)[s.sigma], p["nu"]), np.nan
    if s.kind == "poisson":
        return f_poisson(DATA_Y["poisson"][s.y], posline(x, p["m"], p["c"])), np.nan
    if s.kind == "expon":
        return f_expon(DATA_Y["expon"][s.y], posline(x, p["m"], p["c"])), np.nan
    if s.kind == "multinomial":
        d = DATA_Y["multinomial"][s.y]
        q = [p["parameter_0"], p["parameter_1"]]
        return f_multinomial(d, q + [1 - sum(q)]), f_multinomial(d, [1 / 3] * 3)
    return f_mvn([p["x0"], p["x1"]], [0., 1.], [[2., .5], [.5, 1.]]), np.nan


def op_list(kind):
    ops = ["update0", "update1", "replace1", "change", "copy", "pickle", "eval"]
    if kind != "mvn":
        ops.append("y")
    if kind not in ("multinomial", "mvn"):
        ops.append("x")
    if kind in ("gauss", "student"):
        ops.append("sigma")
    if kind == "multinomial":
        ops.append("noise")
    return ops


def apply(L, s, op):
    s = s.clone()
    k = s.kind
    if op in ("update0", "update1"):
        L.parameters.update(PARS[k][int(op[-1])])
        s.p = dict(s.p or {}, **PARS[k][int(op[-1])])
    elif op == "replace1":
        L.parameters = dict(PARS[k][1])
        s.p = dict(PARS[k][1])
    elif op == "change":
        a, b = CHANGE[k]
        L.parameters[a] = b
        s.p = dict(s.p, **{a: b})
    elif op == "copy":
        L = copy.deepcopy(L)
    elif op == "pickle":
        L = pickle.loads(pickle.dumps(L))
    elif op == "eval":
        L.log_likelihood()
        L.log_likelihood_ratio()
    elif op == "noise":
        L.noise_log_likelihood()
    elif op == "x":
        s.x = 1 - s.x
        L.x = DATA_X[s.x]
    elif op == "y":
        s.y = 1 - s.y
        v = DATA_Y["gauss" if k == "gauss_free" else k][s.y]
        if k == "multinomial":
            L.data = v
        else:
            L.y = v
    elif op == "sigma":
        s.sigma = 1 - s.sigma
        L.sigma = SIG[s.sigma] if k == "gauss" else (1.5, .5)[s.sigma]
    return L, s


def histories(rec, item):
    kind, first, depth = item
    for rest in itertools.product(op_list(kind), repeat=depth - 1):
        ops = (first,) + rest
        key = f"history/{kind}/{'+'.join(ops)}"
        with rec.guard(key):
            s = State(kind)
            s.p = dict(PARS[kind][0])
            L = fresh(s)
            for o in ops:
                old = L
                L, s = apply(L, s, o)
                rec.transition()
                if L is not old:
                    # changes of a copy leave the original alone and the other way round
                    before = old.log_likelihood()
                    L.parameters[CHANGE[kind][0]] = CHANGE[kind][1]
                    rec.equal(old.log_likelihood(), before, key, "copy shares parameters")
                    L.parameters[CHANGE[kind][0]] = s.p[CHANGE[kind][0]]
            v, nv = value(s)
            got = L.log_likelihood()
            rec.close(got, v, key, 1e-9, 1e-9)
            rec.close(L.noise_log_likelihood(), nv, key, 1e-9, 1e-9)
            rec.close(L.log_likelihood_ratio(), v - nv, key, 1e-9, 1e-9)
            rec.equal(L.log_likelihood(), got, key, "second evaluation")
            rec.state((kind, s.x, s.y, s.sigma, tuple(sorted(s.p.items()))))
            rec.trace()
            rec.case(key)


# ---------------------------------------------------------------------- joint
def pool(name):
    """(likelihood, value(params))"""
    import bilby.core.likelihood as bl
    x, y = np.array([0., 1., 2.]), np.array([1., 2., 0.])
    if name == "G":
        return bl.GaussianLikelihood(x, y, line, .5), lambda p: f_gauss(y, line(x, p["m"], p["c"]), .5)
    if name == "P":
        return bl.PoissonLikelihood(x, np.array([1, 0, 3]), posline), lambda p: f_poisson(np.array([1, 0, 3]), posline(x, p["m"], p["c"]))
    if name == "E":
        return bl.ExponentialLikelihood(x, y, const), lambda p: f_expon(y, p["c"])
    if name == "S":
        return bl.StudentTLikelihood(x, y, line, sigma=2.), lambda p: f_student(y, line(x, p["m"], p["c"]), 2., p["nu"])
    if name == "M":
        return bl.Multinomial([1, 2, 4], 3, "p"), lambda p: f_multinomial([1, 2, 4], [p["p0"], p["p1"], 1 - p["p0"] - p["p1"]])
    if name == "A":
        return bl.AnalyticalMultidimensionalCovariantGaussian([0., 1.], [[2., .5], [.5, 1.]]), lambda p: f_mvn([p["x0"], p["x1"]], [0., 1.], [[2., .5], [.5, 1.]])
    if name == "Z":
        return bl.ZeroLikelihood(pool("G")[0]), lambda p: 0.
    if name == "C":
        import celerite
        t, yy = [0., 1., 2.], [0., 1., 2.]
        L = bl.CeleriteLikelihood(celerite.terms.SHOTerm(log_S0=0., log_Q=.1, log_omega0=0.), bl.function_to_celerite_mean_model(line)(m=1., c=0.), t, yy, .3)
        return L, lambda p: f_mvn(yy, line(np.array(t), p["mean:m"], p["mean:c"]), celerite.terms.SHOTerm(
            log_S0=p["kernel:log_S0"], log_Q=p["kernel:log_Q"], log_omega0=p["kernel:log_omega0"]).get_value(np.subtract.outer(np.array(t), np.array(t))) + .09 * np.eye(3))
    if name == "J":
        import george
        t, yy = [0., 1., 2.], [0., 1., 2.]
        L = bl.GeorgeLikelihood(2. * george.kernels.Matern32Kernel(metric=5.), bl.function_to_george_mean_model(line)(m=1., c=0.), t, yy, [.3] * 3)

        def val(p):
            r = np.abs(np.subtract.outer(np.array(t), np.array(t))) * np.sqrt(3 / np.exp(p["kernel:k2:metric:log_M_0_0"]))
            return f_mvn(yy, line(np.array(t), p["mean:m"], p["mean:c"]), np.exp(p["kernel:k1:log_constant"]) * (1 + r) * np.exp(-r) + .09 * np.eye(3))
        return L, val
    a, fa = pool(name[0])
    b, fb = pool(name[1])
    return bl.JointLikelihood(a, b), lambda p: fa(p) + fb(p)


JP = [{"m": 1., "c": 2., "nu": 3., "p0": .2, "p1": .3, "x0": 0., "x1": .5, "mean:m": .5, "mean:c": 1., "kernel:log_S0": .1, "kernel:log_Q": 1., "kernel:log_omega0": .2,
       "kernel:k1:log_constant": .3, "kernel:k2:metric:log_M_0_0": .4}]
JP.append({k: v + .25 if not k.startswith("p") else v / 2 for k, v in reversed(list(JP[0].items()))})


def needed(names):
    out = set()
    for nm in names:
        for ch in nm:
            out |= dict(G={"m", "c"}, P={"m", "c"}, E={"c"}, S={"m", "c", "nu"}, M={"p0", "p1"}, A={"x0", "x1"}, Z=set(),
                        C={"mean:m", "mean:c", "kernel:log_S0", "kernel:log_Q", "kernel:log_omega0"},
                        J={"mean:m", "mean:c", "kernel:k1:log_constant", "kernel:k2:metric:log_M_0_0"})[ch]
    return out


JOPS = ["update", "replace", "one", "copy", "pickle", "eval", "swap", "evalparts"]


def joint(rec, item):
    import bilby.core.likelihood as bl
    names, depth = item
    need = needed(names)
    can_pickle = not set("CJ") & set("".join(names))
    for ops in itertools.product([o for o in JOPS if can_pickle or o not in ("pickle", "copy")], repeat=depth):
        key = f"joint/{'+'.join(names)}/{'+'.join(ops)}"
        with rec.guard(key):
            parts = [pool(n) for n in names]
            L = bl.JointLikelihood(*[a for a, _ in parts])
            fs = [b for _, b in parts]
            cur = {k: v for k, v in JP[0].items() if k in need}
            L.parameters.update(cur)
            turn = 1
            for o in ops:
                new = {k: v for k, v in JP[turn].items() if k in need}
                if o == "update":
                    L.parameters.update(new)
                    cur, turn = new, 1 - turn
                elif o == "replace":
                    L.parameters = dict(new)
                    cur, turn = new, 1 - turn
                elif o == "one" and need:
                    k = sorted(need)[0]
                    L.parameters[k] = new[k]
                    cur = dict(cur, **{k: new[k]})
                elif o == "copy":
                    L = copy.deepcopy(L)
                elif o == "pickle":
                    L = pickle.loads(pickle.dumps(L))
                elif o == "eval":
                    L.log_likelihood()
                    L.noise_log_likelihood()
                elif o == "evalparts":
                    for part in L.likelihoods:
                        part.log_likelihood()
                elif o == "swap":
                    L.likelihoods = list(reversed(L.likelihoods))
                    fs = fs[::-1]
                rec.transition()
            e = [f(cur) for f in fs]
            rec.close(L.log_likelihood(), sum(e), key, 1e-6, 1e-6)
            if len(L.likelihoods) == len(fs):
                for part, v in zip(L.likelihoods, e):
                    rec.close(part.log_likelihood(), v, key, 1e-6, 1e-6, "part")
            rec.equal(L.log_likelihood_ratio(), L.log_likelihood() - L.noise_log_likelihood(), key, "ratio")
            n = [part.noise_log_likelihood() for part in L.likelihoods]
            rec.close(L.noise_log_likelihood(), sum(n), key, 1e-12, 0)
            # the originals keep their own parameters
            orig = parts[0][0]
            before = dict(orig.parameters)
            for k in list(L.parameters):
                L.parameters[k] = .123
            rec.equal(dict(orig.parameters), before, key, "original likelihood changed")
            rec.trace()
            rec.case(key)


def groups(tier, seed):
    deep = tier == "thorough"
    ks = dict(gauss=list(XS), gauss_free=list(XS), gauss_array=[k for k in XS if k not in ("one", "int")], gauss_kw=list(XS), gauss_method=list(XS), student=list(XS), student_free=list(XS),
              poisson=list("abcdef"), expon=list("abcde"), expon_scalar=list("abcde"), multinomial=["list", "array", "float"], mvn=["-"])
    f = [(k, d, p) for k in ks for d in ks[k] for p in PUT]
    g = [(lib, d, p) for lib in ("celerite", "george") for d in "ab" for p in PUT]
    h = [(k, o, 5 if deep else 4) for k in PARS for o in op_list(k)]
    base = ["G", "P", "E", "S", "M", "A", "Z", "C", "J"]
    j = [((a,), 3) for a in base] + [(t, 2) for t in itertools.product(base, repeat=2)] + [(("GP", "S"), 3), (("S", "EM"), 3), (("GA", "MS"), 3), (("GC", "A"), 2), (("JG", "P"), 2)]
    j += [(t, 2 if deep else 1) for t in itertools.combinations(base, 3)]
    if deep:
        j += [(t, 3) for t in itertools.product(base, repeat=2)]
    return [Group("formulas", f, formulas, 120), Group("gp", g, gp, 60), Group("histories", h, histories, 200), Group("joint", j, joint, 60)]
