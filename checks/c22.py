"""C22: grids hold likelihood and prior at every point, and every marginal agrees with direct numerical integration in any order."""
import itertools
import os
import shutil
import tempfile
import numpy as np
from mc.core import Group

PROPERTY = "C22"
LEVEL = "model_checking"
RULE = ("grids: every choice of one to four parameters x prior kind x number of points x how points are given; for each grid every subset of parameters in every order, as "
        "parameters and as the complement, for the likelihood and the posterior, logarithmic and not; histories: all sequences up to the depth of marginalisations, re-evaluations, "
        "changes of the caller's arrays, saves and reads; files: label, directory, name, compression, overwriting; a case = one marginal or one file")
TECHNIQUE = "exhaustive enumeration of grids, marginalisation orders and histories of the real class against direct summation with trapezoid weights"
NAMES = ("x", "y", "z", "w")
INF = float("inf")


def loglike(kind, p):
    q = [p.get(n, .3) for n in NAMES]
    if kind == "cut" and q[0] + q[1] > 1.2:
        return -INF
    s = 300. if kind in ("steep", "cut") else 1.
    return -s * (q[0] - .4) ** 2 + .8 * np.sin(3 * q[1]) * q[0] - 2. * (q[2] - .1 * q[1]) ** 2 + .5 * q[3] * q[0] + (-800. if kind == "steep" else 0.)


def make_like(kind, names):
    import bilby

    class Like(bilby.core.likelihood.Likelihood):
        calls = 0

        def __init__(self):
            super().__init__(parameters={n: None for n in reversed(names)})

        def log_likelihood(self):
            self.calls += 1
            return loglike(kind, self.parameters)

        def noise_log_likelihood(self):
            return -4.25
    return Like()


def scaled(reference_params, x):
    return dict(minimum=0., maximum=.5 + x)


def make_prior(kind, name):
    from bilby.core import prior as p
    return dict(u=lambda: p.Uniform(0, 1, name), s=lambda: p.Sine(.2, 2., name), p=lambda: p.PowerLaw(1.5, .1, 2., name), n=lambda: p.Uniform(-1, 2, name), d=lambda: p.DeltaFunction(.45, name),
                f=lambda: .45, c=lambda: p.ConditionalUniform(condition_func=scaled, minimum=0, maximum=1.5, name=name), t=lambda: p.TruncatedGaussian(.3, .4, -.5, 1.4, name))[kind]()


def lnprior(kind, v, p):
    lo, hi = dict(u=(0, 1), s=(.2, 2.), p=(.1, 2.), n=(-1, 2), t=(-.5, 1.4), c=(0, .5 + p["x"] if "x" in p else 1.5), d=(-INF, INF), f=(-INF, INF))[kind]
    if not lo <= v <= hi:
        return -INF
    if kind in "unc":
        return -np.log(hi - lo)
    if kind in "df":
        return 0. if v == .45 else -INF
    if kind == "s":
        return np.log(np.sin(v) / (np.cos(lo) - np.cos(hi)))
    if kind == "p":
        return 1.5 * np.log(v) + np.log(2.5 / (hi ** 2.5 - lo ** 2.5))
    from scipy.stats import norm
    return norm.logpdf(v, .3, .4) - np.log(norm.cdf(hi, .3, .4) - norm.cdf(lo, .3, .4))


def quantile(kind, q):
    lo, hi = dict(u=(0, 1), s=(.2, 2.), p=(.1, 2.), n=(-1, 2), t=(-.5, 1.4), c=(0, 1.5), d=(.45, .45), f=(.45, .45))[kind]
    if kind in "uncdf":
        return lo + q * (hi - lo)
    if kind == "s":
        return np.arccos(np.cos(lo) - q * (np.cos(lo) - np.cos(hi)))
    if kind == "p":
        return (lo ** 2.5 + q * (hi ** 2.5 - lo ** 2.5)) ** .4
    from scipy.stats import norm
    return norm.ppf(norm.cdf(lo, .3, .4) + q * (norm.cdf(hi, .3, .4) - norm.cdf(lo, .3, .4)), .3, .4)


def points(kind, n, style):
    """(grid_size entry, expected points)"""
    if style == "number":
        x = np.array([.45]) if kind in "df" else np.array([quantile(kind, q) for q in np.linspace(0, 1, n)])
        return n, x
    if kind in "df":
        x = np.array([.45])
    else:
        lo, hi = quantile(kind, 0.), quantile(kind, 1.)
        x = lo + (hi - lo) * np.array([.37] if n == 1 else np.linspace(0, 1, n) ** 1.7 * .9 + .05)
    return (list(x) if style == "list" else x), x


def weights(x):
    """trapezoid rule, one point: no integration"""
    if len(x) == 1:
        return np.ones(1)
    w = np.zeros(len(x))
    d = np.diff(x)
    w[:-1] += d / 2
    w[1:] += d / 2
    return w


def logsum(a, axes):
    if not axes:
        return a
    m = np.max(a, axis=axes, keepdims=True)
    m = np.where(np.isfinite(m), m, 0.)
    with np.errstate(divide="ignore"):
        return np.squeeze(np.log(np.sum(np.exp(a - m), axis=axes, keepdims=True)) + m, axis=axes)


class Reference:
    def __init__(self, kinds, xs, like):
        self.names = NAMES[:len(kinds)]
        self.xs = xs
        shape = tuple(map(len, xs))
        self.L, self.P = np.empty(shape), np.empty(shape)
        for i in np.ndindex(*shape):
            p = {n: x[j] for n, x, j in zip(self.names, xs, i)}
            self.L[i] = loglike(like, p)
            self.P[i] = sum(lnprior(k, p[n], p) for k, n in zip(kinds, self.names))

    def marginal(self, a, params):
        for n in params:
            ax = self.names.index(n)
            with np.errstate(divide="ignore"):
                w = np.log(weights(self.xs[ax]))
            a = a + w.reshape([-1 if j == ax else 1 for j in range(len(self.xs))])
        return logsum(a, tuple(self.names.index(n) for n in params))


def build(kinds, spec, like, container, priors="dict", **kw):
    import bilby
    p = {n: make_prior(k, n) for n, k in zip(NAMES, kinds)}
    cls = dict(dict=dict, PriorDict=bilby.core.prior.PriorDict, Conditional=bilby.core.prior.ConditionalPriorDict)[priors]
    p = cls(p)
    g = list(spec) if container == "list" else dict(zip(NAMES, spec)) if container == "dict" else spec[0]
    li = make_like(like, NAMES[:len(kinds)])
    return bilby.core.grid.Grid(likelihood=li, priors=p, grid_size=g, **kw), li, p


def compare(rec, got, want, key):
    """logs; minus infinity and values far below the largest are compared as such"""
    got, want = np.asarray(got), np.asarray(want)
    if rec.check(got.shape == want.shape, key, f"shape {got.shape} expected {want.shape}"):
        rec.close(got, want, key, 1e-9, 1e-9)


def whole(rec, g, ref, key, orders=True):
    n = len(ref.names)
    rec.equal(list(g.parameter_names), list(ref.names), key + "|names")
    for x, name in zip(ref.xs, ref.names):
        rec.close(np.asarray(g.sample_points[name]), x, key + "|points " + name, 1e-12, 1e-12)
    for m, e in zip(g.mesh_grid, np.meshgrid(*ref.xs, indexing="ij")):
        rec.close(m, e, key + "|mesh", 1e-12, 1e-12)
    compare(rec, g.ln_likelihood, ref.L, key + "|ln_likelihood")
    compare(rec, g.ln_prior, ref.P, key + "|ln_prior")
    compare(rec, g.prior, np.exp(ref.P), key + "|prior")
    compare(rec, g.ln_posterior, ref.L + ref.P, key + "|ln_posterior")
    for r in range(n + 1):
        for sub in itertools.permutations(ref.names, r) if orders else itertools.combinations(ref.names, r):
            for what, a in (("likelihood", ref.L), ("posterior", ref.L + ref.P)):
                want = ref.marginal(a, sub)
                k = f"{key}|{what} over {','.join(sub)}"
                rec.case(k)
                rec.transition()
                forms = [("list", dict(parameters=list(sub)))]
                if r == 1:
                    forms.append(("name", dict(parameters=sub[0])))
                if r == n:
                    forms.append(("all", {}))
                if sub == tuple(sorted(sub, key=ref.names.index)):
                    rest = [x for x in ref.names if x not in sub]
                    forms.append(("complement", dict(not_parameters=rest)))
                    forms.append(("complement reversed", dict(not_parameters=rest[::-1])))
                    if len(rest) == 1:
                        forms.append(("complement name", dict(not_parameters=rest[0])))
                for form, kw in forms:
                    compare(rec, getattr(g, "marginalize_ln_" + what)(**kw), want, f"{k} ({form}) ln")
                    if np.isfinite(np.max(want)):
                        compare(rec, getattr(g, "marginalize_" + what)(**kw), np.exp(want - np.max(want)), f"{k} ({form})")
    z = ref.marginal(ref.L + ref.P, ref.names)
    compare(rec, g.ln_evidence, z, key + "|ln_evidence")
    compare(rec, g.log_evidence, z, key + "|log_evidence")
    rec.equal(g.log_noise_evidence, -4.25, key + "|noise")


def grids(rec, item):
    kinds, ns, styles, container, priors, like = item
    key = f"grids|{kinds} {ns} {'/'.join(styles)} {container} {priors} {like}"
    spec = [points(k, n, s) for k, n, s in zip(kinds, ns, styles)]
    with rec.guard(key):
        g, li, p = build(kinds, [s[0] for s in spec], like, container, priors)
        ref = Reference(kinds, [s[1] for s in spec], like)
        whole(rec, g, ref, key)
        rec.equal(li.calls, int(np.prod([len(s[1]) for s in spec])), key + "|evaluations")
        rec.state((kinds, ns))
        rec.trace()


def histories(rec, item):
    """marginals do not depend on what was asked before or on what is done to earlier answers"""
    kinds, ops = item
    key = f"histories|{kinds} {'>'.join(ops)}"
    rec.case(key)
    spec = [points(k, n, "array") for k, n in zip(kinds, (3, 4, 2))]
    d = tempfile.mkdtemp(prefix="c22_")
    with rec.guard(key):
        given = [s[0].copy() for s in spec]
        g, li, p = build(kinds, given, "plain", "dict", label="lab", outdir=d)
        ref = Reference(kinds, [s[1] for s in spec], "plain")
        import bilby
        for i, op in enumerate(ops):
            rec.transition()
            if op == "x":
                out = g.marginalize_ln_posterior(parameters="x")
                out[:] = 7.
            elif op == "none":
                g.marginalize_ln_likelihood(parameters=[])[:] = 5.
            elif op == "posterior":
                a = g.ln_posterior
                a += 3.
            elif op == "evaluate":
                li.parameters.update({n: 9. for n in NAMES[:3]})
                li.log_likelihood()
            elif op == "custom":
                compare(rec, g.marginalize(2 * ref.L, parameters=["y", "x"]), ref.marginal(2 * ref.L, ("y", "x")), key + f"|{i} custom")
            elif op == "list":
                names = ["z", "x"]
                g.marginalize_posterior(parameters=names)
                g.marginalize_posterior(not_parameters=names)
                rec.equal(names, ["z", "x"], key + f"|{i} caller's list")
            elif op == "save":
                g.save_to_file(overwrite=True)
                g = bilby.core.grid.Grid.read(outdir=d, label="lab")
                rec.check(g.ln_likelihood is not None, key + f"|{i} read")
        whole(rec, g, ref, key, orders=False)
        rec.trace()
    shutil.rmtree(d)


def files(rec, item):
    """saved grids read back identically, however they are named"""
    import bilby
    kinds, ns, gz, where, save, over, like, priors = item
    key = f"files|{kinds} {ns} gzip={gz} {where} at_once={save} overwrite={over} {like} {priors}"
    rec.case(key)
    d = tempfile.mkdtemp(prefix="c22_")
    here = os.getcwd()
    with rec.guard(key):
        os.chdir(d)
        spec = [points(k, n, "number" if i % 2 else "array") for i, (k, n) in enumerate(zip(kinds, ns))]
        ref = Reference(kinds, [s[1] for s in spec], like)
        g, li, p = build(kinds, [s[0] for s in spec], like, "dict", priors, label="lab", outdir=os.path.join(d, "sub"), save=save, gzip=gz)
        name = "sub/lab_grid.json" + (".gz" if gz else "")
        if save:
            rec.check(os.path.isfile(name), key + "|saved at once")
        if where == "default":
            g.save_to_file(overwrite=over, gzip=gz)
            r = bilby.core.grid.Grid.read(outdir="sub", label="lab", gzip=gz)
        elif where == "outdir":
            g.save_to_file(overwrite=over, gzip=gz, outdir="other/deep")
            name = name.replace("sub", "other/deep")
            r = bilby.core.grid.Grid.read(outdir="other/deep", label="lab", gzip=gz)
        elif where == "filename":
            name = "named.json" + (".gz" if gz else "")
            g.save_to_file(filename=name, overwrite=over, gzip=gz)
            r = bilby.core.grid.Grid.read(filename=name)
        else:  # compressed although the name does not say so
            name = "plain.dat"
            g.save_to_file(filename=name, overwrite=over, gzip=gz)
            r = bilby.core.grid.Grid.read(filename=name, gzip=gz)
        rec.check(os.path.isfile(name), key + "|file")
        rec.equal(sorted(f for f in os.listdir(os.path.dirname(name) or ".") if f.endswith(".temp")), [], key + "|temporary files")
        for h, w in ((r, "read"), (g, "original after saving")):
            whole(rec, h, ref, key + f"|{w}", orders=False)
        rec.check(np.array_equal(r.ln_likelihood, g.ln_likelihood) and np.array_equal(r.ln_posterior, g.ln_posterior), key + "|bits")
        rec.check(all(np.array_equal(r.sample_points[n], g.sample_points[n]) for n in r.parameter_names), key + "|bits of points")
        rec.equal(list(r.priors), list(g.priors), key + "|priors")
        rec.check(r.priors == g.priors, key + "|prior values")
        rec.equal((r.label, r.outdir), (g.label, g.outdir), key + "|label")
        # and the grid that was read can be saved again
        r.save_to_file(filename="again.json")
        whole(rec, bilby.core.grid.Grid.read("again.json"), ref, key + "|again", orders=False)
        rec.trace()
    os.chdir(here)
    shutil.rmtree(d)


def rules(rec, item):
    """the trapezoid rule on logarithms, with equal and unequal steps, against summation"""
    from bilby.core.utils import logtrapzexp
    vals, steps, form = item
    key = f"rules|{vals} {steps} {form}"
    rec.case(key)
    f = np.array(vals, dtype=float)
    n = len(f)
    dx = np.full(n - 1, .25) if steps == "equal" else np.arange(1., n) * .1
    with np.errstate(divide="ignore", invalid="ignore"):
        top = max(f)
        ref = -INF if top == -INF else np.log(np.sum((np.exp(f[1:] - top) + np.exp(f[:-1] - top)) * dx / 2)) + top
        before = f.copy()
        got = logtrapzexp(f, .25 if form == "number" else list(dx) if form == "list" else dx)
    rec.close(got, ref, key, 1e-12, 1e-12)
    rec.check(np.array_equal(f, before), key + "|caller's array")


def groups(tier, seed):
    import bilby
    bilby.core.utils.logger.setLevel("CRITICAL")
    deep = tier == "thorough"
    G = []
    sizes = (1, 2, 3, 5)
    styles = ("number", "array", "list")
    for k in "uspntdf":
        for n in sizes:
            for s in styles:
                if s == "number" and n == 1 and k not in "df":
                    continue
                for c in ("list", "dict", "single") if s == "number" else ("list", "dict"):
                    G.append((k, (n,), (s,), c, "dict", "plain"))
    kk = ["".join(x) for x in itertools.product("uspd", "unctf")]
    for k in kk:
        for ns in itertools.product((1, 2, 4), repeat=2) if deep or k in ("un", "uc", "df", "sf", "st") else ((3, 4), (1, 3), (4, 2)):
            for st in (("number", "array"), ("list", "number"), ("array", "list")):
                ns2 = tuple(max(n, 2) if s == "number" else n for n, s in zip(ns, st))
                for like in ("plain", "cut", "steep"):
                    G.append((k, ns2, st, "list" if ns[0] == 1 else "dict", "Conditional" if "c" in k else "PriorDict" if like == "cut" else "dict", like))
    for k in ("usp", "udn", "fud", "ucs", "pnu", "cun", "utn"):
        if k[0] == "c":
            continue
        for ns in itertools.product((1, 3), (2, 3), (1, 2)) if not deep else itertools.product((1, 2, 3), repeat=3):
            for like in ("plain", "cut"):
                G.append((k, ns, ("array", "list", "array"), "dict" if like == "cut" else "list", "Conditional" if "c" in k else "dict", like))
    for k in ("uspn", "ufcd", "nutp"):
        for ns in ((2, 3, 2, 3), (1, 2, 3, 2), (3, 1, 1, 2)):
            G.append((k, ns, ("array", "number" if ns[1] > 1 else "list", "array", "array"), "list", "Conditional" if "c" in k else "dict", "plain"))
    G = list(dict.fromkeys(G))
    ops = ("x", "none", "posterior", "evaluate", "custom", "list", "save")
    H = [(k, o) for k in ("usp", "ucn") if k == "usp" for r in range(1, 4 if deep else 3) for o in itertools.product(ops, repeat=r)]
    Fl = [x for x in itertools.product(("us", "uc", "d", "fpn"), ((3, 2, 2), (1, 4, 2)), (False, True), ("default", "outdir", "filename", "bare"), (False, True), (False, True), ("plain", "cut"), ("dict",))]
    Fl = [(k, n, g, w, s, o, li, "Conditional" if "c" in k else p) for k, n, g, w, s, o, li, p in Fl]
    vals = (0., 2.5, -INF, -700., 800.)
    R = [(v, s, f) for n in range(2, 6 if deep else 5) for v in itertools.product(vals, repeat=n) for s, f in (("equal", "number"), ("equal", "array"), ("unequal", "array"), ("unequal", "list"))]
    return [Group("grids", G, grids, 600), Group("histories", H, histories, 300), Group("files", Fl, files, 300), Group("rules", R, rules, 100)]
