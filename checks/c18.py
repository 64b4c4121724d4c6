"""C18: every MCMC move leaves the target distribution invariant."""
import functools
import itertools
from unittest import mock
import numpy as np
from mc import fakerng
from mc.core import Group

PROPERTY = "C18"
LEVEL = "model_checking"
RULE = ("move x space x boundary x target: every starting point of a lattice over the whole space x every lattice answer of every random number the move asks for; "
        "the flow of probability between all pairs of cells is summed from these transitions; a case = one configuration, the transitions are the enumerated moves")
TECHNIQUE = "exhaustive enumeration of all starts and random answers of the real proposal code on a lattice, building the transition matrix and checking detailed balance of every pair of cells"
ASSUMPTIONS = ["random numbers and spaces are lattices: flows between cells are compared to a tolerance above the lattice error",
               "the history and the ensemble a move draws on do not contain the current point (history dependence vanishes with the length of the chain)",
               "stretch moves are judged with the points outside the prior rejected; the density of KDE and mixture moves is the one of the fitted library object",
               "normalising flow moves, which train a network, are not covered"]
OUTSIDE = object()


# ------------------------------------------------------------ enumeration of all random answers
class Script:
    def __init__(self, levels):
        self.levels, self.path, self.at, self.weight = levels, [], 0, 1.

    def begin(self):
        self.at, self.weight = 0, 1.

    def take(self, values, weights=None):
        n = len(values)
        if self.at == len(self.path):
            self.path.append([0, n])
        i, m = self.path[self.at]
        assert m == n, "the move asks for different random numbers after the same answers"
        self.at += 1
        self.weight *= 1. / n if weights is None else weights[i]
        return values[i]

    def advance(self):
        del self.path[self.at:]
        while self.path:
            self.path[-1][0] += 1
            if self.path[-1][0] < self.path[-1][1]:
                return True
            self.path.pop()
        return False


def mid(n):
    return [(i + .5) / n for i in range(n)]


class Enumerated(fakerng.FakeRNG):
    def __init__(self, script):
        super().__init__(self.one, self.many)
        self.s = script

    def one(self):
        kind = self.calls[-1][0]
        lv = self.s.levels.get(kind, self.s.levels.get("uniform", 8) if kind == "random" else 8)
        return self.s.take(mid(lv) if isinstance(lv, int) else lv)

    def many(self, n):
        return self.s.take(list(range(n)))

    def choice(self, a, size=None, replace=True, p=None, **k):
        if p is None or size is not None:
            return super().choice(a, size, replace, p, **k)
        pool = np.arange(a) if np.isscalar(a) else a
        return pool[self.s.take(list(range(len(pool))), list(p))]

    def gamma(self, shape, scale=1., size=None):
        self.calls.append(("gamma", size))
        return self._arr(size, lambda: quantile(shape, self.one()) * scale)


@functools.lru_cache(None)
def quantile(shape, u):
    import scipy.stats
    return float(scipy.stats.gamma(shape).ppf(u))


def enumerate_moves(fn, levels):
    s = Script(levels)
    rng = Enumerated(s)
    with fakerng.installed(rng):
        while True:
            s.begin()
            rng.calls.clear()
            yield fn(rng), s
            if not s.advance():
                return


# ------------------------------------------------------------ spaces
def gauss(key, mu, s):
    import bilby
    return bilby.core.prior.TruncatedGaussian(mu, s, -1, 2)


def space(name, boundary):
    """priors, limits"""
    import bilby
    P = bilby.core.prior
    U = P.Uniform
    if name == "line":
        return P.PriorDict(dict(a=U(-1, 2, boundary=boundary))), dict(a=(-1, 2))
    if name == "tilted":
        return P.PriorDict(dict(a=P.PowerLaw(2, .5, 3, boundary=boundary))), dict(a=(.5, 3))
    if name == "bell":
        return P.PriorDict(dict(a=P.TruncatedGaussian(.3, .8, -1, 2, boundary=boundary))), dict(a=(-1, 2))
    if name == "plane":
        return P.PriorDict(dict(a=U(-1, 2, boundary=boundary), b=P.PowerLaw(1, 1, 3), c=U(0, 1), f=P.DeltaFunction(.4))), dict(a=(-1, 2), b=(1, 3))
    if name == "joint":
        d = P.MultivariateGaussianDist(["a", "b"], mus=[.5, -.5], sigmas=[.5, 1.], corrcoefs=[[1., .6], [.6, 1.]])
        return P.PriorDict(dict(a=P.MultivariateGaussian(d, "a"), b=P.MultivariateGaussian(d, "b"))), dict(a=(-1.5, 2.5), b=(-4, 3))
    if name == "phase":
        return P.PriorDict(dict(psi=U(0, np.pi, boundary=boundary), phase=U(0, 2 * np.pi, boundary=boundary), theta_jn=P.Sine(), c=U(0, 1))), dict(psi=(0, np.pi), phase=(0, 2 * np.pi))
    if name == "delta":
        return P.PriorDict(dict(psi=U(0, np.pi, boundary=boundary), delta_phase=U(0, 2 * np.pi, boundary=boundary), theta_jn=P.Sine(), c=U(0, 1))), dict(psi=(0, np.pi), delta_phase=(0, 2 * np.pi))
    raise KeyError(name)


REST = dict(c=.35, f=.4, theta_jn=.8, b=1.7)
OUTER = dict(line=[dict(a=v) for v in (-.7, .1, 1.6)], tilted=[dict(a=v) for v in (.8, 1.9, 2.6)], bell=[dict(a=v) for v in (-.7, .1, 1.6)],
             plane=[dict(a=-.6, b=1.3), dict(a=.9, b=2.7), dict(a=1.7, b=1.5)], joint=[dict(a=.2, b=-1.), dict(a=1., b=.5), dict(a=.6, b=-.2)])


def target(kind, limits, priors):
    keys = list(limits)

    def inside(p):
        return all(limits[k][0] <= p[k] <= limits[k][1] for k in keys)

    def log_pi(p):
        if not inside(p):
            return -np.inf
        if kind == "flat":
            return 0.
        v = 0.
        for k in keys:
            lo, hi = limits[k]
            v -= 1.2 * ((p[k] - lo) / (hi - lo) - .3) ** 2
        if kind == "likelihood":
            return v
        # prior times likelihood
        priors._reset_joint_requests(keys) if hasattr(priors, "_reset_joint_requests") else None
        return v + float(sum(priors[k].ln_prob(p[k]) for k in keys))
    return log_pi


# ------------------------------------------------------------ moves
class History:
    """what a move may ask of a chain; the rest of the chain does not contain the current point"""

    def __init__(self, sample, past, rng):
        self._s, self.past, self._rng = sample, past, rng
        self.position = 12

    @property
    def current_sample(self):
        return self._s.copy()

    @property
    def random_sample(self):
        return self.past[int(self._rng().integers(len(self.past)))].copy()


def sample(p):
    from bilby.bilby_mcmc.chain import Sample
    return Sample(dict(p))


def mcmc(make, ensemble=False, extra=None, prepare=None):
    """a move of bilby_mcmc as function (point, rng) -> (point, log factor)"""
    def build(sp, priors, subset):
        import bilby
        prop = make(priors, subset)
        past = [sample(dict(REST, **q)) for q in OUTER.get(sp, [{}])]
        if prepare:
            prepare(prop, sp, priors)

        def move(p, rng):
            s = sample(p)
            h = History(s, past, lambda: bilby.core.utils.random.rng)
            if ensemble:
                out, lf = prop(h, [History(q, past, None) for q in past])
            elif extra:
                out, lf = prop(h, *extra(priors))
            else:
                out, lf = prop(h)
            return dict(out.as_dict()), float(lf), dict(s.as_dict())
        return move, list(prop.parameters)
    return build


def like(priors):
    import bilby

    class Like(bilby.Likelihood):
        def __init__(self):
            super().__init__({k: None for k in priors})

        def log_likelihood(self):
            return float(-sum(2. * (self.parameters[k] - .6) ** 2 for k in self.parameters if self.parameters[k] is not None and k in ("a", "b")) - .5 * self.parameters["a"] * (self.parameters.get("b") or 0.))
    return Like(), priors


def fitted(prop, sp, priors, number):
    """fit the density to a chain"""
    import bilby
    bilby.core.utils.random.seed(3)
    np.random.seed(3)
    base = OUTER[sp]
    lim = space(sp, None)[1]
    pts = [{k: lim[k][0] + (lim[k][1] - lim[k][0]) * ((.5 + i * (.618034, .754878)[j]) % 1) for j, k in enumerate(base[0])} for i in range(number)]
    it = itertools.cycle(pts)

    class Fit(History):
        @property
        def random_sample(self):
            return sample(dict(REST, **next(it)))
    h = Fit(sample(dict(REST, **base[0])), None, None)
    h.position = number
    for _ in range(3):
        prop(h)
    if not prop.trained:
        raise RuntimeError("the density was not fitted")


def kde_resample(self, size=None, seed=None):
    import bilby
    if size is not None and size > 1:
        return np.tile(self.dataset, 1 + size // self.dataset.shape[1])[:, :size]
    rng = bilby.core.utils.random.rng
    i = int(rng.choice(self.dataset.shape[1], p=self.weights))
    x = np.linalg.cholesky(self.covariance) @ rng.standard_normal(self.d)
    return (self.dataset[:, i] + x)[:, None]


def gmm_sample(self, n_samples=1):
    import bilby
    if n_samples > 1:
        return np.tile(self.means_, (1 + n_samples // len(self.means_), 1))[:n_samples], None
    rng = bilby.core.utils.random.rng
    i = int(rng.choice(len(self.weights_), p=self.weights_))
    return (self.means_[i] + np.linalg.cholesky(self.covariances_[i]) @ rng.standard_normal(len(self.means_[i])))[None, :], None


def core(make):
    """a move of the cpnest family"""
    def build(sp, priors, subset):
        from bilby.core.sampler.proposal import Sample
        prop = make(priors)
        keys = subset or [k for k in OUTER[sp][0]]

        def move(p, rng):
            s = Sample({k: p[k] for k in keys})
            out = prop(s, coordinates=[Sample({k: q[k] for k in keys}) for q in OUTER[sp]])
            return dict(p, **dict(out)), float(prop.log_j), dict(p)
        return move, keys
    return build


def dyn(fn, **kw):
    """a proposal of the dynesty family, in the unit cube"""
    def build(sp, priors, subset):
        from bilby.core.sampler import dynesty_utils as du
        keys = subset or list(OUTER[sp][0])
        lim = space(sp, None)[1]
        live = np.array([[(q[k] - lim[k][0]) / (lim[k][1] - lim[k][0]) for k in keys] for q in OUTER[sp]])
        per = [i for i, k in enumerate(keys) if priors[k].boundary == "periodic"] or None
        ref = [i for i, k in enumerate(keys) if priors[k].boundary == "reflective"] or None
        nc = kw.get("n_cluster", len(keys))

        def move(p, rng):
            u = np.array([(p[k] - lim[k][0]) / (lim[k][1] - lim[k][0]) for k in keys])
            before = u.copy()
            args = dict(n=len(keys), n_cluster=nc, rstate=rng)
            if fn == "diff":
                out = du.propose_differetial_evolution(u, live=live[:, :nc], mix=.5, scale=kw.get("scale", 1.), **args)
            else:
                axes = np.array([[.5, .2], [.2, .3]])[:nc, :nc]
                out = du.propose_volumetric(u, axes=axes, scale=kw.get("scale", 1.), **args)
            out = du.apply_boundaries_(out, periodic=per, reflective=ref)
            same = dict(p) if np.array_equal(u, before) else dict(p, a=np.nan)
            if out is None:
                return OUTSIDE, 0., same
            return dict(p, **{k: lim[k][0] + out[i] * (lim[k][1] - lim[k][0]) for i, k in enumerate(keys)}), 0., same
        return move, keys
    return build


def moves():
    from bilby.bilby_mcmc import proposals as B
    from bilby.core.sampler import proposal as C
    one, none = [.5], [.5]
    far = dict(uniform=one, normal=40)
    out = {}

    def add(name, build, spaces, levels, boundaries=(None, "periodic", "reflective"), targets=("flat", "likelihood"), subset=None):
        out[name] = (build, spaces, levels, boundaries, targets, subset)
    add("fixed-gaussian", mcmc(lambda p, s: B.FixedGaussianProposal(p, subset=s, sigma=.3)), ("line",), dict(normal=60))
    add("fixed-gaussian-far", mcmc(lambda p, s: B.FixedGaussianProposal(p, subset=s, sigma=1.4)), ("line",), dict(normal=90))
    add("fixed-gaussian-2", mcmc(lambda p, s: B.FixedGaussianProposal(p, subset=s, sigma=dict(a=.4, b=.2))), ("plane",), dict(normal=10), subset=["a", "b"])
    add("adaptive", mcmc(lambda p, s: B.AdaptiveGaussianProposal(p, subset=s, sigma=.4)), ("line",), far)
    add("adaptive-jump", mcmc(lambda p, s: B.AdaptiveGaussianProposal(p, subset=s, sigma=.05)), ("line",), dict(uniform=[5e-4], normal=40))
    add("adaptive-big-jump", mcmc(lambda p, s: B.AdaptiveGaussianProposal(p, subset=s, sigma=.01)), ("line",), dict(uniform=[.5, 5e-5], normal=60), boundaries=(None, "periodic"))
    add("adaptive-2", mcmc(lambda p, s: B.AdaptiveGaussianProposal(p, subset=s, sigma=.3)), ("plane",), dict(uniform=one, normal=10), subset=["a", "b"])
    add("differential", mcmc(lambda p, s: B.DifferentialEvolutionProposal(p, subset=s)), ("line",), dict(uniform=[.2, .8], normal=16))
    add("differential-2", mcmc(lambda p, s: B.DifferentialEvolutionProposal(p, subset=s)), ("plane",), dict(uniform=[.2, .8], normal=8), subset=["a", "b"])
    add("uniform", mcmc(lambda p, s: B.UniformProposal(p, subset=s)), ("line", "tilted"), dict(uniform=60), targets=("flat", "full"))
    add("uniform-2", mcmc(lambda p, s: B.UniformProposal(p, subset=s)), ("plane",), dict(uniform=12), targets=("full",), subset=["a", "b"])
    add("prior", mcmc(lambda p, s: B.PriorProposal(p, subset=s)), ("line", "tilted", "bell"), dict(uniform=60), targets=("full",))
    add("prior-2", mcmc(lambda p, s: B.PriorProposal(p, subset=s)), ("plane",), dict(uniform=12), targets=("full",), subset=["a", "b"])
    add("prior-joint", mcmc(lambda p, s: B.PriorProposal(p, subset=s)), ("joint",), dict(uniform=16, normal=16), boundaries=(None,), targets=("full",))
    add("stretch", mcmc(lambda p, s: B.StretchProposal(p, subset=s)), ("line",), dict(uniform=40))
    add("stretch-scale", mcmc(lambda p, s: B.StretchProposal(p, subset=s, scale=4)), ("line",), dict(uniform=40))
    add("stretch-2", mcmc(lambda p, s: B.StretchProposal(p, subset=s)), ("plane",), dict(uniform=40), subset=["a", "b"])
    add("ensemble-stretch", mcmc(lambda p, s: B.EnsembleStretch(p), True), ("line",), dict(uniform=40))
    add("fixed-jump", mcmc(lambda p, s: B.FixedJumpProposal(p, jumps=.7, subset=s, scale=.05)), ("line",), dict(normal=30))
    add("fixed-jump-2", mcmc(lambda p, s: B.FixedJumpProposal(p, jumps=dict(a=.7, b=.4), subset=s, scale=.05)), ("plane",), dict(normal=8), subset=["a", "b"])
    add("fixed-jump-owned", mcmc(lambda p, s: B.FixedJumpProposal(p, jumps=dict(a=.7, b=.4), subset=s, scale=.05)), ("plane",), dict(normal=8), subset=["a"])
    add("fisher", mcmc(lambda p, s: B.FisherMatrixProposal(p, subset=s, update_interval=10 ** 9), extra=like, prepare=lambda pr, sp, p: start_fisher(pr, sp, p)), ("line",), far)
    add("fisher-2", mcmc(lambda p, s: B.FisherMatrixProposal(p, subset=s, update_interval=10 ** 9), extra=like, prepare=lambda pr, sp, p: start_fisher(pr, sp, p)), ("plane",), dict(uniform=one, normal=12), subset=["a", "b"])
    for name, cl, number in (("kde", B.KDEProposal, 14), ("gmm", B.GMMProposal, 400)):
        if cl.check_dependencies(warn=False):
            add(name, mcmc(lambda p, s, cl=cl: cl(p, subset=s, first_fit=1, fit_multiplier=10 ** 12), prepare=functools.partial(fitted, number=number)), ("line",), dict(normal=12), boundaries=(None, "periodic"))
            add(name + "-2", mcmc(lambda p, s, cl=cl: cl(p, subset=s, first_fit=1, fit_multiplier=10 ** 12), prepare=functools.partial(fitted, number=number)), ("plane",), dict(normal=4), boundaries=(None,), subset=["a", "b"])
    for sp in ("phase", "delta"):
        for name, make in (("correlated", lambda p, s: B.CorrelatedPolarisationPhaseJump(p)), ("phase-reversal", lambda p, s: B.PhaseReversalProposal(p)), ("polarisation-reversal", lambda p, s: B.PolarisationReversalProposal(p, fuzz_sigma=.3)),
                           ("both-reversal", lambda p, s: B.PhasePolarisationReversalProposal(p)), ("exact-reversal", lambda p, s: B.PhasePolarisationReversalProposal(p, fuzz=False))):
            add(f"{name}-{sp}", mcmc(make), (sp,), dict(uniform=[.25, .75] if False else 24, normal=8), boundaries=("periodic",) if sp == "delta" else ("periodic", None) if name == "correlated" else ("periodic", "reflective", None))
    add("core-normal", core(lambda p: C.NormJump(.8, priors=p)), ("line",), dict(normal=60))
    add("core-normal-2", core(lambda p: C.NormJump(.8, priors=p)), ("plane",), dict(normal=10), subset=["a", "b"])
    add("core-walk", core(lambda p: C.EnsembleWalk(n_points=3, priors=p, random_number_generator=spread)), ("line",), dict(uniform=9))
    add("core-stretch", core(lambda p: C.EnsembleStretch(priors=p)), ("line",), dict(uniform=40), boundaries=(None,))
    add("core-stretch-2", core(lambda p: C.EnsembleStretch(priors=p)), ("plane",), dict(uniform=40), boundaries=(None,), subset=["a", "b"])
    add("core-differential", core(lambda p: C.DifferentialEvolution(sigma=.3, priors=p)), ("line",), dict(normal=30))
    add("core-differential-2", core(lambda p: C.DifferentialEvolution(sigma=.3, priors=p)), ("plane",), dict(normal=20), subset=["a", "b"])
    add("core-eigen", core(lambda p: C.EnsembleEigenVector(priors=p)), ("line",), dict(normal=60))
    add("core-eigen-2", core(lambda p: C.EnsembleEigenVector(priors=p)), ("plane",), dict(normal=30), subset=["a", "b"])
    add("core-flat", core(lambda p: C.DrawFlatPrior(priors=p)), ("line", "tilted"), dict(uniform=60))
    add("dynesty-diff", dyn("diff"), ("line",), dict(uniform=[.2, .8], gamma=12))
    add("dynesty-diff-2", dyn("diff"), ("plane",), dict(uniform=[.2, .8], gamma=8), subset=["a", "b"])
    add("dynesty-diff-cluster", dyn("diff", n_cluster=1), ("plane",), dict(uniform=6, gamma=4), subset=["a", "b"])
    add("dynesty-volumetric", dyn("volumetric", scale=1.5), ("line",), dict(uniform=30, normal=2))
    add("dynesty-volumetric-2", dyn("volumetric"), ("plane",), dict(uniform=8, normal=8), subset=["a", "b"])
    add("dynesty-volumetric-cluster", dyn("volumetric", n_cluster=1), ("plane",), dict(uniform=18, normal=2), subset=["a", "b"])
    return out


def spread(**k):
    import bilby
    return bilby.core.utils.random.rng.uniform(**k)


def start_fisher(prop, sp, priors):
    """the matrix is found at one point and kept for an interval"""
    import bilby
    bilby.core.utils.random.seed(4)
    prop(History(sample(dict({k: v for k, v in REST.items() if k in priors and k not in ("c", "f")}, **OUTER[sp][1], **({k: REST[k] for k in ("c", "f") if k in priors}))), None, None), *like(priors))


def balance(rec, item):
    name, sp, boundary, tg, deep = item
    build, _, levels, _, _, subset = moves()[name]
    priors, limits = space(sp, boundary)
    if subset:
        limits = {k: limits[k] for k in subset}
    key = f"{name}:{sp}:{boundary}:{tg}"
    rec.case(key)
    with mock.patch("scipy.stats.gaussian_kde.resample", kde_resample), gmm():
        move, owned = build(sp, priors, subset)
        log_pi = target(tg, limits, priors)
        keys = list(limits)
        m = {1: 60, 2: 12}[len(keys)] * (2 if deep else 1)
        K = {1: 6, 2: 3}[len(keys)]
        if deep:
            levels = {k: v if not isinstance(v, int) else 2 * round(v * .75) for k, v in levels.items()}  # even: no draw of exactly zero
            if name == "kde-2":
                levels["normal"] = 10
        F = np.zeros((K ** len(keys) + 1,) * 2)

        def cell(p):
            c = 0
            for k in keys:
                lo, hi = limits[k]
                c = c * K + min(K - 1, int((p[k] - lo) / (hi - lo) * K))
            return c
        starts = [{k: limits[k][0] + (limits[k][1] - limits[k][0]) * (i + .5) / m for k, i in zip(keys, ix)} for ix in itertools.product(range(m), repeat=len(keys))]
        lpi = [log_pi(s) for s in starts]
        z = np.exp(lpi).sum()
        n = 0
        for s, lp in zip(starts, lpi):
            full = {k: s.get(k, REST.get(k)) for k in priors}
            i = cell(s)
            rec.state((key, tuple(s.values())))

            for (out, lf, left), script in enumerate_moves(lambda rng: move(full, rng), levels):
                n += 1
                if left != full:
                    rec.fail(key + ":state", f"the move changes the current point of the chain itself: {full} {left}")
                if out is OUTSIDE:
                    continue
                for k in full:
                    if k not in owned and out[k] != full[k]:
                        rec.fail(key + ":owned", f"{k} changes from {full[k]} to {out[k]}, the move owns {owned}")
                    if k in owned and k not in keys and not np.isclose(out[k], full[k], rtol=1e-12, atol=1e-12):
                        rec.fail(key + ":other", f"{k} changes from {full[k]} to {out[k]}")
                    b = priors[k].boundary
                    if b in ("periodic", "reflective") and k in keys and lf == 0 and "stretch" not in name and not priors[k].minimum <= out[k] <= priors[k].maximum:
                        rec.fail(key + ":boundary", f"{k}={out[k]} outside the {b} prior")
                l1 = log_pi(out)
                if l1 == -np.inf or lf == -np.inf:
                    continue
                F[i, cell(out)] += np.exp(lp + min(0., l1 - lp + lf)) / z * script.weight
        for _ in range(n):
            rec.transition()
    tol = (.012 if len(keys) == 1 else .008) * (.6 if deep else 1.)
    stay = np.trace(F)
    rec.outcome((key, round(float(F.sum() - stay), 2)))
    off = F - F.T
    worst = np.unravel_index(np.argmax(np.abs(off)), off.shape)
    rec.note("worst_imbalance", int(1e4 * abs(off[worst])))
    rec.check(abs(off[worst]) <= tol, key, f"flow from cell {worst[0]} to {worst[1]} is {F[worst]:.4f}, back {F[worst[::-1]]:.4f}")
    net = np.abs(off.sum(axis=1)).max()
    rec.check(net <= 2 * tol, key + ":net", f"net flow {net:.4f}")
    if boundary != "none" and not name.startswith(("exact",)):
        rec.check(F.sum() - stay > .02, key + ":moves", f"the move never goes anywhere: {F.sum() - stay:.4f}")


def gmm():
    try:
        from sklearn.mixture import GaussianMixture  # noqa
        return mock.patch("sklearn.mixture.GaussianMixture.sample", gmm_sample)
    except ImportError:
        import contextlib
        return contextlib.nullcontext()


def boundaries(rec, item):
    """folding of single values, against reflections and wraps written out"""
    kind, boundary = item
    lo, hi = -1., 2.
    w = hi - lo
    import bilby
    priors, _ = space("line", boundary)
    for num in range(-96, 97):
        v = lo + num * w / 24.
        for eps in (0., 1e-9, -1e-9, .011):
            x = v + eps
            key = f"{kind}:{boundary}:{num}:{eps}"
            rec.case(key)
            rec.state(x)
            t = (x - lo) / w
            if boundary == "periodic":
                want = lo + w * (t - np.floor(t))
            else:
                f = t - 2 * np.floor(t / 2)
                want = lo + w * (f if f <= 1 else 2 - f)
            with rec.guard(key):
                if kind == "mcmc":
                    from bilby.bilby_mcmc.proposals import UniformProposal
                    got = UniformProposal(priors).apply_boundaries(sample(dict(a=x)))["a"]
                elif kind == "core":
                    from bilby.core.sampler.proposal import JumpProposal, Sample
                    got = JumpProposal(priors)(Sample(dict(a=x)))["a"]
                else:
                    from bilby.core.sampler.dynesty_utils import apply_boundaries_
                    u = np.array([.3, (x - lo) / w])
                    r = apply_boundaries_(u, periodic=[1] if boundary == "periodic" else None, reflective=[1] if boundary == "reflective" else None)
                    if not rec.check(r is not None, key, "rejected"):
                        continue
                    rec.equal(float(r[0]), .3, key)
                    got = lo + w * float(r[1])
                d = abs(got - want)
                if boundary == "periodic":
                    d = min(d, abs(w - d))  # the two ends are the same point
                rec.check(d < 1e-8 and lo - 1e-12 <= got <= hi + 1e-12, key, f"{x} is folded to {got}, not {want}")


def cycles(rec, item):
    """the cycles of moves: every move of a cycle is one of those asked for, and all are used with their weights"""
    what = item
    import bilby
    from bilby.bilby_mcmc import proposals as B
    priors = space("plane", None)[0]
    names = dict(DE="DifferentialEvolutionProposal", AG="AdaptiveGaussianProposal", KD="KDEProposal", GM="GMMProposal", UN="UniformProposal", FM="FisherMatrixProposal")
    for r in range(len(names)):
        for out in itertools.combinations(names, r):
            text = "default" + "".join("no" + o for o in out)
            rec.case(f"cycle:{text}")
            rec.state(text)
            for v in (.03, .37, .71, .97):
                seq = itertools.cycle([v, .5, .11, .89, .31, .67, .2, .8, .01, .99])
                with fakerng.installed(fakerng.FakeRNG(lambda: next(seq))):
                    c = B.get_proposal_cycle(text, priors, warn=False)
                have = {type(p).__name__ for p in c.proposal_list}
                rec.equal(have, {n for k, n in names.items() if k not in out and (k != "GM" or B.GMMProposal.check_dependencies(warn=False))}, f"cycle:{text}")
                drawn = [type(c.get_proposal()).__name__ for _ in range(2 * c.nproposals)]
                rec.check(set(drawn) <= have, f"cycle:{text}", f"{set(drawn)}")
                rec.equal(drawn[:c.nproposals], drawn[c.nproposals:], f"cycle:{text}:repeat")
                rec.transition()


def ensemble(rec, item):
    """what the moves of dynesty draw differences from: the live points without the current one"""
    n, at, nc = item
    from types import SimpleNamespace
    from bilby.core.sampler import dynesty_utils as du
    live = np.array([[.1 + .7 * i / n, .9 - .5 * i / n, .2 + .1 * (i % 3)] for i in range(n)])
    saved = live.copy()
    u = live[at].copy() if at is not None else np.array([.55, .45, .33])
    key = f"ensemble:{n}:{at}:{nc}"
    rec.case(key)
    rec.state(key)
    seen = []
    real = du.proposal_funcs["diff"]
    args = SimpleNamespace(u=u, axes=np.eye(nc), rseed=5, scale=1., kwargs=dict(walks=4, live=live, nlive=n))
    with mock.patch.object(du._SamplingContainer, "proposals", ["diff"], create=True):
        proposals, common, kw = du._get_proposal_kwargs(args)
    have = sorted(map(tuple, kw["diff"]["live"].tolist()))
    want = sorted(tuple(p[:nc].tolist()) for i, p in enumerate(saved) if i != at)
    rec.equal(have, want, key)
    rec.check(np.array_equal(live, saved) and common["n_cluster"] == nc, key + ":kept", "the live points are changed")
    rec.equal(list(proposals), ["diff"] * 4, key + ":proposals")
    rec.transition()
    del seen, real


def groups(tier, seed):
    deep = tier == "thorough"
    items = []
    for name, (_, spaces, _, bs, tgs, _) in moves().items():
        for sp in spaces:
            for b in bs:
                for t in tgs:
                    if sp == "plane" and not deep and t == "flat" and len(tgs) > 1:
                        continue
                    items.append((name, sp, b, t, deep))
    return [Group("balance", items, balance, 800 if deep else 200),
            Group("boundaries", [(k, b) for k in ("mcmc", "core", "dynesty") for b in ("periodic", "reflective")], boundaries, 60),
            Group("cycles", ["default"], cycles, 60),
            Group("ensemble", [(n, at, nc) for n in (3, 4, 6) for at in (None, 0, 1, n - 1) for nc in (1, 2, 3)], ensemble, 60)]
