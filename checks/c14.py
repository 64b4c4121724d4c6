"""C14: samplers explore exactly the posed posterior."""
import importlib
import itertools
from contextlib import ExitStack
from unittest import mock
import numpy as np
from mc import fakerng
from mc.core import Group
from checks.c16 import cls, listen, samplers, scratch, SKIP_IMPORT

PROPERTY = "C14"
LEVEL = "model_checking"
RULE = ("target: problem shape x ratio x sampler x every lattice point (inside, on and outside every edge) x what the sampling library is given (functions recorded at its entry point) x "
        "serial/pool; histories: every sequence of evaluations up to the depth; pairs: every ordered pair of problems run in one process; draws: initial points for all lattice answers of the generator; "
        "a case = one evaluation")
TECHNIQUE = "exhaustive enumeration of problems, points and evaluation histories of the functions handed to the real sampling libraries, against independently written densities"
ASSUMPTIONS = ["fixed parameters are written to the likelihood when the sampler is built and nothing else overwrites them before it runs",
               "the normalisation of constrained priors is one constant, a Monte Carlo estimate, compared to 2 per cent",
               "pymc poses its own model and skips the likelihood; polychord, pymultinest and bilby_mcmc are judged at their public functions, the others at the entry point of the library",
               "libraries which never leave the prior are only asked for likelihoods inside it"]
NOISE = -4.25
BIG = np.nan_to_num(-np.inf)


def like(shape):
    import bilby
    names = dict(free="za", fixed="zcak", constraint="za", conditional="za", joint="mza", periodic="za", beyond="za")[shape]

    class Like(bilby.Likelihood):
        def __init__(self):
            super().__init__({n: None for n in names})

        def log_likelihood(self):
            return value({n: self.parameters[n] for n in names})

        def noise_log_likelihood(self):
            return NOISE

    if shape == "beyond":
        class Beyond(Like):
            def log_likelihood(self):
                with np.errstate(all="ignore"):
                    return value({n: self.parameters[n] for n in names}) + float(np.log(self.parameters["a"] + .25))
        return Beyond()
    return Like()


WEIGHT = dict(z=3., a=-1.5, m=.75, c=2.25, k=-.5)


def value(p):
    v = 0.
    for n in sorted(p):
        v += WEIGHT[n] * p[n] - .3 * p[n] ** 2
    return float(v + p["z"] * p["a"] * p.get("c", 1.) * p.get("m", 1.5))


def conversion(p):
    p = p.copy()
    p["s"] = p["z"] + p["a"]
    return p, []


def derived(p):
    p = p.copy()
    p["s"] = p["z"] + p["a"]
    return p


def edge(ref, z):
    return dict(minimum=0., maximum=z * 2.)


WARM = {}


def priors(shape):
    p = fresh(shape)
    if shape in WARM:  # only spares time
        getattr(p, "_cached_normalizations", {}).update(getattr(WARM[shape], "_cached_normalizations", {}))
    return p


def warm():
    """the normalisation of a collection is a slow Monte Carlo estimate: made once, before the workers are forked"""
    for shape in SHAPES:
        p = fresh(shape)
        keys = [k for k in p if k in AXES[shape]]
        p.ln_prob({k: v for k, v in p.sample().items() if k in keys})
        WARM[shape] = p


def fresh(shape):
    import bilby
    P = bilby.core.prior
    if shape in ("free", "beyond"):
        return P.PriorDict(dict(z=P.Uniform(-1, 2), a=P.PowerLaw(2, .5, 3)))
    if shape == "fixed":
        return P.PriorDict(dict(z=P.Uniform(-1, 2), c=P.DeltaFunction(.7), a=P.Sine(.2, 2.5), k=2.))
    if shape == "constraint":
        return P.PriorDict(dict(z=P.Uniform(0, 1), s=P.Constraint(.5, 1.5), a=P.Uniform(0, 1)), conversion_function=derived)
    if shape == "conditional":
        return P.ConditionalPriorDict(dict(a=P.ConditionalUniform(condition_func=edge, minimum=0., maximum=4.), z=P.Uniform(.5, 2)))
    if shape == "joint":
        d = P.MultivariateGaussianDist(["m", "z"], mus=[.5, -.5], sigmas=[.5, 2.], corrcoefs=[[1., .6], [.6, 1.]])
        return P.PriorDict(dict(m=P.MultivariateGaussian(d, "m"), a=P.Uniform(-2, 1), z=P.MultivariateGaussian(d, "z")))
    return P.PriorDict(dict(z=P.Uniform(0, 2, boundary="periodic"), a=P.Uniform(-1, 1, boundary="reflective")))


FIXED = dict(fixed=dict(c=.7, k=2.))
AXES = dict(free=dict(z=(-1.5, -1., -.2, 1.3, 2., 2.5), a=(.25, .5, .9, 2.2, 3., 3.4)), fixed=dict(z=(-1.5, -1., .4, 2., 2.5), a=(.1, .2, 1.1, 2.5, 2.7)),
            constraint=dict(z=(-.3, 0., .1, .45, .7, 1., 1.2), a=(-.3, 0., .2, .45, .7, 1., 1.2)), conditional=dict(z=(.25, .5, .8, 1.6, 2., 2.25), a=(-.5, 0., .7, 1., 1.6, 2.4, 3.5)),
            joint=dict(m=(-.6, .5, 1.1), a=(-2.5, -2., .3, 1., 1.2), z=(-2.5, -.5, 1.5)), periodic=dict(z=(-.5, 0., .6, 1.9, 2., 2.3), a=(-1.2, -1., .2, 1., 1.4)),
            beyond=dict(z=(-1.5, -1., .7, 2., 2.5), a=(-.5, -.25, .25, .5, 1.9, 3., 3.4)))
SHAPES = tuple(AXES)


def box(x, lo, hi):
    return lo <= x <= hi


def log_prior(shape, p):
    """None outside"""
    z, a = p["z"], p["a"]
    if shape in ("free", "beyond"):
        return -np.log(3.) + np.log(3. * a ** 2 / (27. - .125)) if box(z, -1, 2) and box(a, .5, 3) else None
    if shape == "fixed":
        return -np.log(3.) + np.log(np.sin(a) / (np.cos(.2) - np.cos(2.5))) if box(z, -1, 2) and box(a, .2, 2.5) else None
    if shape == "constraint":  # up to the normalisation constant
        return 0. if box(z, 0, 1) and box(a, 0, 1) and .5 < z + a < 1.5 else None
    if shape == "conditional":
        return -np.log(1.5) - np.log(2. * z) if box(z, .5, 2) and box(a, 0, 2 * z) else None
    if shape == "joint":
        if not box(a, -2, 1):
            return None
        x, y = (p["m"] - .5) / .5, (z + .5) / 2.
        return -np.log(3.) - np.log(2 * np.pi * .5 * 2.) - .5 * np.log(1 - .36) - (x * x - 1.2 * x * y + y * y) / (2 * (1 - .36))
    return -np.log(2.) - np.log(2.) if box(z, 0, 2) and box(a, -1, 1) else None


def log_like(shape, p, ratio):
    full = dict(p, **FIXED.get(shape, {}))
    v = value(full)
    if shape == "beyond":
        with np.errstate(all="ignore"):
            v += float(np.log(p["a"] + .25))
    return v - (NOISE if ratio or ratio is None else 0.)  # None: the ratio when there is one


def skipped_constraint(shape, p):
    return shape == "constraint" and not .5 < p["z"] + p["a"] < 1.5


def points(shape, keys):
    return [dict(zip(keys, v)) for v in itertools.product(*[AXES[shape][k] for k in keys])]


# ------------------------------------------------------------ recording what the libraries are given
class Reached(Exception):
    pass


class Target:
    """functions handed to a library, in one form"""
    logl = logp = both = transform = pool = model = None


def grab(n, init, run, obj):
    t = Target()
    t.pool = init.get("pool", None)
    a = dict(init, **run)
    if n in ("emcee", "zeus", "kombine"):
        f = a.get("log_prob_fn", a.get("logprob_fn", a.get("lnpostfn")))
        t.fn = f
        t.both = unpack
    elif n == "ptemcee":
        t.fn = obj._likeprior
        t.both = pair
    elif n in ("nestle", "dynesty", "dynamic_dynesty"):
        t.fn = a["loglikelihood"]
        t.transform = a["prior_transform"]
        t.live = a.get("live_points")
        t.both = only
    elif n == "ultranest":
        t.fn = a["arg1"]
        t.transform = a["transform"]
        t.both = only
    elif n == "ptmcmcsampler":
        t.fn, t.both, t.logp = a["logl"], only, a["logp"]
    elif n in ("cpnest", "nessai", "dnest4"):
        t.model = a["arg0"]
    return t


def unpack(x):
    """(posterior, blob) -> (posterior, likelihood, prior)"""
    return float(x[0]), float(x[1][0]), float(x[1][1])


def pair(x):
    return None, float(x[0]), float(x[1])


def only(x):
    return None, float(x), None


def stand(n, probe):
    init = {}

    class Stand:
        def __init__(self, *a, **k):
            init.clear()
            init.update(k)
            init.update({f"arg{i}": x for i, x in enumerate(a)})
            self.it = 0

        def run(self, *a, **k):
            probe(grab(n, init, {}, self))
            raise Reached

        sample = run_nested = run
        chain = np.zeros((0, 0, 0))

        @classmethod
        def __init_subclass__(cls_, **k):
            pass
    return Stand


def patches(n, probe):
    """(module, name, stand-in)"""
    def f(*a, **k):
        probe(grab(n, k, {f"arg{i}": x for i, x in enumerate(a)}, None))
        raise Reached
    S = stand(n, probe)
    where = dict(nestle=[("nestle", "sample", f)], emcee=[("emcee", "EnsembleSampler", S)], zeus=[("zeus", "EnsembleSampler", S)], kombine=[("kombine", "Sampler", S)],
                 ptmcmcsampler=[("PTMCMCSampler.PTMCMCSampler", "PTSampler", S)], cpnest=[("cpnest", "CPNest", S)], dnest4=[("dnest4", "DNest4Sampler", S)], ptemcee=[("ptemcee", "Sampler", S)],
                 ultranest=[("ultranest.integrator", "NestedSampler", S), ("ultranest.integrator", "ReactiveNestedSampler", S)])
    if n == "nessai":
        real = importlib.import_module("nessai.flowsampler").FlowSampler
        N = type("FlowSampler", (real,), dict(__init__=S.__init__, run=S.run, it=0))
        N.__init__ = lambda self, *a, **k: S.__init__(self, *a, **k)
        import inspect
        N.__init__.__signature__ = inspect.signature(real.__init__)
        return [("nessai.flowsampler", "FlowSampler", N)]
    if n in ("dynesty", "dynamic_dynesty"):
        import inspect
        import dynesty
        name = "NestedSampler" if n == "dynesty" else "DynamicNestedSampler"
        real = getattr(dynesty, name)

        def g(*a, **k):
            return S(*a, **k)
        g.__signature__ = inspect.signature(real)
        if n == "dynamic_dynesty":
            class D(real):
                def __init__(self, *a, **k):
                    S.__init__(self, *a, **k)

                def run_nested(self, *a, **k):
                    S.run(self)
            D.__init__.__signature__ = inspect.signature(real.__init__)
            D.run_nested.__signature__ = inspect.signature(real.run_nested)
            return [("dynesty", name, D)]
        return [("dynesty", name, g)]
    return where[n]


KW = dict(emcee=dict(nwalkers=8, iterations=5), zeus=dict(nwalkers=8, iterations=5), kombine=dict(nwalkers=8, iterations=9), ptemcee=dict(nwalkers=8, ntemps=2), dynesty=dict(nlive=12, check_point=False),
          dynamic_dynesty=dict(nlive=12, check_point=False), ultranest=dict(temporary_directory=False), dnest4=dict(temporary_directory=False))
WITH_POOL = ("emcee", "zeus", "kombine", "ptemcee", "dynesty")
RECORDED = ("dynesty", "nestle", "cpnest", "nessai", "ultranest", "dnest4", "emcee", "zeus", "kombine", "ptemcee", "ptmcmcsampler")


def start(n, shape, ratio, probe, **kw):
    """run a sampler up to the library's entry point and probe what it was given; the sampler"""
    with scratch() as d, listen(), ExitStack() as st:
        for module, name, what in patches(n, lambda t: probe(s, t)):
            st.enter_context(mock.patch.object(importlib.import_module(module), name, what))
        k = dict(KW.get(n, {}), **kw)
        s = cls(n)(like(shape), priors(shape), outdir=d, label="l", use_ratio=ratio, **k)
        try:
            s.run_sampler()
        except Reached:
            pass
        finally:
            pool = getattr(s, "pool", None)
            if pool is not None and hasattr(pool, "join"):
                pool.close()
                pool.join()
    return s


class Constant:
    """normalisation of a constrained prior: one constant"""

    def __init__(self):
        self.c = None

    def close(self, rec, shape, got, want, key):
        if want is None:
            return rec.check(got == -np.inf, key, f"{got} outside the prior")
        if shape == "constraint":
            if self.c is None:
                self.c = got - want
                return rec.check(abs(np.exp(-self.c) - .75) < .02, key, f"normalisation {np.exp(-self.c)}")
            return rec.close(got - want, self.c, key, 1e-12, 1e-12)
        rec.close(got, want, key, 1e-9, 1e-9)


def theta(keys, p):
    return np.array([p[k] for k in keys])


def evaluate(rec, n, shape, ratio, s, t, ps, key, pool=False):
    """every point of ps, in order, through what the library was given"""
    keys = list(s.search_parameter_keys)
    const = Constant()
    const.c = getattr(s, "_mc_const", None)
    out = []
    if t.model is not None:
        raw = [t.model] * len(ps)
    elif pool:
        raw = t.pool.map(t.fn, [theta(keys, p) for p in ps])
    else:
        raw = [t.fn(theta(keys, p)) for p in ps]
    for p, x in zip(ps, raw):
        kk = f"{key}:{'/'.join(f'{k}={p[k]}' for k in keys)}"
        lp, ll = log_prior(shape, p), log_like(shape, p, ratio)
        rec.state((n, shape, ratio, tuple(p.items())))
        rec.transition()
        if t.model is not None:
            post, l, q = model(n, t.model, keys, p, s)
        else:
            post, l, q = t.both(x)
            if t.logp is not None:
                q = float(t.logp(theta(keys, p)))
        out.append((post, l, q))
        if skipped_constraint(shape, p) and n in ("nestle", "dynesty", "ultranest", "cpnest", "nessai", "dnest4"):
            rec.check(l <= BIG, kk + ":like", f"{l} where the constraint is violated")
        elif lp is not None or q is None:
            if lp is not None:
                rec.close(l, ll, kk + ":like", 1e-12, 1e-12)
        if q is not None:
            const.close(rec, shape, q, lp, kk + ":prior")
        if post is not None:
            if lp is None:
                rec.check(post == -np.inf, kk + ":posterior", f"{post} outside the prior")
            else:
                rec.close(post, l + q, kk + ":posterior", 1e-12, 1e-12)
    s._mc_const = const.c
    return out


def model(n, m, keys, p, s):
    if n == "nessai":
        x = np.zeros(1, dtype=[(k, float) for k in keys])
        for k in keys:
            x[k] = p[k]
        return None, float(m.log_likelihood(x)), float(np.squeeze(m.log_prior(x)))
    if n == "cpnest":
        return None, float(m.log_likelihood(p)), float(m.log_prior(p))
    return None, float(m.log_likelihood(theta(keys, p))), None


def usable(n, shape):
    """what a library cannot be given"""
    return True


def target(rec, item):
    n, shape, ratio = item

    def probe(s, t):
        keys = list(s.search_parameter_keys)
        rec.equal(sorted(keys), sorted(AXES[shape]), f"names:{n}:{shape}")
        ps = points(shape, keys)
        if n in ("cpnest", "nessai", "dnest4", "ptmcmcsampler") or shape == "beyond":
            # libraries which only ask for likelihoods inside the prior
            inside = [p for p in ps if log_prior(shape, p) is not None]
            if shape == "beyond" and n not in ("emcee", "zeus", "kombine", "ptemcee"):
                ps = inside
        evaluate(rec, n, shape, ratio, s, t, ps, f"target:{n}:{shape}:{ratio}")
        for q in ps:
            rec.case(f"target:{n}:{shape}:{ratio}:{q}")
        first = evaluate(rec, n, shape, ratio, s, t, ps[::-1], f"reverse:{n}:{shape}:{ratio}")
        again = evaluate(rec, n, shape, ratio, s, t, ps, f"again:{n}:{shape}:{ratio}")
        rec.equal(repr(first[::-1]), repr(again), f"order:{n}:{shape}:{ratio}")
        for k, v in FIXED.get(shape, {}).items():
            rec.equal(s.likelihood.parameters[k], v, f"fixed:{n}:{shape}:{k}")
        if t.transform is not None:
            cube(rec, n, shape, s, t)
        if n == "dynesty":
            live(rec, n, shape, ratio, s, t)
        if n == "nessai":
            unit(rec, shape, s, t)
        if n == "dnest4":
            moves(rec, shape, s, t)
        seen.append(1)
    seen = []
    start(n, shape, ratio, probe)
    rec.check(len(seen) == 1, f"reached:{n}:{shape}:{ratio}", "the library was not reached")


def inverse(shape, u):
    """inverse cumulative distributions written out; u by name"""
    z, a = u["z"], u["a"]
    if shape in ("free", "beyond"):
        return dict(z=-1 + 3 * z, a=(.125 + a * (27. - .125)) ** (1 / 3.))
    if shape == "fixed":
        return dict(z=-1 + 3 * z, a=np.arccos(np.cos(.2) - a * (np.cos(.2) - np.cos(2.5))))
    if shape == "constraint":
        return dict(z=z, a=a)
    if shape == "conditional":
        zz = .5 + 1.5 * z
        return dict(z=zz, a=a * 2 * zz)
    if shape == "periodic":
        return dict(z=2 * z, a=-1 + 2 * a)
    return None


def cube(rec, n, shape, s, t):
    keys = list(s.search_parameter_keys)
    for u in itertools.product((.1, .35, .8), repeat=len(keys)):
        got = np.array(t.transform(np.array(u)), dtype=float)
        rec.case(f"cube:{n}:{shape}:{u}")
        base = np.array(s.prior_transform(np.array(u)), dtype=float)
        rec.equal(got.tolist(), base.tolist(), f"cube-same:{n}:{shape}:{u}")
        want = inverse(shape, dict(zip(keys, u)))
        if want is not None:
            rec.close(got, [want[k] for k in keys], f"cube:{n}:{shape}:{u}", 1e-9, 1e-9)
        else:
            rec.close(got, np.array(priors(shape).rescale(keys, list(u)), dtype=float), f"cube:{n}:{shape}:{u}", 1e-12, 1e-12)
            rec.close(got[keys.index("a")], -2 + 3 * u[keys.index("a")], f"cube-a:{n}:{shape}:{u}", 1e-12, 1e-12)


def unit(rec, shape, s, t):
    keys = list(s.search_parameter_keys)
    us = list(itertools.product((.1, .35, .8), repeat=len(keys)))
    x = np.zeros(len(us), dtype=[(k, float) for k in keys])
    for i, k in enumerate(keys):
        x[k] = [u[i] for u in us]
    got = t.model.from_unit_hypercube(x)
    for i, u in enumerate(us):
        for way, g in (("batch", got[i]), ("single", t.model.from_unit_hypercube(x[i:i + 1])[0])):
            key = f"unit:{shape}:{way}:{u}"
            rec.case(key)
            rec.close([float(g[k]) for k in keys], list(map(float, s.prior_transform(np.array(u)))), key, 1e-12, 1e-12)
    inside = [p for p in points(shape, keys) if log_prior(shape, p) is not None]
    for p in inside:
        for k in keys:
            lo, hi = t.model.bounds[k]
            rec.check(lo <= p[k] <= hi, f"bounds:{shape}:{k}", f"{k}={p[k]} is not within the bounds {lo, hi} given to the library")
    rec.equal({k: list(map(float, t.model.bounds[k])) for k in keys}, BOUNDS.get(shape, {k: list(map(float, t.model.bounds[k])) for k in keys}), f"bounds:{shape}")
    x = np.zeros(len(inside), dtype=x.dtype)
    for k in keys:
        x[k] = [p[k] for p in inside]
    batch = np.array(t.model.log_prior(x), dtype=float)
    for i, p in enumerate(inside):
        rec.close(batch[i], float(np.squeeze(t.model.log_prior(x[i:i + 1]))), f"batch-prior:{shape}:{p}", 1e-12, 1e-12)


BOUNDS = dict(conditional=dict(a=[0., 4.], z=[.5, 2.]), free=dict(z=[-1., 2.], a=[.5, 3.]))


def live(rec, n, shape, ratio, s, t):
    keys = list(s.search_parameter_keys)
    u, v, l = [np.array(x) for x in t.live[:3]]
    rec.equal((u.shape, v.shape, l.shape), ((12, len(keys)), (12, len(keys)), (12,)), f"live-shape:{n}:{shape}:{ratio}")
    for i in range(len(l)):
        p = dict(zip(keys, map(float, v[i])))
        rec.check(log_prior(shape, p) is not None, f"live-prior:{n}:{shape}:{ratio}", f"initial point {p} outside the prior")
        rec.close(l[i], log_like(shape, p, ratio), f"live-like:{n}:{shape}:{ratio}", 1e-12, 1e-12)
        rec.equal(np.array(t.transform(u[i]), dtype=float).tolist(), v[i].tolist(), f"live-unit:{n}:{shape}:{ratio}")


def moves(rec, shape, s, t):
    """dnest4 asks the model for moves: a move returns the log of the ratio of prior densities"""
    keys = list(s.search_parameter_keys)
    for p in points(shape, keys):
        if log_prior(shape, p) is None:
            continue
        for idx in range(len(keys)):
            for u in (.05, .3, .5, .7, .95):
                x = theta(keys, p)
                answers = iter([idx, u])

                class One(fakerng.FakeRNG):
                    def integers(self, *a, **k):
                        return idx

                    def uniform(self, *a, **k):
                        return np.array([u]) if k.get("size") is not None else u

                    random = uniform
                with fakerng.installed(One(lambda: u)):
                    ratio = float(t.model.perturb(x))
                q = dict(zip(keys, map(float, x)))
                key = f"move:{shape}:{'/'.join(f'{k}={p[k]}' for k in keys)}:{keys[idx]}:{u}"
                rec.case(key)
                for k in keys:
                    if k != keys[idx]:
                        rec.equal(q[k], p[k], key)
                if skipped_constraint(shape, q):
                    continue  # rejected by the likelihood
                if log_prior(shape, q) is None:
                    rec.check(ratio == -np.inf, key, f"{ratio} for a move out of the prior to {q}")
                else:
                    rec.close(ratio, log_prior(shape, q) - log_prior(shape, p), key, 1e-9, 1e-9)


def pooled(rec, item):
    n, shape, ratio = item

    def probe(s, t):
        keys = list(s.search_parameter_keys)
        ps = points(shape, keys)
        if shape == "beyond" and n == "dynesty":
            ps = [p for p in ps if log_prior(shape, p) is not None]
        rec.check(t.pool is not None and getattr(t.pool, "_processes", 0) == 2, f"pool:{n}:{shape}:{ratio}", "no pool of two processes")
        if t.pool is None:
            return
        a = evaluate(rec, n, shape, ratio, s, t, ps, f"serial:{n}:{shape}:{ratio}")
        b = evaluate(rec, n, shape, ratio, s, t, ps, f"pooled:{n}:{shape}:{ratio}", pool=True)
        c = evaluate(rec, n, shape, ratio, s, t, ps[::-1], f"pooled-reverse:{n}:{shape}:{ratio}", pool=True)
        if shape == "constraint":  # the normalisation of the worker processes is an estimate of their own
            a, b, c = [[(None, x[1], None) for x in y] for y in (a, b, c)]
        rec.case(f"pooled:{n}:{shape}:{ratio}")
        rec.equal(repr(a), repr(b), f"pool-same:{n}:{shape}:{ratio}")
        rec.equal(repr(a), repr(c[::-1]), f"pool-order:{n}:{shape}:{ratio}")
    start(n, shape, ratio, probe, npool=2)


def histories(rec, item):
    """all sequences of evaluations through the public methods and the recorded functions, up to the depth"""
    n, shape, depth = item

    def probe(s, t):
        keys = list(s.search_parameter_keys)
        ps = points(shape, keys)
        inside = [p for p in ps if log_prior(shape, p) is not None]
        out = [p for p in ps if log_prior(shape, p) is None]
        few = [inside[0], inside[len(inside) // 2], inside[-1]] + out[::max(1, len(out) // 3)][:3]
        ops = [("lib", p) for p in few if shape != "beyond" or p in inside or n in ("emcee", "zeus", "kombine", "ptemcee")]
        ops += [("like", p) for p in few[:2]] + [("prior", few[0]), ("prior", few[3]), ("draw", None), ("cube", None)]
        ref = {}
        for seq in itertools.product(range(len(ops)), repeat=depth):
            for i in seq:
                what, p = ops[i]
                if what == "lib":
                    if t.model is not None:
                        got = model(n, t.model, keys, p, s)
                    else:
                        got = t.both(t.fn(theta(keys, p)))
                elif what == "like":
                    got = float(s.log_likelihood(theta(keys, p)))
                elif what == "prior":
                    got = float(s.log_prior(theta(keys, p))) if n != "nessai" else float(s.log_prior(p))
                elif what == "cube":
                    got = list(map(float, s.prior_transform([.3] * len(keys))))
                else:
                    s.priors.sample()
                    got = None
                ref.setdefault(i, repr(got))
                rec.transition()
                rec.check(repr(got) == ref[i], f"history:{n}:{shape}:{what}", f"{[ops[j][0] for j in seq]} {p}: {got} {ref[i]}")
            rec.state((n, shape, seq))
        rec.case(f"history:{n}:{shape}:{depth}")
    start(n, shape, False, probe)


def pairs(rec, item):
    """two analyses one after the other in one process"""
    n, m, shape, other = item

    def first(s, t):
        keys = list(s.search_parameter_keys)
        if t.model is None:
            t.fn(theta(keys, [p for p in points(other, keys) if log_prior(other, p) is not None][0]))

    def probe(s, t):
        keys = list(s.search_parameter_keys)
        ps = points(shape, keys)
        if shape == "beyond":
            ps = [p for p in ps if log_prior(shape, p) is not None]
        evaluate(rec, n, shape, True, s, t, ps[::3], f"second:{n}:{shape}:after:{m}:{other}")
        rec.case(f"second:{n}:{shape}:after:{m}:{other}")
        rec.state((n, m, shape, other))
    start(m, other, False, first)
    start(n, shape, True, probe)


def public(rec, item):
    """the public functions of every sampler class"""
    n, shape, ratio = item
    with scratch() as d, listen():
        kw = dict(KW.get(n, {}))
        if n in SKIP_IMPORT:
            kw["skip_import_verification"] = True
        s = cls(n)(like(shape), priors(shape), outdir=d, label="l", use_ratio=ratio, **kw)
        keys = list(s.search_parameter_keys)
        const = Constant()
        for p in points(shape, keys):
            lp = log_prior(shape, p)
            key = f"public:{n}:{shape}:{ratio}:{'/'.join(f'{k}={p[k]}' for k in keys)}"
            rec.case(key)
            rec.state((n, shape, ratio, tuple(p.items())))
            q = s.log_prior(p) if n == "nessai" else s.log_prior(theta(keys, p))
            const.close(rec, shape, float(q), lp, key + ":prior")
            if lp is None and (shape == "beyond" or n == "pymc"):
                continue
            if n == "pymc":
                continue
            l = s.log_likelihood(theta(keys, p))
            l = float(l[0] if isinstance(l, tuple) else l)
            if skipped_constraint(shape, p):
                if not hasattr(s, "nwalkers_equiv_kwargs"):
                    rec.check(l <= BIG, key + ":like", f"{l} where the constraint is violated")
            else:
                rec.close(l, log_like(shape, p, ratio), key + ":like", 1e-12, 1e-12)
        if n not in ("pymc", "pypolychord", "nessai"):  # libraries which never ask for these
            answers = itertools.cycle(itertools.chain(*itertools.product((.15, .45, .85), repeat=len(keys))))
            with fakerng.installed(fakerng.FakeRNG(lambda: next(answers))):
                u, v, l = s.get_initial_points_from_prior(6)
            for i in range(6):
                p = dict(zip(keys, map(float, np.ravel(v[i]))))
                rec.check(log_prior(shape, p) is not None, f"initial:{n}:{shape}:{ratio}", f"{p}")
                x = np.ravel(l[i])[0]
                rec.close(float(x), log_like(shape, p, ratio), f"initial:{n}:{shape}:{ratio}", 1e-12, 1e-12)
                rec.equal(list(map(float, s.prior_transform(u[i]))), list(map(float, v[i])), f"initial:{n}:{shape}:{ratio}")
            for _ in range(4):
                p = dict(zip(keys, map(float, s.get_random_draw_from_prior())))
                rec.check(log_prior(shape, p) is not None, f"draw:{n}:{shape}:{ratio}", f"{p}")


def redundant(rec, item):
    n = item
    import bilby

    class Like(bilby.Likelihood):
        def __init__(self):
            super().__init__({})

        def log_likelihood(self):
            return 0.
    for extra in ("mass_1", "mass_ratio"):
        p = bilby.gw.prior.BBHPriorDict(dict(chirp_mass=bilby.core.prior.Uniform(20, 30), total_mass=bilby.core.prior.Uniform(50, 60), mass_1=bilby.core.prior.Uniform(20, 40)))
        if extra == "mass_ratio":
            p["mass_ratio"] = p.pop("mass_1")
            p["mass_ratio"] = bilby.core.prior.Uniform(.5, 1)
        rec.case(f"redundant:{n}:{extra}")
        rec.state((n, extra))
        with scratch() as d, listen():
            kw = dict(KW.get(n, {}))
            if n in SKIP_IMPORT:
                kw["skip_import_verification"] = True
            try:
                cls(n)(Like(), p, outdir=d, label="l", **kw)
                rec.fail(f"redundant:{n}", "redundant parameters are accepted")
            except bilby.core.sampler.base_sampler.IllegalSamplingSetError:
                pass


def groups(tier, seed):
    thorough = tier == "thorough"
    warm()
    for m in ("dynesty", "emcee", "zeus", "ptemcee"):  # slow imports, once
        try:
            importlib.import_module(m)
        except ImportError:
            pass
    have = [n for n in samplers() if n in RECORDED]
    three = SHAPES if thorough else ("fixed", "conditional", "constraint")
    pair_samplers = [n for n in have if n not in ("nessai", "cpnest", "dnest4")]
    near = ("emcee", "zeus", "kombine", "ptemcee", "dynesty")
    return [
        Group("target", [(n, h, r) for n in have for h in SHAPES for r in (False, True)], target, 200),
        Group("public", [(n, h, r) for n in samplers() for h in SHAPES for r in (False, True, None)], public, 200),
        Group("pooled", [(n, h, r) for n in WITH_POOL if n in have for h in SHAPES for r in (False, True)], pooled, 200),
        Group("histories", [(n, h, 4 if thorough and n != "nessai" else 3) for n in have for h in SHAPES], histories, 800 if thorough else 150),
        Group("pairs", [(n, m, a, b) for n in pair_samplers for m in (pair_samplers if thorough else [n] + [q for q in near if q != n and n in near]) for a in SHAPES for b in three if a != b or n != m], pairs, 800 if thorough else 150),
        Group("redundant", [n for n in samplers() if n != "pymc"], redundant, 60),
    ]
