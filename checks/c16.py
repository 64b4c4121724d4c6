"""C16: sampler settings are translated, never silently lost, altered or leaked."""
import copy
import inspect
import itertools
import logging
import os
import shutil
import tempfile
from contextlib import ExitStack
from unittest import mock
import numpy as np
from mc.core import Group

PROPERTY = "C16"
LEVEL = "model_checking"
RULE = ("names: sampler x native setting x every equivalent name (alone, with the native name, in pairs) x constructor or assignment; explicit: sampler x every setting; foreign: sampler x every "
        "name another sampler knows; histories: all sequences of builds up to the depth; passed: sampler x every setting x what reaches the sampling library; a case = one comparison")
TECHNIQUE = "exhaustive enumeration of settings, names and build histories of the real samplers, with the sampling libraries' entry points recorded"

POINTS = ("nlive", "nlives", "n_live_points", "npoints", "npoint", "Nlive", "num_live_points", "num_particles")
WALKS = ("walks", "steps", "nmcmc")
POOL = ("npool", "queue_size", "threads", "nthreads", "cores", "n_pool")
WALKERS = ("nwalker", "nwalkers", "draws", "Niter")
BURN = ("burn", "nburn")
SEED = ("sampling_seed", "seed", "random_seed")
# sampler -> native name -> (equivalent names, two values)
NAMES = {
    "dynesty": dict(nlive=(POINTS, 40, 55), walks=(WALKS, 7, 9), queue_size=(POOL, 2, 3), print_progress=(("verbose",), False, True), seed=(SEED, 5, 9)),
    "dynamic_dynesty": dict(nlive=(POINTS, 40, 55), walks=(WALKS, 7, 9), queue_size=(POOL, 2, 3), seed=(SEED, 5, 9)),
    "nestle": dict(npoints=(POINTS, 40, 55), steps=(WALKS, 7, 9)),
    "cpnest": dict(nlive=(POINTS, 40, 55), nthreads=(POOL, 2, 3), seed=(SEED, 5, 9)),
    "nessai": dict(nlive=(POINTS, 40, 55), n_pool=(POOL, 2, 3), seed=(SEED, 5, 9)),
    "ultranest": dict(num_live_points=(POINTS, 40, 55), show_status=(("verbose",), False, True)),
    "dnest4": dict(num_steps=(WALKS, 7, 9), num_particles=(POINTS, 40, 55), seed=(SEED, 5, 9)),
    "pymultinest": dict(n_live_points=(POINTS, 40, 55), seed=(SEED, 5, 9)),
    "pypolychord": dict(nlive=(tuple(p for p in POINTS if p != "nlives"), 40, 55), seed=(SEED, 5, 9)),
    "emcee": dict(nwalkers=(WALKERS, 12, 14), iterations=(("nsteps",), 30, 35)),
    "zeus": dict(nwalkers=(WALKERS, 12, 14), iterations=(("nsteps",), 30, 35), log_prob0=(("lnprob0",), .5, .25)),
    "kombine": dict(nwalkers=(WALKERS, 12, 14), iterations=(("nsteps",), 30, 35)),
    "ptemcee": dict(nwalkers=(WALKERS, 12, 14), threads=(POOL, 2, 3)),
    "ptmcmcsampler": dict(Niter=(WALKERS, 2000, 3000), burn=(BURN, 70, 90)),
    "pymc": dict(random_seed=(SEED, 5, 9)),
    "bilby_mcmc": dict(npool=(POOL, 2, 3), printdt=(("print_dt", "print_update"), 3., 4.), check_point_delta_t=(("check_point_deltaT",), 30., 40.)),
}
BASE = {"kombine": dict(nwalkers=12, iterations=40), "emcee": dict(nwalkers=12), "zeus": dict(nwalkers=12)}
SKIP_IMPORT = ("pymultinest", "pypolychord")
LIBRARY = {"pymultinest": "pymultinest", "pypolychord": "pypolychord", "ptmcmcsampler": "PTMCMCSampler", "dynamic_dynesty": "dynesty", "bilby_mcmc": "bilby"}
# settings which bilby documents to fill in or consume while a sampler is built (value given -> what is kept)
CONSUMED = {"nestle": {"verbose", "callback"}, "ultranest": {"log_dir"}, "dnest4": {"outputfiles_basename"}, "pymultinest": {"outputfiles_basename"}, "bilby_mcmc": {"target_nsamples"}}
_cache = {}


def samplers():
    import importlib.util
    return [n for n in NAMES if n in SKIP_IMPORT or importlib.util.find_spec(LIBRARY.get(n, n)) is not None]


def like():
    import bilby

    class Like(bilby.Likelihood):
        def __init__(self):
            super().__init__(dict(a=None, b=None))

        def log_likelihood(self):
            return -self.parameters["a"] ** 2

        def noise_log_likelihood(self):
            return -1.

    return Like()


def priors():
    import bilby
    return dict(a=bilby.core.prior.Uniform(0, 1, boundary="periodic"), b=bilby.core.prior.Uniform(0, 1))


class Log(logging.Handler):
    def __init__(self):
        super().__init__(logging.WARNING)
        self.lines = []

    def emit(self, record):
        self.lines.append(record.getMessage())


class listen:
    def __enter__(self):
        self.log, self.logger = Log(), logging.getLogger("bilby")
        self.level, self.handlers = self.logger.level, list(self.logger.handlers)
        for h in self.handlers:
            self.logger.removeHandler(h)
        self.logger.addHandler(self.log)
        self.logger.setLevel(logging.WARNING)
        return self.log

    def __exit__(self, *a):
        self.logger.removeHandler(self.log)
        for h in self.handlers:
            self.logger.addHandler(h)
        self.logger.setLevel(self.level)


def norm(x, d=""):
    if isinstance(x, dict):
        return {str(k): norm(v, d) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [type(x).__name__] + [norm(v, d) for v in x]
    if isinstance(x, np.random.Generator):
        return "rng " + repr(x.bit_generator.state["state"])
    if isinstance(x, np.ndarray):
        return ["array"] + x.tolist()
    if isinstance(x, (str, bool, int, float, type(None), np.generic)):
        return repr(x).replace(d, "DIR") if d else repr(x)
    return "object " + type(x).__name__


def cls(n):
    from bilby.core.sampler import get_sampler_class
    return get_sampler_class(n)


def build(n, d, kw, soft=True, base=True):
    extra = dict(BASE.get(n, {})) if base else {}
    for k in list(extra):
        if k in kw or any(e in kw for e in NAMES[n].get(k, ((),))[0]):
            extra.pop(k)
    extra.update(kw)
    if n in SKIP_IMPORT:
        extra["skip_import_verification"] = True
    return cls(n)(like(), priors(), outdir=d, label="l", soft_init=soft, **extra)


def seen(s, d):
    """what building a sampler settled"""
    out = {k: norm(v, d) for k, v in s.kwargs.items()}
    out["<npool>"] = repr(s.npool)
    for a in ("threads", "printdt", "check_point_delta_t", "nlive", "nwalkers", "draws"):
        try:
            out[f"<{a}>"] = norm(getattr(s, a))
        except Exception:  # attribute which needs an unset value
            pass
    return out


class scratch:
    def __enter__(self):
        self.d = tempfile.mkdtemp()
        self.old = os.getcwd()
        os.chdir(self.d)
        return self.d

    def __exit__(self, *a):
        os.chdir(self.old)
        shutil.rmtree(self.d, ignore_errors=True)


def made(n, kw, way="new"):
    """settings after building with kw; (settings, log, state of the generator)"""
    import bilby
    random = bilby.core.utils.random
    with scratch() as d, listen() as log:
        random.seed(12345)
        if way == "new":
            user = copy.deepcopy(kw)
            s = build(n, d, user)
        else:
            s = build(n, d, {})
            user = dict(BASE.get(n, {}), **kw) if not set(BASE.get(n, {})) & {k for k, v in NAMES[n].items() if k in kw or set(v[0]) & set(kw)} else dict(kw)
            keep = copy.deepcopy(user)
            random.seed(12345)
            s.kwargs = user
            if norm(user) != norm(keep):
                return ("changed the dictionary", norm(user), norm(keep)), [], None
        return seen(s, d), list(log.lines), float(random.rng.uniform())


def names(rec, item):
    n, native = item
    equivs, v, w = NAMES[n][native]
    ways = ("new", "set") if native not in ("threads", "npool") else ("new",)
    drop = (lambda o: {k: x for k, x in o.items() if k != "<npool>"} if isinstance(o, dict) else o) if n == "ptemcee" else (lambda o: o)
    for way in ways:
        ref = {x: made(n, {native: x}, way) for x in (v, w)}
        plain = made(n, {}, way)
        rec.case(f"native:{n}:{native}:{way}")
        rec.check(drop(ref[v][0]) != drop(plain[0]) or drop(ref[w][0]) != drop(plain[0]), f"native:{n}:{native}:{way}", "native setting has no effect")
        for e in equivs:
            if e == native:
                continue
            for x in (v, w):
                rec.case(f"equiv:{n}:{native}:{e}:{way}:{x}")
                got = made(n, {e: x}, way)
                rec.state((n, native, e, x, way))
                rec.transition()
                same(rec, drop(got[0]), drop(ref[x][0]), f"equiv:{n}:{native}:{e}:{way}:{x}")
                rec.equal(got[2], ref[x][2], f"equiv-seeds:{n}:{native}")
            for x, y in ((v, w), (w, v)):
                if native in ("threads", "npool"):
                    continue
                key = f"wins:{n}:{native}:{e}:{way}:{x}"
                rec.case(key)
                rec.state((n, native, e, x, y, way))
                for order in (((native, x), (e, y)), ((e, y), (native, x))):
                    got = made(n, dict(order), way)
                    same(rec, drop(got[0]), drop(ref[x][0]), key)
        for e, f in itertools.permutations([e for e in equivs if e != native], 2):
            rec.case(f"pair:{n}:{native}:{e}:{f}:{way}")
            got = made(n, {e: v, f: v}, way)
            rec.state((n, native, e, f, way))
            same(rec, drop(got[0]), drop(ref[v][0]), f"pair:{n}:{native}:{e}:{f}:{way}")
            got = made(n, {e: v, f: w}, way)
            rec.check(drop(got[0]) in (drop(ref[v][0]), drop(ref[w][0])), f"mixed:{n}:{native}:{e}:{f}:{way}", "two equivalent names with two values give neither")


def same(rec, got, want, key):
    if got == want:
        return
    if isinstance(got, dict) and isinstance(want, dict):
        bad = sorted(k for k in set(got) | set(want) if got.get(k) != want.get(k))
        return rec.fail(key, f"{[(k, got.get(k), want.get(k)) for k in bad][:4]}")
    rec.fail(key, f"{got} {want}")


def defaults(n):
    if n not in _cache:
        with scratch() as d, listen():
            s = build(n, d, {}, base=False) if n != "kombine" else build(n, d, {})
            _cache[n] = {k: v for k, v in copy.copy(dict(s.default_kwargs)).items()}
    return _cache[n]


OVERRIDE = {
    ("cpnest", "output"): "there/", ("ultranest", "log_dir"): "there/", ("dnest4", "outputfiles_basename"): "there/", ("pymultinest", "outputfiles_basename"): "there/", ("nessai", "output"): "there/",
    ("ultranest", "wrapped_params"): [1, 1], ("ultranest", "resume"): True, ("pymc", "step"): None, ("dnest4", "backend"): "csv", ("ptmcmcsampler", "p0"): [.1, .2], ("ptmcmcsampler", "outDir"): "there/",
    ("cpnest", "proposals"): None, ("ptmcmcsampler", "custom_proposals"): None, ("kombine", "nwalkers"): 15, ("kombine", "iterations"): 55, ("nessai", "config_file"): None, ("dynesty", "pool"): None,
    ("dynesty", "print_func"): print, ("dynamic_dynesty", "print_func"): print, ("dynesty", "sample"): "rslice", ("dynesty", "bound"): "multi", ("dynamic_dynesty", "sample"): "unif",
    ("dynamic_dynesty", "bound"): "multi", ("dynesty", "periodic"): [1], ("dynesty", "reflective"): [1], ("dynamic_dynesty", "periodic"): [1], ("dynamic_dynesty", "reflective"): [1],
    ("dynesty", "logl_max"): 5., ("dynamic_dynesty", "logl_max"): 5., ("pypolychord", "seed"): 5, ("pymultinest", "seed"): 5, ("nestle", "callback"): print, ("ultranest", "viz_callback"): print,
}


def other(n, k, x):
    if (n, k) in OVERRIDE:
        return OVERRIDE[n, k]
    if isinstance(x, bool):
        return not x
    if isinstance(x, int):
        return x + 3
    if isinstance(x, float):
        return x * 1.25 if x else .5
    if isinstance(x, str):
        return x + "x"
    if isinstance(x, list):
        return [1, 2]
    if isinstance(x, dict):
        return dict(q=1, deep=[1, dict(z=2)])
    return 17


def named(n):
    out = set()
    for c in cls(n).__mro__:
        if "__init__" in vars(c):
            out |= set(inspect.signature(c.__init__).parameters)
    return out


def explicit(rec, item):
    """every setting given explicitly is kept and changes nothing else"""
    n, k = item
    x = defaults(n)[k]
    v = other(n, k, x)
    if v is None or k in named(n):
        return
    for way in ("new", "set") if n != "bilby_mcmc" and not (n == "kombine" and k in BASE[n]) else ("new",):
        plain, _, _ = made(n, {}, way)
        if k in CONSUMED.get(n, ()) and way == "set":
            continue
        kw = {k: v}
        keep = norm(kw)
        rec.case(f"explicit:{n}:{k}:{way}")
        rec.state((n, k, way))
        rec.transition()
        got, log, _ = made(n, kw, way)
        rec.equal(norm(kw), keep, f"explicit-mutates:{n}:{k}:{way}")
        if k in CONSUMED.get(n, ()):
            continue
        if not isinstance(got, dict):
            rec.fail(f"explicit:{n}:{k}:{way}", str(got))
            continue
        want = dict(plain)
        want[k] = norm(v)
        if k in ("seed", "random_seed") and "rstate" in want:
            want["rstate"] = got["rstate"]
        if (n, k) == ("bilby_mcmc", "nsamples"):
            want["target_nsamples"] = norm(v)
        if (n, k) == ("cpnest", "resume"):
            want["n_periodic_checkpoint"] = "None"
        if (n, k) == ("nessai", "config_file"):
            continue
        drop = {"<nlive>", "<nwalkers>", "<draws>", "<npool>", "<printdt>", "<check_point_delta_t>", "<threads>"}
        for m in drop:
            want.pop(m, None)
        if (n, k) == ("ultranest", "resume"):
            rec.check(got[k] != repr("overwrite"), f"explicit:{n}:{k}:{way}", "an explicit resume=True is turned into overwriting")
            continue
        same(rec, {a: b for a, b in got.items() if a not in drop}, want, f"explicit:{n}:{k}:{way}")
        rec.check(not any("removing" in t and f"'{k}'" in t for t in log), f"explicit-warned:{n}:{k}:{way}", "a known setting is reported as unknown")


def foreign(rec, item):
    n, ks = item
    plain, _, _ = made(n, {})
    for k in ks:
        for v in (17,):
            rec.case(f"foreign:{n}:{k}")
            rec.state((n, k))
            rec.transition()
            try:
                got, log, _ = made(n, {k: v})
            except Exception as e:
                rec.fail(f"foreign:{n}:{k}", f"{type(e).__name__}: {e}")
                continue
            same(rec, got, plain, f"foreign:{n}:{k}")
            rec.check(any(k in t for t in log), f"foreign-reported:{n}:{k}", "an unknown setting is dropped without a report")


def foreign_items():
    everything = set(TYPOS)
    for n in samplers():
        everything |= set(defaults(n))
    everything |= set(POINTS) | set(WALKS) | set(POOL) | set(WALKERS) | set(BURN) | set(SEED) | {"verbose", "nsteps", "rstate0", "lnprob0", "print_dt", "check_point_deltaT"}
    out = []
    for n in samplers():
        known = set(defaults(n)) | named(n) | {e for q in NAMES[n].values() for e in q[0]} | set(NAMES[n]) | ALSO.get(n, set())
        ks = sorted(everything - known)
        out += [(n, ks[i:i + 25]) for i in range(0, len(ks), 25)]
    return out


TYPOS = ("n_live", "nlives_", "Nwalkers", "Walks", "Seed", "dlogZ", "unknown", "kwarg", "self_", "NPOOL")
# accepted in addition: documented conveniences
ALSO = {"dynesty": {"verbose"}, "dynamic_dynesty": {"verbose"}, "zeus": {"rstate0", "progress"}, "emcee": {"verbose"}, "nessai": {"config_file"}, "kombine": {"verbose", "lnprop0"},
        "bilby_mcmc": {"target_nsamples"}}
ALSO["zeus"].add("verbose")
MUTABLE = {"emcee": ("args", "kwargs"), "zeus": ("args", "kwargs"), "kombine": ("args",), "ptmcmcsampler": ("loglargs", "loglkwargs", "logpargs", "logpkwargs"), "ultranest": ("derived_param_names",)}


def touch(s, n):
    """what a run does to the settings of its own sampler"""
    for k in MUTABLE.get(n, ()):
        if isinstance(s.kwargs[k], list):
            s.kwargs[k].append("leak")
        else:
            s.kwargs[k]["leak"] = 1
    for k in list(s.kwargs)[:5]:
        if k not in MUTABLE.get(n, ()):
            s.kwargs[k] = "leak"


def histories(rec, item):
    """all sequences of builds: (sampler, settings) then the last with defaults equals one built first"""
    seq = item
    key = "history:" + ">".join(f"{n}/{i}" for n, i in seq)
    rec.case(key)
    with scratch() as d, listen():
        for n, i in seq[:-1]:
            kw = {}
            if i:
                kw = {k: copy.deepcopy(other(n, k, x)) for k, x in list(defaults(n).items())[i - 1::2] if k not in named(n) and (n, k) not in OVERRIDE and isinstance(x, (int, float, list, dict))}
                kw.pop("npool", None)
                if n == "kombine":
                    kw.pop("iterations", None), kw.pop("nwalkers", None)
            keep = copy.deepcopy(kw)
            s = build(n, d, kw)
            rec.equal(norm(kw), norm(keep), key + ":user")
            if not i:
                touch(s, n)
            rec.transition()
        n, _ = seq[-1]
        got = seen(build(n, d, {}), d)
    rec.state(seq)
    if n not in _fresh:
        return
    same(rec, got, _fresh[n], key)


_fresh = {}


def fresh():
    """settings of samplers built first, one process per sampler so that nothing was built before"""
    import multiprocessing
    for n in samplers():
        parent, child = multiprocessing.Pipe()

        def work():
            with scratch() as d, listen():
                child.send(seen(build(n, d, {}), d))
            child.close()
        p = multiprocessing.get_context("fork").Process(target=work)
        p.start()
        _fresh[n] = parent.recv()
        p.join()


# ---------------------------------------------------------------- what reaches the libraries
class Reached(Exception):
    pass


REC = {}


def note(stage, a, k):
    REC.setdefault(stage, {}).update(k)
    REC[stage].update({f"arg{i}": x for i, x in enumerate(a)})


def recorder(base):
    """a stand-in for a sampler class of a library"""
    class Stand(base):
        def __init__(self, *a, **k):
            note("init", a, k)

        def run(self, *a, **k):
            note("run", a, k)
            raise Reached

        sample = run_nested = run
    if base is not object:
        Stand.__init__.__signature__ = inspect.signature(base.__init__)
    return Stand


def function(real):
    def f(*a, **k):
        note("run", a, k)
        raise Reached
    f.__signature__ = inspect.signature(real)
    return f


def nested(real):
    stand = recorder(object)

    def f(*a, **k):
        s = stand(*a, **k)
        s.it = 0
        return s
    f.__signature__ = inspect.signature(real)
    return f


TARGETS = {
    "nestle": [("nestle", "sample", function)], "emcee": [("emcee", "EnsembleSampler", lambda c: recorder(object))], "zeus": [("zeus", "EnsembleSampler", lambda c: recorder(object))],
    "kombine": [("kombine", "Sampler", lambda c: recorder(object))], "ptmcmcsampler": [("PTMCMCSampler.PTMCMCSampler", "PTSampler", lambda c: recorder(object))],
    "ultranest": [("ultranest.integrator", "NestedSampler", lambda c: recorder(object)), ("ultranest.integrator", "ReactiveNestedSampler", lambda c: recorder(object))],
    "cpnest": [("cpnest", "CPNest", lambda c: recorder(object))], "dnest4": [("dnest4", "DNest4Sampler", lambda c: recorder(object))],
    "nessai": [("nessai.flowsampler", "FlowSampler", recorder)], "dynesty": [("dynesty", "NestedSampler", nested)], "ptemcee": [("ptemcee", "Sampler", lambda c: recorder(object))],
}


def capture(n, kw):
    import importlib
    REC.clear()
    extra = dict(kw)
    if n in ("ultranest", "dnest4"):
        extra["temporary_directory"] = False
    if n == "dynesty":
        extra["check_point"] = False
    with scratch() as d, listen(), ExitStack() as st:
        for module, name, make in TARGETS[n]:
            m = importlib.import_module(module)
            st.enter_context(mock.patch.object(m, name, make(getattr(m, name))))
        s = build(n, d, extra)
        try:
            s.run_sampler()
        except Reached:
            pass
        out = {f"{stage}.{k}": norm(x, d) for stage, v in REC.items() for k, x in v.items() if k not in ("live_points",) and not norm(x).__class__ is str or not str(norm(x)).startswith("object")}
    out.pop("init.live_points", None)
    return out


# settings which bilby itself uses, or which the chosen mode of the library does not take: name -> None; renamed or special: name -> external name
ELSEWHERE = {
    "nestle": {"verbose": None, "callback": None},
    "emcee": {"pool": None, "lnprob0": "run.log_prob0", "storechain": "run.store", "mh_proposal": None},
    "zeus": {"pool": None, "start": "object"},
    "kombine": {"pool": None, "test_steps": None, "critical_pval": None, "max_steps": None, "burnin_verbose": None},
    "ptmcmcsampler": {"custom_proposals": None},
    "ultranest": {"num_live_points": None, "log_dir": "init.log_dir", "update_interval_iter": None, "step_sampler": None, "viz_callback": None, "resume": "init.resume"},
    "cpnest": {"proposals": None, "resume": None},
    "dnest4": {"max_num_levels": "run.arg0", "thread_steps": None, "verbose": None, "outputfiles_basename": None, "backend": None},
    "nessai": {"nessai_log_level": None, "nessai_logging_stream": None, "nessai_plot": "run.plot", "config_file": None, "result_extension": None},
    "dynesty": {"pool": None, "seed": "init.rstate", "live_points": None, "print_func": None, "rstate": None, "queue_size": None, "sample": "init.sample", "use_pool": None},
    "ptemcee": {"pool": None},
}


def passed(rec, item):
    n, ks = item
    plain = capture(n, {})
    rec.check(len(plain) > 3, f"passed:{n}", "the library was not reached")
    for k in ks:
        x = defaults(n)[k]
        v = other(n, k, x)
        where = ELSEWHERE[n].get(k, "")
        if v is None or where is None or k in named(n) - {"log_dir"}:
            continue
        key = f"passed:{n}:{k}"
        rec.case(key)
        rec.state((n, k))
        rec.trace()
        if (n, k) == ("zeus", "start"):
            v = np.full((12, 2), .25)
        try:
            got = capture(n, {k: v})
        except Exception as e:
            rec.fail(key, f"{type(e).__name__}: {e}")
            continue
        diff = sorted(a for a in set(got) | set(plain) if got.get(a) != plain.get(a))
        if (n, k) == ("ultranest", "resume"):
            rec.check(got["init.resume"] in ("True", repr("resume"), repr("resume-similar")), key, got["init.resume"])
            continue
        if (n, k) == ("zeus", "start"):
            rec.equal(got.get("run.start"), norm(v), key)
            continue
        if (n, k) == ("dynesty", "seed"):
            rec.equal(got["init.rstate"], norm(np.random.default_rng(v)), key)
            continue
        diff = [a for a in diff if (n, a) != ("ptemcee", "run.arg0") and a not in ("run.start", "run.initial_state", "run.p0", "init.rstate") or a == f"run.{k}"]
        if (n, k) == ("dynesty", "sample"):
            diff = [a for a in diff if a != "init.bound"]  # the bound must suit the method
        names_ = (where,) if where else (f"init.{k}", f"run.{k}")
        rec.check(bool(diff) and all(a in names_ for a in diff), key, f"{[(a, plain.get(a), got.get(a)) for a in diff][:4]}")
        for a in diff:
            want = norm(v)
            rec.check(str(got.get(a)).replace("DIR/", "") == str(want), key + ":value", f"{a}: {got.get(a)} {want}")


def groups(tier, seed):
    thorough = tier == "thorough"
    fresh()
    with listen():
        todo = [(n, k) for n in samplers() for k in defaults(n)]
    hist_samplers = [n for n in samplers() if n not in ("pymc", "nessai", "dynamic_dynesty")]
    nodes = [(n, i) for n in hist_samplers for i in (0, 1, 2)]
    hist = [(a, (b, 0)) for a in nodes for b in hist_samplers]
    related = ("emcee", "zeus", "kombine", "ptemcee", "ptmcmcsampler", "ultranest")
    hist += [((a, i), (b, j), (c, 0)) for a in (hist_samplers if thorough else related) for b in (hist_samplers if thorough else related) for c in (hist_samplers if thorough else related)
             for i in ((0, 1, 2) if thorough else (1,)) for j in ((0, 1, 2) if thorough else (1,))]
    hist += [((n, 1), (n, 0)) for n in ("nessai", "dynamic_dynesty", "pymc") if n in samplers()]
    out = {}
    for n in TARGETS:
        if n in samplers():
            ks = list(defaults(n))
            out[n] = [(n, ks[i:i + 12]) for i in range(0, len(ks), 12)]
    return [
        Group("names", [(n, k) for n in samplers() for k in NAMES[n]], names, 200),
        Group("explicit", todo, explicit, 200),
        Group("foreign", foreign_items(), foreign, 200),
        Group("histories", hist, histories, 600 if thorough else 100),
        Group("passed", [q for n in out for q in out[n]], passed, 200),
    ]
