"""C10: a finished result is reused exactly when it matches the request, and holds the same content however it was obtained."""
import itertools
import os
import shutil
import tempfile
import numpy as np
from mc.core import Group

PROPERTY = "C10"
LEVEL = "model_checking"
RULE = ("histories: all sequences up to the depth over runs of one label: settings (prior, sampled, fixed, fixed value, likelihood description) x file format x clean start, a "
        "run that fails, against a model of what is stored; flags: command line flags x clean argument x match; stages: a failure at every stage, then a rerun; "
        "ways: how the sampler, the priors and the ratio are given; samplers: real samplers rerun; gw: likelihoods of gravitational-wave data; a case = one run")
TECHNIQUE = "exhaustive enumeration of histories of runs of the real entry point against a reference model of the stored results"
FORMATS = (True, "hdf5", "pkl", "gz", False)
STATE = dict(runs=0, fail=None)
SETTINGS = ("base", "prior", "names", "fixed", "value", "like")


def classes():
    import bilby
    from bilby.core.sampler.base_sampler import Sampler

    class Like(bilby.core.likelihood.Likelihood):
        def __init__(self, note=1, names=("a", "b", "c")):
            super().__init__(parameters={k: None for k in names})
            self._meta = dict(note=note, table=np.arange(3.) * note, nested=dict(flag=True, none=None, text="t"))

        @property
        def meta_data(self):
            return self._meta

        def log_likelihood(self):
            return -sum(float(v) ** 2 for v in self.parameters.values())

        def noise_log_likelihood(self):
            return -7.5

    class Toy(Sampler):
        sampler_name = "toy"
        default_kwargs = dict(number=4, resume=True)

        def __init__(self, likelihood, priors, outdir="outdir", label="label", **kwargs):
            super().__init__(likelihood=likelihood, priors=priors, outdir=outdir, label=label, skip_import_verification=True, **kwargs)

        def run_sampler(self):
            STATE["runs"] += 1
            if STATE["fail"] == "sampling":
                raise RuntimeError("stop here")
            k = STATE["runs"]
            n = self.kwargs["number"]
            s = np.array([[.1 + .2 * i + .03 * j + .001 * k for j in range(self.ndim)] for i in range(n)])
            self.result.samples = s
            self.result.nested_samples = None
            self.result.log_likelihood_evaluations = np.array([self.log_likelihood(t) for t in s])
            self.result.log_evidence = -3. - k
            self.result.log_evidence_err = .125
            self.result.num_likelihood_evaluations = 50 + k
            return self.result
    for c in (Like, Toy):
        c.__qualname__, c.__module__ = c.__name__, __name__
        globals()[c.__name__] = c
    return Like, Toy


def conv(data, likelihood=None, priors=None):
    """not idempotent: counts how often it was applied"""
    if STATE["fail"] == ("injection" if isinstance(data, dict) else "posterior"):
        raise RuntimeError("stop here")
    out = data.copy()
    out["applied"] = out["applied"] + 1 if "applied" in out else 1.
    out["sum"] = out["a"] + (out["b"] if "b" in out else 0.)
    return out


def problem(s):
    """likelihood, priors"""
    import bilby
    u = bilby.core.prior.Uniform
    names = ("a", "d", "c") if s == "names" else ("a", "b", "c")
    like = Like(2 if s == "like" else 1, names)
    p = dict(a=u(0, 3 if s == "prior" else 2, "a"), b=u(0, 2, "b"), c=.75 if s == "value" else .5)
    if s == "names":
        p["d"] = p.pop("b")
    if s == "fixed":
        p["b"] = .25
    return like, p


INJ = dict(a=.3, b=.4, c=.5)


def run(d, s="base", save=True, clean=None, **kw):
    import bilby
    like, p = problem(s)
    kw.setdefault("sampler", Toy)
    kw.setdefault("injection_parameters", dict(INJ))
    kw.setdefault("conversion_function", conv)
    kw.setdefault("use_ratio", False)
    meta = kw.pop("meta_data", dict(mine=[1, 2]))
    before = repr(meta)
    r = bilby.run_sampler(likelihood=kw.pop("likelihood", like), priors=kw.pop("priors", p), label="lab", outdir=d, save=True if save == "gz" else save, gzip=save == "gz", clean=clean,
                          meta_data=meta, **kw)
    return r, repr(meta) == before


def stored(r, what):
    try:
        return np.array(getattr(r, what)).tolist()
    except ValueError:
        return None


def text(c):
    import json
    return json.dumps(c, sort_keys=True, default=lambda x: x.tolist())


def seconds(t):
    """documented as a number or a timedelta"""
    return round(t.total_seconds() if hasattr(t, "total_seconds") else float(t), 6)


def content(r):
    p = r.posterior
    return dict(posterior={k: p[k].to_numpy().tolist() for k in sorted(p.columns)}, injection=r.injection_parameters, logz=r.log_evidence, bayes=r.log_bayes_factor, noise=r.log_noise_evidence,
                err=r.log_evidence_err, search=list(r.search_parameter_keys), fixed=list(r.fixed_parameter_keys), label=r.label, samples=np.array(r.samples).tolist(),
                like=stored(r, "log_likelihood_evaluations"), mine=list(r.meta_data["mine"]), priors={k: repr(v) for k, v in r.priors.items()}, time=seconds(r.sampling_time),
                note=r.meta_data["likelihood"]["note"], sampler=r.sampler, n=float(stored(r, "num_likelihood_evaluations") or 0))


def once(r, s):
    """conversion applied exactly once to both, posterior complete and consistent with its model"""
    p = r.posterior
    ok = r.injection_parameters["applied"] == 1 and abs(r.injection_parameters["sum"] - .7) < 1e-12 and (p["applied"] == 1).all()
    second = "d" if s == "names" else "b"
    if s == "names":
        ok = ok and np.allclose(p["sum"], p["a"])
    else:
        ok = ok and np.allclose(p["sum"], p["a"] + p["b"])
    c = .75 if s == "value" else .5
    ok = ok and (p["c"] == c).all() and (s != "fixed" or (p["b"] == .25).all())
    ok = ok and np.allclose(p["log_likelihood"], -(p["a"] ** 2 + p[second] ** 2 + c ** 2))
    dens = -np.log(3 if s == "prior" else 2) - (0 if s == "fixed" else np.log(2))
    return ok and np.allclose(p["log_prior"], dens)


def name(fmt):
    return {True: "lab_result.json", "hdf5": "lab_result.hdf5", "pkl": "lab_result.pkl", "gz": "lab_result.json.gz"}[fmt]


def history(rec, item):
    """item: sequence of (settings, save, clean) or ("fail",)"""
    import bilby
    d = tempfile.mkdtemp(prefix="c10_")
    stored, contents = {}, {}
    try:
        for i, op in enumerate(item):
            key = f"history|{'>'.join('/'.join(map(str, o)) for o in item[:i + 1])}"
            rec.case(key)
            rec.transition()
            STATE["fail"] = None
            if op[0] == "fail":
                STATE["fail"] = "sampling"
                runs = STATE["runs"]
                try:
                    run(d, "base", True, True)
                    rec.fail(key, "the failure of the sampler was not reported")
                except RuntimeError:
                    pass
                rec.equal(STATE["runs"], runs + 1, key + "|runs")
                rec.equal(sorted(f for f in os.listdir(d) if f in [name(x) for x in stored]), sorted(name(x) for x in stored), key + "|files kept")
                continue
            s, save, clean = op
            runs = STATE["runs"]
            r, same = run(d, s, save, clean)
            fresh = STATE["runs"] - runs
            matching = {v[1] for v in stored.values() if v[0] == s} if not clean else set()
            rec.equal(fresh, 0 if matching else 1, key + "|sampled afresh")
            rec.check(same, key + "|meta data of the caller", "the dictionary given as meta_data was changed")
            got = content(r)
            if fresh:
                contents[STATE["runs"]] = got
                k = STATE["runs"]
            else:
                k = next((k for k in matching if contents[k] == got), None)
                rec.check(k is not None, key + "|content", f"the reused result differs from what was stored: {got} vs {[contents[m] for m in matching]}")
                k = k or next(iter(matching), None)
            rec.check(once(r, s), key + "|stages", f"conversion or posterior wrong: {r.injection_parameters} {r.posterior.iloc[0].to_dict()}")
            if save:
                stored[save] = (s, k)
                f = bilby.core.result.read_in_result(os.path.join(d, name(save)))
                rec.check(content(f) == got, key + "|file", f"the file differs from the returned result: {content(f)} vs {got}")
            rec.equal(sorted(x for x in os.listdir(d) if not x.endswith(".old")), sorted(name(x) for x in stored), key + "|files")
            for x, (s0, k0) in stored.items():
                if x != save and k0 is not None:
                    f = bilby.core.result.read_in_result(os.path.join(d, name(x)))
                    rec.check(content(f) == contents[k0], key + f"|other file {x}", "a stored result of another format was changed")
            rec.state((tuple(sorted((str(a), b[0]) for a, b in stored.items())), s))
            rec.outcome("fresh" if fresh else "reused")
        rec.trace()
    finally:
        STATE["fail"] = None
        shutil.rmtree(d)


def flags(rec, item):
    import bilby
    g, u, clean, s = item
    key = f"flags|clean={g} cached={u} argument={clean} then={s}"
    args = bilby.core.utils.command_line_args
    old = args.clean, args.use_cached
    d = tempfile.mkdtemp(prefix="c10_")
    try:
        run(d)
        runs = STATE["runs"]
        args.clean, args.use_cached = g, u
        rec.case(key)
        r, _ = run(d, s, clean=clean)
        wanted = g if clean is None else clean
        reuse = not wanted and (u or s == "base")
        rec.equal(STATE["runs"] - runs, 0 if reuse else 1, key)
        rec.equal((args.clean, args.use_cached), (g, u), key + "|flags left")
        rec.check(once(r, "base" if reuse else s), key + "|stages")
        rec.outcome("reused" if reuse else "fresh")
        # what one call asked for has no effect on the next
        args.clean, args.use_cached = old
        runs = STATE["runs"]
        run(d, s if not reuse else "base", clean=None)
        rec.equal(STATE["runs"] - runs, 0, key + "|next call")
    finally:
        args.clean, args.use_cached = old
        shutil.rmtree(d)


def stages(rec, item):
    """a failure in one stage, then the same call again (twice)"""
    stage, save, s = item
    key = f"stages|{stage} save={save} {s}"
    d = tempfile.mkdtemp(prefix="c10_")
    try:
        STATE["fail"] = stage
        runs = STATE["runs"]
        rec.case(key)
        try:
            run(d, s, save)
            rec.fail(key, "the failure was not reported")
        except RuntimeError:
            pass
        STATE["fail"] = None
        rec.equal(STATE["runs"] - runs, 1, key + "|sampled")
        runs = STATE["runs"]
        r, _ = run(d, s, save)
        a = content(r)
        rec.equal(STATE["runs"] - runs, 0 if save and stage == "posterior" else 1 if stage == "sampling" or not save else STATE["runs"] - runs, key + "|rerun")
        rec.check(once(r, s), key + "|stages", f"{r.injection_parameters} {r.posterior.iloc[0].to_dict()}")
        runs = STATE["runs"]
        r, _ = run(d, s, save)
        rec.equal(STATE["runs"] - runs, 0 if save else 1, key + "|third")
        rec.check(once(r, s), key + "|third stages", f"{r.injection_parameters} {r.posterior.iloc[0].to_dict()}")
        if save:
            rec.check(content(r) == a, key + "|third content")
        rec.trace()
    finally:
        STATE["fail"] = None
        shutil.rmtree(d)


def ways(rec, item):
    """how the sampler, priors, ratio, conversion and result class are given"""
    import bilby
    sampler, priors, ratio, cf, cls, inj, save = item
    key = f"ways|sampler={sampler} priors={priors} ratio={ratio} conversion={cf} class={cls} injection={inj} save={save}"
    d = tempfile.mkdtemp(prefix="c10_")
    R = bilby.core.result.Result

    def go():
        like, p = problem("base")
        if priors == "PriorDict":
            p = bilby.core.prior.PriorDict(p)
        if priors == "Conditional":
            p = bilby.core.prior.ConditionalPriorDict(p)
        kw = dict(conversion_function=dict(none=None, plain=conv, pool=conv_pool)[cf], likelihood=like, priors=p, use_ratio=ratio, injection_parameters=dict(INJ) if inj else None,
                  result_class=Derived if cls else None)
        if sampler == "class":
            kw["sampler"] = Toy
        else:
            meta = dict(mine=[1, 2], likelihood=like.meta_data)
            kw["sampler"] = Toy(like, p, outdir=d, label="lab", use_ratio=ratio, injection_parameters=kw["injection_parameters"], meta_data=meta, result_class=kw["result_class"])
        return run(d, save=save, **kw)[0]

    class Derived(R):
        pass
    Derived.__module__, Derived.__qualname__ = __name__, "Derived"
    globals()["Derived"] = Derived
    try:
        rec.case(key)
        a = go()
        runs = STATE["runs"]
        b = go()
        rec.equal(STATE["runs"] - runs, 0, key + "|reused")
        rec.check(text(content(a)) == text(content(b)), key + "|content", f"{content(a)} vs {content(b)}")
        rec.check(a.use_ratio == b.use_ratio, key + "|use_ratio")
        for r, w in ((a, "fresh"), (b, "reused")):
            rec.equal(type(r).__name__, "Derived" if cls else "Result", key + f"|{w} class")
            rec.equal(r.log_noise_evidence, -7.5, key + f"|{w} noise")
            rec.close(r.log_bayes_factor, r.log_evidence + 7.5, key + f"|{w} bayes factor", 0, 1e-12)
            rec.equal(r.injection_parameters, None if not inj else dict(INJ, applied=1., sum=.7) if cf != "none" else INJ, key + f"|{w} injection")
            cols = {"a", "b", "c", "log_likelihood", "log_prior"} | ({"applied", "sum"} if cf != "none" else set())
            rec.equal(set(r.posterior.columns), cols, key + f"|{w} columns")
            # the toy sampler's own number is the evidence (ratio) it found
            x = -3. - runs
            rec.close(r.log_bayes_factor if a.use_ratio else r.log_evidence, x, key + f"|{w} evidence", 0, 1e-12)
        rec.equal(bool(a.use_ratio), bool(ratio), key + "|ratio as asked") if ratio is not None else None
    finally:
        shutil.rmtree(d)


def conv_pool(data, likelihood=None, priors=None, npool=None):
    if not isinstance(data, dict) and npool is None:
        raise ValueError("number of processes not given")
    return conv(data)


def samplers(rec, item):
    import bilby
    smp, kw, save = item
    key = f"samplers|{smp} save={save}"
    d = tempfile.mkdtemp(prefix="c10_")
    try:
        rec.case(key)
        with rec.guard(key):
            np.random.seed(3)
            bilby.core.utils.random.seed(3)
            a, _ = run(d, save=save, sampler=smp, **kw)
            before = sorted(os.listdir(d))
            b, _ = run(d, save=save, sampler=smp, **kw)
            rec.check(text(content(a)) == text(content(b)), key, f"{str(content(a))[:300]} vs {str(content(b))[:300]}")
            rec.equal(sorted(os.listdir(d)), before, key + "|files")
            c, _ = run(d, "prior", save=save, sampler=smp, clean=True, **kw)
            rec.check(len(c.posterior) > 0 and not np.array_equal(np.array(c.samples), np.array(a.samples)), key + "|clean start")
            e, _ = run(d, "prior", save=save, sampler=smp, **kw)
            rec.check(text(content(c)) == text(content(e)), key + "|after clean start")
    finally:
        shutil.rmtree(d)


def plain_conversion(parameters):
    return parameters, []


def gw(rec, item):
    import bilby
    from mc import gwref as g
    marg, save, change = item
    key = f"gw|{marg} save={save} change={change}"
    d = tempfile.mkdtemp(prefix="c10_")
    u = bilby.core.prior.Uniform

    def go(change=None, **kw):
        ifos = bilby.gw.detector.InterferometerList([g.detector(n, g.C) for n in (("H1", "V1") if change == "network" else ("H1", "L1"))])
        fix = {k: v for k, v in g.C.items() if k not in ("amp", "phase", "slope")}
        p = bilby.gw.prior.PriorDict(dict(amp=u(.5, 2., "amp"), slope=u(-1, 1, "slope"), phase=u(0, 2 * np.pi, "phase", boundary="periodic"), **fix))
        gen = g.generator(parameter_conversion=plain_conversion, waveform_arguments=dict(reference_frequency=21. if change == "waveform" else 20., deep=dict(table=np.arange(3.), t=(1, 2))))
        like = bilby.gw.likelihood.GravitationalWaveTransient(ifos, gen, priors=p, phase_marginalization=marg != (change == "marginalisation"))
        return run(d, likelihood=like, priors=p, save=save, injection_parameters=None, conversion_function=None, **kw)[0]

    def whole(r):
        return dict(p={k: r.posterior[k].tolist() for k in sorted(r.posterior)}, z=(r.log_evidence, r.log_noise_evidence, r.log_bayes_factor), n=r.num_likelihood_evaluations)
    try:
        rec.case(key)
        a = go()
        runs = STATE["runs"]
        b = go()
        rec.equal(STATE["runs"] - runs, 0, key + "|reused")
        rec.check(whole(a) == whole(b), key + "|content")
        if change:
            runs = STATE["runs"]
            go(change)
            rec.equal(STATE["runs"] - runs, 1, key + "|changed")
            go(change)
            rec.equal(STATE["runs"] - runs, 1, key + "|changed again")
    finally:
        shutil.rmtree(d)


def remember_commands():
    """the list of installed packages does not change between runs: ask once per process"""
    import subprocess
    original, known = subprocess.check_output, {}

    def check_output(*args, **kw):
        k = repr((args, sorted(kw.items())))
        if k not in known:
            known[k] = original(*args, **kw)
        return known[k]
    subprocess.check_output = check_output


def groups(tier, seed):
    import bilby
    remember_commands()
    bilby.core.utils.logger.setLevel("CRITICAL")
    classes()
    deep = tier == "thorough"
    H = [[("base", f, None), (s, h, c)] for f in FORMATS for s in SETTINGS for h, c in (((f, None), (f, True), (f, False)) if s in ("base", "prior") else ((f, None),))]
    H += [[(a, True, None), (b, True, None)] for a in SETTINGS[1:] for b in SETTINGS]
    H += [[("base", a, None), (s, b, None)] for a in FORMATS for b in FORMATS for s in ("base", "like") if a != b]
    ops = [("base", True, None), ("prior", True, None), ("base", "hdf5", True), ("like", "pkl", None), ("fail",)]
    H += [list(x) for x in itertools.product(ops, repeat=3)]
    if deep:
        ops += [("base", "gz", False), ("fixed", "hdf5", None), ("prior", "pkl", None)]
        H += [list(x) for x in itertools.product(ops, repeat=4)]
    seen, hh = set(), []
    for h in H:
        if str(h) not in seen:
            seen.add(str(h))
            hh.append(h)
    F = list(itertools.product((False, True), (False, True), (None, False, True), SETTINGS if deep else ("base", "prior", "like")))
    S = list(itertools.product(("sampling", "injection", "posterior"), FORMATS, ("base", "fixed")))
    W = list(itertools.product(("class", "instance"), ("dict", "PriorDict", "Conditional"), (None, False, True), ("none", "plain", "pool"), (False, True), (False, True), (True,)))
    W = [w for w in W if deep or (w[3] != "pool" or w[4] == w[5])]
    W += [w[:-1] + (f,) for w in W[::7] for f in ("hdf5", "pkl", "gz")]
    P = [(s, k, f) for s, k in (("nestle", dict(nlive=20, method="single")), ("dynesty", dict(nlive=20, dlogz=5., walks=5, naccept=2, sample="rwalk", bound="live", check_point_plot=False, print_method="interval-1000")),
                                ("emcee", dict(nwalkers=10, nsteps=30, nburn=5)), ("bilby_mcmc", dict(nsamples=6, ntemps=1, thin_by_nact=1, L1steps=1, check_point_plot=False, proposal_cycle="default_noGMnoKD", burn_in_nact=1, fixed_tau=1, diagnostic=False, printdt=0)))
         for f in ((True, "hdf5", "pkl") if deep else (True, "hdf5"))]
    G = list(itertools.product((False, True), (True, "hdf5", "pkl"), (None, "network", "waveform", "marginalisation")))
    return [Group("histories", hh, history, 900), Group("flags", F, flags, 300), Group("stages", S, stages, 300), Group("ways", W, ways, 600), Group("samplers", P, samplers, 300), Group("gw", G, gw, 300)]
