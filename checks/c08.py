"""C08: a process death while a checkpoint, resume file, result or cached table is being written loses nothing."""
import glob
import itertools
import os
import pickle
import numpy as np
from mc.core import Group
from mc import crash

PROPERTY = "C08"
LEVEL = "model_checking"
RULE = ("every writer of a checkpoint, resume file, result, weights file or cached table x the state of the directory before (nothing, previous version, leftovers of an earlier "
        "crash) x every change it makes to the files: the process ends before the change and after part of every write; then the next start; a case = one crash point")
TECHNIQUE = "exhaustive crash-point and torn-write injection into the real writers (LD_PRELOAD), each followed by the real recovery path in a new process"
ASSUMPTIONS = ["process death, not power loss: what write() was given is in the file, in order"]


# ------------------------------------------------------------------ plain dumps and results
def one_of(read, allowed):
    """a recovery which needs read() to give one of the allowed values"""
    def f():
        try:
            got = read()
        except Exception as e:
            return f"not readable: {type(e).__name__}: {e}"
        return None if got in allowed else f"read {got}, expected one of {allowed}"
    return f


def dumps(s, item):
    from bilby.core.utils import safe_file_dump
    _, module, previous, leftover = item
    import importlib
    m = importlib.import_module(module)

    def value(t):
        return dict(tag=t, data=np.full(30000, "ABC".index(t), dtype=float).tolist())

    def read(fn):
        if not os.path.exists(fn):
            return None
        with open(fn, "rb") as f:
            v = m.load(f)
        return v["tag"] if v == value(v["tag"]) else "mixed"

    def setup(d):
        fn = os.path.join(d, "x.pickle")
        if previous:
            safe_file_dump(value("A"), fn, module)
        if leftover:
            open(fn + ".temp", "wb").write(b"\x80torn" * 100000)

    def action(d):
        safe_file_dump(value("B"), os.path.join(d, "x.pickle"), m)

    def recover(d):
        fn = os.path.join(d, "x.pickle")
        bad = one_of(lambda: read(fn), ["A", "B"] if previous else [None, "B"])()
        if bad:
            return bad
        safe_file_dump(value("C"), fn, m)
        return one_of(lambda: read(fn), ["C"])()
    s.explore("/".join(map(str, item)), setup, action, recover, tears=((0, 1), (1, 1000), (1, 2), (999, 1000)))


def a_result(t, d, bad=False):
    from checks import c07
    kw = c07.base()
    kw["log_evidence"] = -1. - "ABC".index(t)
    kw["posterior"] = kw["posterior"].copy()
    kw["posterior"]["b"] = float("ABC".index(t))
    if bad:
        kw["sampler_kwargs"] = dict(thing=frozenset([1]))
    import bilby
    return bilby.core.result.Result(**dict(kw, outdir=d))


def which(r):
    t = "ABC"[int(-1 - r.log_evidence)]
    return t if set(r.posterior["b"]) == {float("ABC".index(t))} and len(r.posterior) == 4 else "mixed"


def results(s, item):
    import bilby
    _, fmt, previous, overwrite, bad = item
    ext, gz = ("json", True) if fmt == "json.gz" else (fmt, False)
    name = f"lab_result.{fmt}"

    def read(d):
        out = []
        for fn in dict.fromkeys([name, "lab_result.pkl" if fmt != "json.gz" else "lab_result.json.pkl"]):
            if os.path.exists(os.path.join(d, fn)):
                out.append(which(bilby.core.result.read_in_result(os.path.join(d, fn))))
        return "".join(sorted(out)) or None

    def setup(d):
        if previous:
            a_result("A", d).save_to_file(extension=ext, gzip=gz)
        if previous == "old":
            a_result("C", d).save_to_file(extension=ext, gzip=gz)
            a_result("A", d).save_to_file(extension=ext, gzip=gz)
        if previous == "leftover":
            for f in (name, name + ".old", "lab_result.pkl"):
                open(os.path.join(d, f + ".temp"), "w").write("torn")

    def action(d):
        a_result("B", d, bad).save_to_file(extension=ext, gzip=gz, overwrite=overwrite)

    def recover(d):
        bad_ = one_of(lambda: read(d), ["A", "B", "AB"] if previous else [None, "B"])()
        if bad_:
            return bad_
        if previous and not overwrite:
            # A is somewhere
            have = {which(bilby.core.result.read_in_result(os.path.join(d, name)))} if os.path.exists(os.path.join(d, name)) else set()
            if os.path.exists(os.path.join(d, name + ".old")):
                import shutil
                tmp = os.path.join(d, "probe." + fmt)
                shutil.copy(os.path.join(d, name + ".old"), tmp)
                have.add(which(bilby.core.result.read_in_result(tmp)))
                os.remove(tmp)
            if "A" not in have:
                return f"the previous result is neither at its name nor kept as .old: {have}"
        a_result("C", d).save_to_file(extension=ext, gzip=gz, overwrite=overwrite)
        return one_of(lambda: which(bilby.core.result.read_in_result(os.path.join(d, name))), ["C"])()
    s.explore("/".join(map(str, item)), setup, action, recover, timeout=120)


def grids(s, item):
    import bilby
    from checks.c07 import Quad
    _, gz, previous, overwrite = item
    p = bilby.core.prior
    fn = "g_grid.json" + (".gz" if gz else "")

    def grid(t, d):
        return bilby.core.grid.Grid(Quad({}), p.PriorDict(dict(a=p.Uniform(0, 1, "a"), b=p.Uniform(0, 1. + "ABC".index(t), "b"))), grid_size=20, outdir=d, label="g")

    def read(d):
        if not os.path.exists(os.path.join(d, fn)):
            return None
        g = bilby.core.grid.Grid.read(os.path.join(d, fn), gzip=gz)
        return "ABC"[int(g.priors["b"].maximum - 1)]

    def save(t, d):
        g = grid(t, d)
        g.outdir, g.label = d, "g"
        g.save_to_file(gzip=gz, overwrite=overwrite)

    def recover(d):
        bad = one_of(lambda: read(d), ["A", "B"] if previous else [None, "B"])()
        if bad:
            return bad
        save("C", d)
        return one_of(lambda: read(d), ["C"])()
    s.explore("/".join(map(str, item)), lambda d: save("A", d) if previous else None, lambda d: save("B", d), recover)


def pickles(s, item):
    """detectors, networks: the explicit dump of an object"""
    import bilby
    _, kind, previous = item

    def obj(t):
        if kind == "ifo":
            i = bilby.gw.detector.get_empty_interferometer("H1")
        else:
            i = bilby.gw.detector.InterferometerList(["H1", "L1"])
        for x in ([i] if kind == "ifo" else i):
            x.set_strain_data_from_zero_noise(duration=1., sampling_frequency=256., start_time=float("ABC".index(t)))
        return i

    def files(d):
        return [f for f in glob.glob(os.path.join(d, "*")) if not f.endswith(".temp")]

    def read(d):
        fs = files(d)
        if not fs:
            return None
        cls = bilby.gw.detector.Interferometer if kind == "ifo" else bilby.gw.detector.InterferometerList
        return "ABC"[int((cls.from_pickle(fs[0]) if kind == "ifo" else cls.from_pickle(fs[0])[1]).start_time)]

    def save(t, d):
        obj(t).to_pickle(outdir=d, label="x")

    def recover(d):
        bad = one_of(lambda: read(d), ["A", "B"] if previous else [None, "B"])()
        if bad:
            return bad
        save("C", d)
        return one_of(lambda: read(d), ["C"])()
    s.explore("/".join(map(str, item)), lambda d: save("A", d) if previous else None, lambda d: save("B", d), recover)


# ------------------------------------------------------------------ cached tables, reweighting, posterior reconstruction
def lookup(s, item):
    """the distance-marginalisation table: after the crash a likelihood can be made and has the right table"""
    import bilby
    _, previous = item
    kw = dict()

    def likelihood(d, far=400.):
        ifos = bilby.gw.detector.InterferometerList(["H1"])
        ifos.set_strain_data_from_zero_noise(duration=1., sampling_frequency=256.)
        wg = bilby.gw.WaveformGenerator(duration=1., sampling_frequency=256., frequency_domain_source_model=lambda f, **k: dict(plus=f * 0, cross=f * 0))
        pr = bilby.core.prior.PriorDict(dict(luminosity_distance=bilby.gw.prior.UniformComovingVolume(100., far, name="luminosity_distance"),
                                             geocent_time=bilby.core.prior.Uniform(0, 1), ra=bilby.core.prior.Uniform(0, 1), dec=bilby.core.prior.Uniform(0, 1)))
        return bilby.gw.GravitationalWaveTransient(ifos, wg, priors=pr, distance_marginalization=True, distance_marginalization_lookup_table=os.path.join(d, "table.npz"), **kw)
    base = bilby.gw.GravitationalWaveTransient
    tables = {}
    original = getattr(base, "_create_lookup_table", None)
    tmp = os.path.join(s.root, "ref")
    os.mkdir(tmp)
    for far in (400., 300.):
        if original is None:
            tables[far] = np.array(likelihood(tmp, far)._dist_margd_loglikelihood_array)
            for f in glob.glob(tmp + "/*"):
                os.remove(f)
        else:
            tables[far] = np.random.RandomState(int(far)).normal(size=(400, 800))
    made = []

    def quick(self):
        """a stand-in for the slow computation, which is not what is explored here"""
        made.append(1)
        self._dist_margd_loglikelihood_array = tables[400. if self._distance_array[-1] > 350 else 300.]
        self.cache_lookup_table()
    base._create_lookup_table = quick

    def setup(d):
        if previous == "same":
            likelihood(d)
        elif previous == "other":
            likelihood(d, 300.)
        elif previous == "empty":
            open(os.path.join(d, "table.npz"), "w").close()
        elif previous == "torn":
            likelihood(d)
            f = os.path.join(d, "table.npz")
            data = open(f, "rb").read()
            open(f, "wb").write(data[:len(data) // 3])

    def recover(d):
        for _ in range(2):
            made.clear()
            try:
                like = likelihood(d)
            except Exception as e:
                return f"no likelihood: {type(e).__name__} {e}"
            if not np.array_equal(like._dist_margd_loglikelihood_array, tables[400.]):
                return "wrong table"
        if made:
            return "the table was not stored by the start before"
        try:
            like = likelihood(d, 300.)  # another prior must not get this table
        except Exception as e:
            return f"no likelihood for another prior: {type(e).__name__} {e}"
        if not np.array_equal(like._dist_margd_loglikelihood_array, tables[300.]):
            return "wrong table for another prior"
    s.explore("/".join(map(str, item)), setup, likelihood, recover, tears=((0, 1), (1, 2), (999, 1000)), max_events=None)
    if original is not None:
        base._create_lookup_table = original


class Slope:
    def __init__(self, k):
        self.k, self.parameters = k, {}

    def log_likelihood(self):
        return -self.k * self.parameters["a"] ** 2 + self.parameters["b"]


def reweighting(s, item):
    import bilby
    L = Slope
    _, use_old, n_checkpoint = item
    from bilby.core.result import get_weights_for_reweighting

    p = bilby.core.prior
    new_p, old_p = p.PriorDict(dict(a=p.Gaussian(0, 2, "a"), b=p.Uniform(-1, 3, "b"))), p.PriorDict(dict(a=p.Gaussian(0, 1, "a"), b=p.Uniform(-1, 2, "b")))
    import pandas as pd
    n = 7
    post = pd.DataFrame(dict(a=np.linspace(-1, 1.3, n), b=np.linspace(-.5, 1.5, n)))
    post["log_likelihood"] = -2. * post["a"] ** 2 + post["b"]
    post["log_prior"] = [old_p.ln_prob(dict(a=x, b=y)) for x, y in zip(post["a"], post["b"])]

    def run(d, resume=True):
        r = bilby.core.result.Result(label="x", outdir=d, posterior=post.copy(), priors=old_p, search_parameter_keys=["a", "b"])
        kw = dict(old_likelihood=L(2.), old_prior=old_p) if use_old else {}
        out = get_weights_for_reweighting(r, new_likelihood=L(3.), new_prior=new_p, resume_file=os.path.join(d, "w.dat") if resume else None, n_checkpoint=n_checkpoint, **kw)
        return [np.asarray(x, dtype=float) for x in out[:5]]
    want = run(s.root, False)

    def recover(d):
        got = run(d)
        if not all(np.allclose(x, y, rtol=1e-12) for x, y in zip(got, want)):
            return f"weights {got} differ from {want}"
    s.explore("/".join(map(str, item)), lambda d: None, run, recover)


def reconstruction(s, item):
    import bilby
    _, block, npool = item
    import pandas as pd
    from bilby.gw import conversion

    class L(bilby.core.likelihood.Likelihood):
        _marginalized_parameters = ["phase"]
        label = "x"

        def __init__(self):
            super().__init__(parameters=dict(a=None))
            self.priors = bilby.core.prior.PriorDict()

        def generate_posterior_sample_from_marginalized_likelihood(self):
            return dict(self.parameters, phase=self.parameters["a"] + bilby.core.utils.random.rng.uniform())

        def get_sky_frame_parameters(self):
            return {}
    samples = pd.DataFrame(dict(a=np.arange(7.)))

    def run(d):
        like = L()
        like.outdir = d
        bilby.core.utils.random.seed(5)
        out = conversion.generate_posterior_samples_from_marginalized_likelihood(samples=samples.copy(), likelihood=like, npool=npool, block=block, use_cache=True)
        return out
    os.mkdir(os.path.join(s.root, "ref"))
    want = run(os.path.join(s.root, "ref"))

    def recover(d):
        got = run(d)
        if not (list(got.columns) == list(want.columns) and np.array_equal(got.values, want.values)):
            return f"reconstructed {got.to_dict('list')} differ from {want.to_dict('list')}"
    s.explore("/".join(map(str, item)), lambda d: None, lambda d: run(d) is None, recover, tears=((0, 1), (1, 2)))


# ------------------------------------------------------------------ whole analyses
def model():
    import bilby

    class L(bilby.core.likelihood.Likelihood):
        def __init__(self):
            super().__init__(parameters=dict(x=None, y=None))

        def log_likelihood(self):
            return -.5 * (self.parameters["x"] / .2) ** 2 - .5 * ((self.parameters["y"] - .1) / .3) ** 2
    p = bilby.core.prior
    return L(), p.PriorDict(dict(x=p.Uniform(-1, 1, "x"), y=p.Uniform(-1, 1, "y"), z=p.DeltaFunction(2.)))


SAMPLERS = dict(
    dynesty=dict(nlive=20, dlogz=5., sample="rwalk", bound="live", walks=5, maxmcmc=10, nact=1, naccept=2, print_method="interval-10", check_point_delta_t=0., n_check_point=40,
                 check_point_plot=False),
    dynesty_multi=dict(sampler="dynesty", nlive=20, dlogz=5., sample="rwalk_dynesty", bound="multi", walks=5, check_point_delta_t=0., n_check_point=40, check_point_plot=False),
    bilby_mcmc=dict(nsamples=6, ntemps=1, thin_by_nact=1, L1steps=1, check_point_delta_t=0., check_point_plot=False, proposal_cycle="default_noGMnoKD", burn_in_nact=1, fixed_tau=1, diagnostic=False,
                    printdt=0),
    nestle=dict(npoints=20, dlogz=5.),
    ultranest=dict(min_num_live_points=40, cluster_num_live_points=20, show_status=False, dlogz=5.),
    emcee=dict(nwalkers=6, iterations=8, nburn=2),
    zeus=dict(nwalkers=6, nsteps=8, nburn=2),
    kombine=dict(nwalkers=24, iterations=26, nburn=2, autoburnin=False, update_interval=2),
)


def analyse(d, name, **kw):
    import bilby
    bilby.core.utils.command_line_args.bilby_test_mode = False
    like, pri = model()
    s = dict(SAMPLERS[name])
    s.update(kw)
    sampler = s.pop("sampler", name)
    bilby.core.utils.random.seed(3)
    np.random.seed(3)
    return bilby.run_sampler(likelihood=like, priors=pri, sampler=sampler, outdir=d, label="lab", save="json", plot=False, **s)


def healthy(r, distinct=True):
    """is this a complete result of the model? None or what is wrong"""
    import bilby
    like, pri = model()
    post = r.posterior
    if post is None or not len(post):
        return "no posterior"
    for i in range(len(post)):
        row = post.iloc[i]
        like.parameters.update(x=row["x"], y=row["y"])
        if not np.isclose(like.log_likelihood(), row["log_likelihood"], rtol=1e-6):
            return f"log_likelihood {row['log_likelihood']} of row {i} should be {like.log_likelihood()}"
        if not np.isclose(pri.ln_prob(dict(x=row["x"], y=row["y"])), row["log_prior"], rtol=1e-6):
            return f"log_prior {row['log_prior']} of row {i}"
        if row["z"] != 2.:
            return "fixed parameter"
    if r.sampler in ("dynesty",):
        if not np.isfinite(r.log_evidence):
            return "no evidence"
        n = r.nested_samples
        ll = n["log_likelihood"].values
        if np.any(np.diff(ll) < 0):
            return "nested samples out of order"
        if distinct and len(np.unique(n[["x", "y"]].values, axis=0)) != len(n):
            return "nested samples duplicated"


def analysis(s, item):
    _, name, previous, cap = item
    import importlib
    import bilby.core.sampler
    import h5py, dill, matplotlib.pyplot  # noqa
    for m in {"dynesty_multi": ["dynesty"], "bilby_mcmc": ["bilby.bilby_mcmc"]}.get(name, [name]):
        importlib.import_module(m)

    def setup(d):
        if previous:
            pass

    def action(d):
        analyse(d, name)

    def recover(d):
        import bilby
        f = os.path.join(d, "lab_result.json")
        if os.path.exists(f):
            r = bilby.core.result.read_in_result(f)
            if r.__dict__.get("_posterior") is None:  # written before the samples are made a posterior
                bad = None if len(r.samples) == len(r.log_likelihood_evaluations) > 0 else "neither posterior nor samples"
            else:
                bad = healthy(r)
            if bad:
                return "result on disk: " + bad
        r = analyse(d, name)
        bad = healthy(r)
        if bad:
            return "result after restarting: " + bad
        bad = healthy(bilby.core.result.read_in_result(f))
        if bad:
            return "result on disk after restarting: " + bad
    s.explore("/".join(map(str, item)), setup, action, recover, timeout=200, max_events=cap)


def scenario(s, item):
    globals()[item[0]](s, item)


def run(rec, item):
    crash.serve(rec, "checks.c08", item, timeout=3000)


def groups(tier, seed):
    deep = tier == "thorough"
    items = [("dumps", m, p, l) for m in ("pickle", "dill") for p in (0, 1) for l in (0, 1)]
    res = [("results", f, p, o, b) for f in ("json", "json.gz", "hdf5", "pkl") for p in ("", "one", "old", "leftover") for o in (0, 1) for b in (0, 1) if not (b and f in ("pkl", "hdf5"))]
    grid = [("grids", g, p, o) for g in (0, 1) for p in (0, 1) for o in (0, 1)]
    pick = [("pickles", k, p) for k in ("ifo", "network") for p in (0, 1)]
    cached = [("lookup", p) for p in ("", "same", "other", "empty", "torn")] + [("reweighting", o, n) for o in (0, 1) for n in (1, 2, 3)]
    cached += [("reconstruction", b, n) for b in (1, 3, 10) for n in (1,)]
    whole = [("analysis", n, 0, None if deep else dict(ultranest=5).get(n, 24)) for n in SAMPLERS]
    return [Group("cached", cached, run, 3000), Group("whole", whole, run, 3000), Group("writers", items + grid + pick, run, 3000), Group("results", res, run, 3000)]
