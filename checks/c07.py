"""C07: a saved result reads back identically in every format, and nothing in memory changes by saving or by derived quantities."""
import copy
import datetime
import functools
import gzip
import itertools
import json
import os
import pathlib
import shutil
import tempfile
import numpy as np
from mc.core import Group
from checks import c33

PROPERTY = "C07"
LEVEL = "model_checking"
RULE = ("every result variant (each field present/absent/unusual) x every format x way of naming the file x way of reading it, saved results re-saved in every second format; "
        "every sequence of save/overwrite/fallback operations up to the depth against a model of the files; every sequence of derived-quantity reads up to the depth against a "
        "snapshot; a case = one result x path, or one sequence")
TECHNIQUE = "explicit-state exploration of save/load histories on the real file system with a model of the files, exhaustive field x format lattice, structural equality oracle"

FIELDS = ["label", "outdir", "sampler", "log_evidence", "log_evidence_err", "log_noise_evidence", "log_bayes_factor", "priors", "posterior", "injection_parameters", "meta_data",
          "search_parameter_keys", "fixed_parameter_keys", "constraint_parameter_keys", "sampling_time", "sampler_kwargs", "use_ratio", "information_gain",
          "log_likelihood_evaluations", "log_prior_evaluations", "num_likelihood_evaluations", "samples", "nested_samples", "walkers", "nburn", "parameter_labels",
          "parameter_labels_with_unit", "max_autocorrelation_time", "version"]


def a_callable(x):
    return x


def base(**kw):
    import pandas as pd
    import bilby
    p = bilby.core.prior
    pr = p.PriorDict(dict(b=p.Uniform(-1, 2, "b", unit="m"), a=p.Gaussian(0, 1, "a", latex_label="$a$"), c=p.DeltaFunction(3.), d=p.Constraint(-5, 5)))
    post = pd.DataFrame(dict(b=[.1, -.2, .3, 1.7], a=[.1 + 1e-17, 1 / 3, -2e-300, 0.], c=[3.] * 4, log_likelihood=[-1.5, -2.25, -3., -1e3], log_prior=[-.1, -.2, -.3, -.4]))
    d = dict(label="lab", sampler="dynesty", search_parameter_keys=["b", "a"], fixed_parameter_keys=["c"], constraint_parameter_keys=["d"], priors=pr,
             sampler_kwargs=dict(nlive=10, bound="live", dlogz=.1, pool=None), injection_parameters=dict(a=.5, b=0., c=3.), meta_data=dict(likelihood=dict(kind="x", value=1.5)),
             posterior=post, samples=post[["b", "a"]].values, nested_samples=pd.DataFrame(dict(b=[.1, .2], a=[.3, .4], weights=[.5, .25], log_likelihood=[-1., -2.])),
             log_evidence=-12.25, log_evidence_err=.1, information_gain=3.3, log_noise_evidence=-10., log_bayes_factor=-2.25, log_likelihood_evaluations=np.array([-1.5, -2.25, -3., -1e3]),
             log_prior_evaluations=np.array([-.1, -.2, -.3, -.4]), sampling_time=datetime.timedelta(seconds=3, microseconds=250000), num_likelihood_evaluations=100,
             use_ratio=True, parameter_labels=["$b$", "$a$"], parameter_labels_with_unit=["$b$ [m]", "$a$"], version="bilby=x;")
    d.update(kw)
    return d


@functools.lru_cache(None)
def variants():
    """name -> (constructor arguments, result class, may the HDF5 format fall back to pickle)"""
    import pandas as pd
    import bilby
    p = bilby.core.prior
    v = {}

    def add(name, cls="Result", refuse=False, **kw):
        v[name] = (base(**kw), cls, refuse)
    add("base")
    v["empty"] = (dict(), "Result", False)
    v["minimal"] = (dict(label="m", posterior=pd.DataFrame(dict(x=[1., 2.])), search_parameter_keys=["x"]), "Result", False)
    for k in FIELDS:
        if k not in ("label", "outdir", "log_evidence", "log_evidence_err", "information_gain", "log_noise_evidence", "log_bayes_factor", "meta_data", "parameter_labels",
                     "parameter_labels_with_unit", "version"):
            add("no_" + k, **{k: None})
    for k in ("log_evidence", "log_evidence_err", "information_gain", "log_noise_evidence", "log_bayes_factor"):
        for n, x in dict(nan=np.nan, inf=np.inf, ninf=-np.inf, none=None, np64=np.float64(-1.5), np32=np.float32(.1), int=3, tiny=5e-324, digits=-1234.56789012345678).items():
            add(f"{k}_{n}", **{k: x})
    add("priors_conditional", priors=p.ConditionalPriorDict(dict(a=p.Uniform(0, 1, "a"), b=p.Gaussian(0, 1, "b"))))
    add("priors_joint", priors=p.PriorDict({k: p.MultivariateGaussian(j, k) for j in [p.MultivariateGaussianDist(["a", "b"], mus=[0., 1.], covs=[[1., .2], [.2, 2.]])] for k in "ab"}))
    add("priors_gw", priors=bilby.gw.prior.BBHPriorDict(aligned_spin=True), cls="CompactBinaryCoalescenceResult")
    add("priors_bns", priors=bilby.gw.prior.BNSPriorDict(aligned_spin=True))
    add("priors_interp", priors=p.PriorDict(dict(a=p.Interped(np.linspace(0, 1, 5), np.array([0., 1, 2, 1, 0]), name="a"), b=p.FromFile.__mro__[1](np.linspace(0, 1, 4), np.ones(4), name="b"))))
    add("priors_bounds", priors=p.PriorDict(dict(a=p.Uniform(0, 1, "a", boundary="periodic"), b=p.TruncatedGaussian(0, 1, 0, np.inf, "b", boundary="reflective"))))
    add("priors_empty", priors=p.PriorDict())
    post = base()["posterior"]
    add("post_ints", posterior=pd.DataFrame(dict(b=[.1, .2], a=[.1, .2], n=[1, 2], mode=["x", "y"], flag=[True, False])))
    add("post_complex", posterior=pd.DataFrame(dict(b=[.1, .2], a=[.1, .2], snr=[1 + 2j, 3 - 1j])))
    add("post_index", posterior=post.iloc[[2, 0, 3]])
    add("post_dup_index", posterior=pd.concat([post, post]))
    add("post_zero_rows", posterior=post.iloc[:0])
    add("post_one_row", posterior=post.iloc[:1])
    add("post_special", posterior=pd.DataFrame(dict(b=[np.nan, np.inf, -np.inf], a=[0., -0., 1e-310])))
    add("post_float32", posterior=post.astype("float32"))
    add("post_names", posterior=pd.DataFrame({"b": [1.], "a": [2.], "with space": [3.], "ünicode": [4.], "$x$": [5.]}))
    add("post_slash", refuse=True, posterior=pd.DataFrame({"b": [1.], "a": [2.], "m/s": [3.]}))
    add("nested_special", nested_samples=pd.DataFrame(dict(b=[.1, .2], a=[.3, .4], weights=[0., 1.], log_likelihood=[-np.inf, -2.])))
    add("nested_dict", nested_samples=dict(b=[.1, .2], a=[.3, .4]))
    add("samples_list", samples=[[.1, .2], [.3, .4]])
    add("samples_3d", samples=np.arange(12.).reshape(3, 2, 2))
    add("walkers", walkers=np.arange(12.).reshape(2, 3, 2), nburn=3)
    add("walkers_nan", walkers=np.full((2, 3, 2), np.nan), nburn=0)
    add("act", max_autocorrelation_time=7)
    add("act_float", max_autocorrelation_time=3.25)
    add("time_float", sampling_time=12.5)
    add("time_zero", sampling_time=datetime.timedelta(0))
    add("time_days", sampling_time=datetime.timedelta(days=3, seconds=5, microseconds=1))
    add("inj_arrays", injection_parameters=dict(a=.5, arr=np.array([1., 2.]), s="text", n=None, i=3, flag=True, z=1 + 1j))
    add("inj_empty", injection_parameters={})
    add("meta_nested", meta_data=dict(likelihood=dict(interferometers=dict(H1=dict(parameters=dict(a=1.), arr=np.arange(3.), name="H1"), L1=dict(x=None))), global_meta_data=dict(rng=None),
                                      command_line_args=dict(label="x", trigger=None, n=3)))
    add("meta_cosmo", refuse=True, meta_data=dict(cosmo=bilby.gw.cosmology.get_cosmology("Planck15"), f=[np.array([1, 2])]))
    add("meta_mixed", refuse=True, meta_data=dict(items=[1, "a", None, dict(x=1)]))
    add("kwargs_callable", sampler_kwargs=dict(f=a_callable, g=np.sin, nlive=5))
    add("kwargs_class", sampler_kwargs=dict(cls=dict, nlive=5))
    add("kwargs_arrays", sampler_kwargs=dict(pos0=np.ones((2, 2)), labels=["a", "b"], empty=[], mixed=None))
    add("kwargs_empty", sampler_kwargs={})
    add("keys_empty", fixed_parameter_keys=[], constraint_parameter_keys=[])
    add("labels_none", parameter_labels=None, parameter_labels_with_unit=None)
    add("one_param", search_parameter_keys=["a"], parameter_labels=["$a$"], parameter_labels_with_unit=["$a$"])
    add("use_ratio_false", use_ratio=False)
    add("cbc", cls="CompactBinaryCoalescenceResult", meta_data=dict(likelihood=dict(sampling_frequency=1024., duration=4, phase_marginalization=False, waveform_arguments=dict(a=1))))
    add("version_none", version=None)
    for n, lab in dict(dots="a.b.c", space="a b", uni="ä", dash="x-y_z", json="my.json", pkl="my.pkl", long="l" * 60).items():
        add("label_" + n, label=lab)
    add("unserialisable", refuse="any", meta_data=dict(obj=object))
    add("object", refuse="any", sampler_kwargs=dict(thing=frozenset([1])))
    return v


FORMATS = ["json", "json.gz", "hdf5", "h5", "pkl", "pickle", "True"]
NAMES = ["default", "outdir", "explicit", "path", "dotted", "spaces", "bare"]


def make(name, d, vs=None):
    import bilby
    kw, cls, refuse = (vs or variants())[name]
    cls = getattr(bilby.gw.result if cls.startswith("Comp") else bilby.core.result, cls)
    return cls(**dict(copy.deepcopy(kw), outdir=d)), refuse


def snap(r, deep=True):
    """content and identity of the fields (the kde and version caches aside)"""
    out = []
    for k in FIELDS:
        x = r.__dict__.get(k, r.__dict__.get("_" + k))
        out.append((k, id(x), deepsnap(x)))
    return out


def deepsnap(x):
    import pandas as pd
    if isinstance(x, pd.DataFrame):
        return ("frame", list(map(str, x.columns)), x.index.tolist(), repr(x.to_dict("list")), [str(t) for t in x.dtypes])
    if isinstance(x, dict):
        return (type(x).__name__, tuple((str(k), id(v), deepsnap(v)) for k, v in x.items()))
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, tuple(deepsnap(v) for v in x))
    if isinstance(x, np.ndarray):
        return (x.dtype.str, x.shape, repr(x.tolist()))
    return repr(x)


def fields(r):
    out = {}
    for k in FIELDS:
        try:
            out[k] = getattr(r, k)
        except ValueError:
            out[k] = None
    if out["sampler_kwargs"] is not None:
        out["sampler_kwargs"] = {k: str(x) if callable(x) else x for k, x in out["sampler_kwargs"].items()}
    return out


def compare(rec, key, a, b, how, what=""):
    """how: json/hdf5/pkl; a: fields() of the result as it was saved, b: result read"""
    good = True
    got = fields(b)
    for k in FIELDS:
        x, y = a[k], got[k]
        if k == "sampling_time" and how == "hdf5" and isinstance(y, float):
            x = x.total_seconds()
        if k == "priors" and x is not None:
            good &= rec.check(type(x) is type(y), key, f"{what}{k}: {type(x)} became {type(y)}")
            x, y = dict(x), dict(y or {})
            strict = False
        elif k == "meta_data":
            strict = how != "hdf5"
        else:
            strict = how != "hdf5"
        if not c33.equal(x, y, strict):
            good &= rec.check(False, key, f"{what}{k}: {repr(x)[:120]} read back as {repr(y)[:120]}")
    return good


def save(r, d, fmt, naming, overwrite=False):
    """save and return (expected file, keyword arguments for read_in_result)"""
    ext, gz = ("json", True) if fmt == "json.gz" else (fmt, False)
    disk = dict(json="json", h5="hdf5", hdf5="hdf5", pkl="pkl", pickle="pkl", true="json")[ext.lower()]
    full = disk + (".gz" if gz else "")
    ext = True if ext == "True" else ext
    if naming == "default":
        r.save_to_file(extension=ext, gzip=gz, overwrite=overwrite)
        return os.path.join(r.outdir, f"{r.label}_result.{full}"), dict(outdir=r.outdir, label=r.label, extension=disk if ext is True else ext, gzip=gz)
    if naming == "outdir":
        sub = os.path.join(d, "sub", "dir")
        r.save_to_file(outdir=sub, extension=ext, gzip=gz, overwrite=overwrite)
        return os.path.join(sub, f"{r.label}_result.{full}"), dict(outdir=sub, label=r.label, extension=disk if ext is True else ext, gzip=gz)
    tail = "json" if ext is True else ext + (".gz" if gz else "")
    fn = os.path.join(d, dict(explicit="file.", path="path.", dotted="a.b.v1.0.", spaces="my result ä.", bare="noext")[naming] + ("" if naming == "bare" else tail))
    if naming == "bare":
        fn = os.path.join(d, "x." + tail)
        r.save_to_file(filename=fn, overwrite=overwrite)  # the format follows from the name
    else:
        r.save_to_file(filename=pathlib.Path(fn) if naming == "path" else fn, extension=ext, gzip=gz, overwrite=overwrite)
    return fn, dict(filename=pathlib.Path(fn) if naming == "path" else fn)


def kind(fn):
    return "json" if ".json" in fn[-8:] else "pkl" if fn.endswith(("pkl", "pickle")) else "hdf5"


def trip(rec, item):
    import bilby
    name, fmts, namings, seconds = item
    vs = variants()
    for fmt, naming in itertools.product(fmts, namings):
        d = tempfile.mkdtemp(prefix="c07_")
        try:
            r, refuse = make(name, d, vs)
            cls = type(r)
            key = f"trip/{name}/{fmt}/{naming}"
            with rec.guard(key):
                want = copy.deepcopy(fields(r))
                before = snap(r)
                fn, how = save(r, d, fmt, naming)
                if not rec.check(snap(r) == before, key, lambda: "saving changed " + str([a[0] for a, b in zip(before, snap(r)) if a != b])):
                    continue
                left = sorted(os.path.relpath(os.path.join(p, f), d) for p, _, fs in os.walk(d) for f in fs)
                if not os.path.isfile(fn):
                    fallback = os.path.splitext(fn)[0] + ".pkl"
                    allowed = refuse == "any" or (refuse and kind(fn) == "hdf5")
                    if not rec.check(allowed and os.path.isfile(fallback), key, f"{os.path.basename(fn)} not written; directory: {left}"):
                        continue
                    fn, how = fallback, dict(filename=fallback)
                    rec.outcome("fallback")
                rec.check(left == [os.path.relpath(fn, d)], key, f"files left: {left}")
                data = open(fn, "rb").read()
                back = bilby.core.result.read_in_result(result_class=cls, **how)
                rec.check(open(fn, "rb").read() == data, key, "reading changed the file")
                rec.check(type(back) is cls, key, f"class {type(back)}")
                if compare(rec, key, want, back, kind(fn)):
                    rec.outcome("same")
                rec.trace()
                for f2 in seconds:
                    d2 = os.path.join(d, "second")
                    os.makedirs(d2)
                    src = copy.deepcopy(fields(back))
                    back2, k2 = back, f"{key}>{f2}"
                    fn2, _ = save(back2, d2, f2, "explicit")
                    if os.path.isfile(fn2):
                        again = bilby.core.result.read_in_result(filename=fn2, result_class=cls)
                        compare(rec, k2, src, again, kind(fn2), "second file: ")
                        if kind(fn) == kind(fn2) == "json":
                            rec.check(json_text(fn) == json_text(fn2), k2, "saving what was read gives another file")
                    else:
                        rec.check(refuse, k2, "second file not written")
                    rec.case(k2)
                    rec.trace()
                    shutil.rmtree(d2)
            rec.case(key)
        finally:
            shutil.rmtree(d)


def json_text(fn):
    with (gzip.open(fn) if fn.endswith("gz") else open(fn, "rb")) as f:
        return json.dumps(json.loads(f.read()), sort_keys=True)


# ------------------------------------------------------------------ file histories
OPS = ["saveA", "saveB", "overA", "overB", "saveBad", "overBad", "leftover", "load", "rmOld"]


def history(rec, item):
    """depth-first over all operation sequences; the model predicts the contents of name, name.old and the fallback"""
    import bilby
    fmt, first, depth, obj = item
    root = tempfile.mkdtemp(prefix="c07h_")
    try:
        vs = variants()

        def build(tag):
            if obj == "grid":
                p = bilby.core.prior
                return bilby.core.grid.Grid(Quad({}), p.PriorDict(dict(a=p.Uniform(0, 1, "a"), b=p.Uniform(0, dict(A=1, B=2)[tag], "b"))), grid_size=3, label="lab", save=False,
                                            outdir=root)
            r, _ = make("object" if tag == "X" else "base", root, vs)
            r.log_evidence = dict(A=-1., B=-2., X=-3.)[tag]
            return r
        cache = {t: build(t) for t in ("ABX" if obj == "result" else "AB")}
        ops = [o for o in OPS if obj == "result" or not o.endswith("Bad")]
        ext = fmt
        fn = os.path.join(root, "file." + ext)
        pk = os.path.splitext(fn)[0] + ".pkl"

        def tag_of(path, real):
            if not os.path.exists(path):
                return None
            try:
                tmp = os.path.join(root, "probe" + os.path.splitext(real)[1] if not real.endswith(".gz") else "probe.json.gz")
                shutil.copy(path, tmp)
                if obj == "grid":
                    g = bilby.core.grid.Grid.read(tmp, gzip=real.endswith(".gz"))
                    t = "AB"[int(g.priors["b"].maximum) - 1]
                    ok = np.array_equal(g.ln_likelihood, cache[t].ln_likelihood)
                    return t if ok else "?"
                r = bilby.core.result.read_in_result(tmp)
                return {-1.: "A", -2.: "B", -3.: "X"}[r.log_evidence]
            except Exception as e:
                return f"unreadable {type(e).__name__}: {e}"
            finally:
                os.remove(tmp)

        def apply(op, m):
            m = dict(m)
            if op == "leftover":
                for f in (fn, pk):
                    open(f + ".temp", "wb").write(b"torn")
                return m
            if op == "rmOld":
                if os.path.exists(fn + ".old"):
                    os.remove(fn + ".old")
                m["old"] = None
                return m
            if op == "load":
                if m["now"]:
                    tag_of(fn, fn)
                return m
            over = op.startswith("over")
            t = op[4:]
            if t == "Bad":
                t = "X"
            cache[t].save_to_file(filename=fn, overwrite=over, **(dict(gzip=fn.endswith("gz"), outdir=root) if obj == "grid" else dict(extension="json" if "json" in ext else ext, gzip=fn.endswith("gz"))))
            if t == "X" and not fn.endswith("pkl"):
                if m["now"] and not over:
                    m["old"] = m["now"]
                m["now"], m["pkl"] = None, "X"
            else:
                if m["now"] and not over:
                    m["old"] = m["now"]
                m["now"] = t
            return m

        def clear():
            for f in os.listdir(root):
                os.remove(os.path.join(root, f))
        blobs = {}

        def walk(seq, m):
            saved = {f: open(os.path.join(root, f), "rb").read() for f in os.listdir(root)}
            for op in ([first] if not seq else ops):
                clear()
                for f, x in saved.items():
                    open(os.path.join(root, f), "wb").write(x)
                key = f"history/{obj}/{fmt}/{'>'.join(seq + [op])}"
                with rec.guard(key):
                    m2 = apply(op, m)
                    got = dict(now=tag_of(fn, fn), old=tag_of(fn + ".old", fn), pkl=tag_of(pk, pk) if pk != fn else None)
                    rec.transition()
                    rec.state((obj, fmt, tuple(sorted(m2.items(), key=str)), "leftover" in seq + [op]))
                    ok = rec.check(got == m2, key, f"files {got}, expected {m2}")
                    rec.case(key)
                    if ok and len(seq) + 1 < depth:
                        walk(seq + [op], m2)
                    else:
                        rec.trace()
        walk([], dict(now=None, old=None, pkl=None))
    finally:
        shutil.rmtree(root)


def Quad(params):
    import bilby

    class Q(bilby.core.likelihood.Likelihood):
        def __init__(self):
            super().__init__(parameters=dict(a=0, b=0))

        def log_likelihood(self):
            return -self.parameters["a"] ** 2 - 2 * self.parameters["b"]
    return Q()


# ------------------------------------------------------------------ derived quantities
def derived(d):
    import bilby
    from bilby.core.result import ResultList, reweight  # noqa
    p = bilby.core.prior

    def quiet(f):
        return f
    new = p.PriorDict(dict(a=p.Gaussian(0, 2, "a"), b=p.Uniform(-1, 3, "b")))
    old = p.PriorDict(dict(a=p.Gaussian(0, 1, "a"), b=p.Uniform(-1, 2, "b")))
    return dict(
        str=lambda r: str(r), repr=lambda r: None,
        logs=lambda r: (r.log_10_bayes_factor, r.log_10_evidence, r.log_10_evidence_err, r.log_10_noise_evidence),
        cov=lambda r: r.covariance_matrix, vol=lambda r: r.posterior_volume, occam=lambda r: r.occam_factor(p.PriorDict(dict(a=p.Uniform(0, 1), b=p.Uniform(0, 2)))),
        dim=lambda r: r.bayesian_model_dimensionality,
        median=lambda r: r.get_one_dimensional_median_and_error_bar("a").string,
        latex=lambda r: r.get_latex_labels_from_parameter_keys(["a", "b", "some_other"]),
        credible=lambda r: r.get_all_injection_credible_levels(), credible_w=lambda r: r.get_all_injection_credible_levels(keys=["a", "b"], weights=np.arange(len(r.posterior)) + 1.),
        kde=lambda r: float(r.kde([[.1], [.2]])[0]), prob=lambda r: r.posterior_probability([dict(a=.1, b=.2)]),
        weights=lambda r: r.get_weights_by_new_prior(old, new), weights_named=lambda r: r.get_weights_by_new_prior(old, new, prior_names=["a"]),
        samples=lambda r: (r.save_posterior_samples(outdir=d), open(os.path.join(d, r.label + "_posterior_samples.dat")).read())[1],
        samples_named=lambda r: (r.save_posterior_samples(filename=os.path.join(d, "named.dat")), open(os.path.join(d, "named.dat")).read())[1],
        savejson=lambda r: (r.save_to_file(outdir=d, overwrite=True), json_text(os.path.join(d, r.label + "_result.json")))[1],
        savehdf5=lambda r: r.save_to_file(outdir=d, overwrite=True, extension="hdf5"), savepkl=lambda r: r.save_to_file(outdir=d, overwrite=True, extension="pkl"),
        copy=lambda r: type(copy.deepcopy(r)).__name__, arviz=lambda r: arviz(r),
    )


def arviz(r):
    try:
        import arviz  # noqa
    except ImportError:
        return None
    return sorted(r.to_arviz().posterior.data_vars)


def plots(d):
    import bilby
    p = bilby.core.prior

    def corner(r):
        kw = dict(parameters=dict(a=.1, b=.2), filename=os.path.join(d, "c.png"), bins=5, priors=True, hist_kwargs=dict(density=True), titles=True)
        return calls(r.plot_corner, kw)

    def marg(r):
        return calls(r.plot_marginals, dict(parameters=dict(a=.1, b=.2), priors=True, outdir=d, bins=5, file_base_name=os.path.join(d, "m_")))

    def single(r):
        return calls(r.plot_single_density, dict(key="a", prior=p.Gaussian(0, 1), truth=.1, file_base_name=os.path.join(d, "s_"), bins=5, cumulative=True))

    def walkers(r):
        r.plot_walkers(outdir=d)

    def data(r):
        return calls(r.plot_with_data, dict(model=lambda x, a, b: a * x + b, x=np.linspace(0, 1, 5), y=np.linspace(0, 1, 5), ndraws=3, npoints=7, filename=os.path.join(d, "d.png"),
                                            data_label="l", data_fmt="o"))

    def multi(r):
        import bilby.core.result as br
        return calls(lambda **k: br.plot_multiple([r, r], **k), dict(filename=os.path.join(d, "mult.png"), labels=["x", "y"], evidences=True, bins=5, parameters=["a", "b"],
                                                                     hist_kwargs=dict(density=True)))

    def pp(r):
        import bilby.core.result as br
        return calls(lambda **k: br.make_pp_plot([r, r], **k), dict(filename=os.path.join(d, "pp.png"), keys=["a", "b"], weight_list=[np.ones(len(r.posterior))] * 2, lines=["-", ":"]))
    return dict(corner=corner, marginals=marg, single=single, walkers=walkers, data=data, multi=multi, pp=pp)


def calls(f, kw):
    """call with the keywords and report whether any caller-supplied object changed"""
    before = {k: deepsnap(v) for k, v in kw.items()}
    f(**kw)
    import matplotlib.pyplot as plt
    plt.close("all")
    return [k for k in kw if deepsnap(kw[k]) != before[k]]


def derive(rec, item):
    name, first, depth = item
    d = tempfile.mkdtemp(prefix="c07d_")
    try:
        ops = derived(d)
        vs = variants()
        r, _ = make(name, d, vs)
        alone = {}
        for o in ops:  # what each quantity is on a fresh result
            fresh, _ = make(name, d, vs)
            try:
                alone[o] = ("value", repr(ops[o](fresh)))
            except Exception as e:
                alone[o] = ("error", type(e).__name__)
        for seq in itertools.product([first], *[list(ops)] * (depth - 1)):
            r, _ = make(name, d, vs)
            key = f"derived/{name}/{'>'.join(seq)}"
            before = snap(r)
            for o in seq:
                try:
                    got = ("value", repr(ops[o](r)))
                except Exception as e:
                    got = ("error", type(e).__name__)
                rec.equal(got, alone[o], key, f"{o} differs after the other reads")
                if not rec.check(snap(r) == before, key, lambda: f"{o} changed " + str([(a[0], b[2]) for a, b in zip(before, snap(r)) if a != b])[:300]):
                    break
                rec.transition()
            rec.case(key)
            rec.trace()
    finally:
        shutil.rmtree(d)


def plotted(rec, item):
    import matplotlib
    matplotlib.use("Agg")
    import logging
    name, which = item
    d = tempfile.mkdtemp(prefix="c07p_")
    try:
        import pandas as pd
        r, _ = make(name, d)
        n = 60
        rng = np.random.RandomState(3)
        r.posterior = pd.DataFrame(dict(a=rng.normal(size=n), b=rng.uniform(-1, 2, size=n), c=3., log_likelihood=-1., log_prior=-1.))
        f = plots(d)[which]
        key = f"plot/{name}/{which}"
        before = snap(r)
        try:
            changed = f(r) or []
        except Exception as e:
            rec.outcome(f"plot {which} {type(e).__name__}")
            rec.note(f"not plotted: {which} {type(e).__name__} {str(e)[:60]}")
            changed = []
        rec.check(snap(r) == before, key, lambda: "changed " + str([a[0] for a, b in zip(before, snap(r)) if a != b]))
        rec.check(not changed, key, f"the caller's {changed} changed")
        rec.case(key)
        rec.trace()
    finally:
        shutil.rmtree(d)


def content(rec, item):
    """independent values of the derived quantities and of the samples file"""
    import pandas as pd
    name = item
    d = tempfile.mkdtemp(prefix="c07c_")
    try:
        r, _ = make(name, d)
        post = r.posterior
        key = f"content/{name}"
        with rec.guard(key):
            x = post[r.search_parameter_keys].values
            if len(post) > 2:
                m = x - x.mean(axis=0)
                rec.close(r.covariance_matrix, np.squeeze(m.T @ m / (len(x) - 1)), key, 1e-5 if x.dtype == "float32" else 1e-10, 1e-12, "covariance")
                q = np.percentile(post["a"].values, [16, 50, 84])
                s = r.get_one_dimensional_median_and_error_bar("a")
                rec.close([s.median, s.plus, s.minus], [q[1], q[2] - q[1], q[1] - q[0]], key, 1e-12, 1e-300, "median")
            if r.injection_parameters is not None and len(post):
                w = np.arange(len(post)) + 1.
                want = {k: float(np.sum(w[post[k].values < r.injection_parameters[k]]) / np.sum(w)) for k in r.search_parameter_keys
                        if isinstance(r.injection_parameters.get(k), float)}
                rec.close([*r.get_all_injection_credible_levels(weights=w).values()], [*want.values()], key, 1e-12, 1e-15, "credible levels")
            r.save_posterior_samples(outdir=d)
            got = pd.read_csv(os.path.join(d, r.label + "_posterior_samples.dat"), sep=" ")
            for k in post:
                col = post[k]
                if col.dtype.kind in "if" and k in got:
                    rec.close(got[k].values.astype(float), col.values.astype(float), key, 1e-6 if col.dtype == "float32" else 1e-14, 1e-300, f"samples file {k}")
                elif col.dtype.kind in "if":
                    rec.fail(key, f"{k} missing in the samples file")
            if set("ab") <= set(r.search_parameter_keys) and len(post) > 3:
                import scipy.stats
                pts = [dict(a=.1, b=.2), dict(b=-.3, a=.4), dict(a=0., b=1.)]
                if np.all(np.isfinite(x)) and np.linalg.matrix_rank(np.cov(x.T)) == 2:
                    k = scipy.stats.gaussian_kde(x.T)
                    for some in (pts[:1], pts[:2], pts) if key == "content/base" else (pts[:1],):
                        sub = key if len(some) == 1 else f"{key}/probability of {len(some)} points"
                        try:
                            got = r.posterior_probability(some)
                        except ValueError as e:
                            got = str(e)[:60]
                        want = k(np.array([[s["b"] for s in some], [s["a"] for s in some]]))
                        rec.check(np.shape(got) == np.shape(want) and np.allclose(got, want, rtol=1e-10), sub, lambda: f"got {got} expected {want}")
                        if len(some) > 1:
                            rec.case(sub)
        rec.case(key)
    finally:
        shutil.rmtree(d)


def groups(tier, seed):
    deep = tier == "thorough"
    names = list(variants())
    items = [(n, FORMATS, NAMES if deep or n in ("base", "empty", "label_dots", "label_json", "unserialisable", "meta_mixed") else ["default", "explicit"],
              FORMATS if deep else ["json", "hdf5", "pkl"]) for n in names]
    hist = [(f, o, 5 if deep else 4 if f == "json" else 3, "result") for f in ("json", "json.gz", "hdf5", "pkl") for o in OPS]
    hist += [(f, o, 5 if deep else 4, "grid") for f in ("json", "json.gz") for o in OPS if not o.endswith("Bad")]
    der = [(n, o, 3 if deep else 2) for n in ("base", "post_dup_index", "post_index", "no_injection_parameters", "one_param", "post_complex", "labels_none") for o in derived("/")]
    pl = [(n, w) for n in (["base", "no_priors", "walkers", "no_injection_parameters"]) for w in plots("/")]
    cont = [n for n in names if n != "no_search_parameter_keys" and make(n, "/tmp")[0].__dict__["_posterior"] is not None and set("ab") <= set(make(n, "/tmp")[0].posterior)]
    return [Group("trip", items, trip, 600), Group("history", hist, history, 600), Group("derived", der, derive, 300), Group("plots", pl, plotted, 300), Group("content", cont, content, 300)]
