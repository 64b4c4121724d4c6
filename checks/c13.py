"""C13: combining results keeps their samples in proportion to the evidences, and refuses results of different analyses."""
import itertools
import numpy as np
from mc import fakerng
from mc.core import Group

PROPERTY = "C13"
LEVEL = "model_checking"
RULE = ("combining: every list of 1-3 results from a pool (kind of sampler x evidence x uncertainty x length), in every order, with and without shuffling and "
        "at every consistency level, under a generator whose draws are a complete stratified set; refusals: every single disagreement x the position of the "
        "deviating result x every order x consistency level; histories: every order of reading derived quantities and combining; a case = one list combined")
TECHNIQUE = "exhaustive enumeration of result lists, orders and disagreements on the real ResultList, under a generator enumerating all strata, against an independent reference"
INF = float("inf")
STRATA = 50


def priors():
    from bilby.core.prior import PriorDict, Uniform, Sine, Constraint
    return PriorDict(dict(a=Uniform(-1, 2, "a"), b=Sine(name="b"), c=3., m=Constraint(0, 1, "m")))


def result(kind, logz, err, n, tag, **kw):
    import bilby
    import pandas as pd
    rng = np.random.RandomState(7 * tag + n)
    post = pd.DataFrame(dict(a=rng.uniform(-1, 2, n), b=rng.uniform(0, 3, n), c=3., tag=float(tag), row=np.arange(n, dtype=float),
                             log_likelihood=rng.normal(size=n), log_prior=rng.normal(size=n)))
    args = dict(label=f"lab{tag}", outdir="/nonexistent", sampler=dict(nested="dynesty", mcmc="bilby_mcmc", other="emcee")[kind], priors=priors(), search_parameter_keys=["a", "b"],
                fixed_parameter_keys=["c"], posterior=post, log_evidence=logz, log_evidence_err=err, log_noise_evidence=-4., log_bayes_factor=logz + 4., meta_data=dict(x=[1, tag]),
                sampler_kwargs=dict(nlive=5), injection_parameters=dict(a=.1, b=.2))
    if kind == "nested":
        args["nested_samples"] = post.copy()
    args.update(kw)
    return bilby.core.result.Result(**args)


def snap(r):
    out = {}
    for k, v in sorted(r.__dict__.items()):
        out[k] = v.to_json(double_precision=15) if hasattr(v, "to_json") and hasattr(v, "columns") else repr(v)
    return out


def stratified():
    """all strata of the unit interval over and over, in a scrambled order"""
    order = np.random.RandomState(5).permutation(STRATA)
    return itertools.cycle(((order + .5) / STRATA).tolist()).__next__


def want_z(zs):
    m = max(zs)
    return m + np.log(sum(np.exp(z - m) for z in zs) / len(zs))


def combined(rec, item):
    import bilby
    ResultList = bilby.core.result.ResultList
    bilby.core.utils.random.seed(1)
    for specs, shuffle, level in item:
        key = "combine/" + ",".join(f"{k}:{z:g}:{e:g}:{n}:{t}" for k, z, e, n, t in specs) + f"/{shuffle}/{level}"
        rs = [result(*s) for s in specs]
        before = [snap(r) for r in rs]
        with rec.guard(key):
            with fakerng.installed(fakerng.FakeRNG(stratified())) if not shuffle else _null():
                got = ResultList(rs).combine(shuffle=shuffle, consistency_level=level)
            rec.case(key)
            rec.trace()
            zs = [s[1] for s in specs]
            kind = specs[0][0]
            if len(specs) == 1:
                rec.check(snap(got) == before[0] or got.label != rs[0].label, key, "single result changed")
                rec.equal(got.posterior[["tag", "row"]].values.tolist(), rs[0].posterior[["tag", "row"]].values.tolist(), key, "single posterior")
                continue
            post = got.posterior
            ids = list(map(tuple, post[["tag", "row"]].values))
            rec.check(len(set(ids)) == len(ids), key, "a sample appears twice")
            everything = {(float(s[4]), float(i)): r.posterior.iloc[i].to_dict() for s, r in zip(specs, rs) for i in range(s[3])}
            bad = [i for i, row in zip(ids, post.to_dict("records")) if everything.get(i) != row]
            rec.check(not bad, key, lambda: f"rows that are no sample of the inputs {bad[:3]}")
            rec.equal(sorted(post.index.tolist()), list(range(len(post))), key, "index")
            for s in specs:
                n = sum(1 for i in ids if i[0] == s[4])
                frac = np.exp(s[1] - max(zs)) if kind == "nested" else 1.
                if shuffle and 0 < frac < 1:
                    rec.check(abs(n - frac * s[3]) <= 7 * np.sqrt(s[3] * frac * (1 - frac)) + 1, key, f"{n} of {s[3]} samples kept, expected {frac}")
                else:
                    rec.check(abs(n - frac * s[3]) <= s[3] / STRATA + 1e-9, key, f"{n} of {s[3]} samples kept, expected a fraction {frac}")
            if not shuffle:
                rec.equal(ids, sorted(ids, key=lambda i: ([s[4] for s in specs].index(i[0]), i[1])), key, "order without shuffling")
            if kind != "other":
                z = want_z(zs)
                rec.close(got.log_evidence, z, key, 1e-12, 1e-12, "evidence")
                rec.close(got.log_bayes_factor, z + 4., key, 1e-12, 1e-12, "Bayes factor")
                errs = [s[2] for s in specs]
                if all(np.isfinite(errs)):
                    w = np.exp(np.array(zs) - max(zs))
                    rec.close(got.log_evidence_err, np.sqrt(sum((w * errs) ** 2)) / sum(w), key, 1e-9, 1e-12, "evidence uncertainty")
                elif not any(np.isfinite(errs)):
                    rec.check(np.isnan(got.log_evidence_err), key, "uncertainty without any")
                else:
                    rec.check(0 < got.log_evidence_err <= max(e for e in errs if np.isfinite(e)) * (1 + 1e-12), key, f"uncertainty {got.log_evidence_err} of {errs}")
            if kind == "nested":
                rec.check(got.__dict__.get("_nested_samples") is None, key, "nested samples of one run kept")
            rec.check(got.label != rs[0].label, key, "label")
            rec.check([snap(r) for r in rs] == before, key, "an input changed")
            rec.state((kind, len(specs), len(post)))
            rec.transition()


class _null:
    def __enter__(self):
        pass

    def __exit__(self, *a):
        pass


def _p(change):
    def f(kw):
        p = priors()
        change(p)
        kw["priors"] = p
    return f


def _set(k, v):
    def f(p):
        p[k] = v()
    return f


def differences():
    from bilby.core.prior import Uniform, Sine, Cosine, DeltaFunction, Constraint, PriorDict
    return dict(
        prior_missing=_p(lambda p: p.pop("m")), prior_extra=_p(_set("d", lambda: Uniform(0, 1))), prior_missing_fixed=_p(lambda p: p.pop("c")),
        prior_fixed=_p(_set("c", lambda: 3.5)), prior_bounds=_p(_set("a", lambda: Uniform(-1, 2.1, "a"))), prior_name=_p(_set("a", lambda: Uniform(-1, 2, "A"))),
        prior_type=_p(_set("b", lambda: Cosine(name="b"))), prior_boundary=_p(_set("a", lambda: Uniform(-1, 2, "a", boundary="periodic"))),
        prior_delta=_p(_set("a", lambda: DeltaFunction(1., "a"))), prior_swapped=_p(lambda p: (p.pop("m"), p.update(dict(e=Constraint(0, 1, "m"))))),
        prior_constraint=_p(_set("d", lambda: Constraint(0, 1, "d"))),
        search_missing=lambda kw: kw.update(search_parameter_keys=["a"]), search_extra=lambda kw: kw.update(search_parameter_keys=["a", "b", "c"]),
        search_other=lambda kw: kw.update(search_parameter_keys=["a", "c"]),
        sampler=lambda kw: kw.update(sampler="nestle"), noise=lambda kw: kw.update(log_noise_evidence=-4.001), noise_nan=lambda kw: kw.update(log_noise_evidence=np.nan),
        nested=lambda kw: kw.update(nested_samples=None),
    )


def equal_forms():
    """changes which are no disagreement"""
    from bilby.core.prior import PriorDict, Uniform, Sine, Constraint
    return dict(
        prior_order=lambda kw: kw.update(priors=PriorDict(dict(m=Constraint(0, 1, "m"), c=3., b=Sine(name="b"), a=Uniform(-1, 2, "a")))), search_order=lambda kw: kw.update(search_parameter_keys=["b", "a"]),
        label=lambda kw: kw.update(label="other"), injection=lambda kw: kw.update(injection_parameters=None), noise_close=lambda kw: kw.update(log_noise_evidence=-4. + 1e-10),
        copied=lambda kw: kw.update(priors=priors()), 
        sampler_kwargs=lambda kw: kw.update(sampler_kwargs=dict(nlive=6)),
    )


def refusal(rec, item):
    import bilby
    import logging
    logging.getLogger("bilby").setLevel(logging.CRITICAL)
    R = bilby.core.result
    kind, name, n, dev = item
    harmless = name in equal_forms()
    f = (equal_forms() if harmless else differences())[name]
    for order in itertools.permutations(range(n)):
        for level in ("error", "warning", "ignore", "nonsense"):
            for shuffle in (False, True) if level == "error" else (False,):
                key = f"refusal/{kind}/{name}/{n}/{dev}/{order}/{level}/{shuffle}"
                rs = []
                for i in range(n):
                    kw = {}
                    if i in dev:
                        f(kw)
                    rs.append(result(kind, -1., .1, 20, i, **kw))
                rs = [rs[i] for i in order]
                before = [snap(r) for r in rs]
                bilby.core.utils.random.seed(3)
                try:
                    got = R.ResultList(rs).combine(shuffle=shuffle, consistency_level=level)
                    out = "combined"
                except R.ResultListError:
                    out = "refused"
                except ValueError as e:
                    out = "level" if "nonsense" in str(e) else "ValueError " + str(e)[:60]
                except Exception as e:
                    out = type(e).__name__ + " " + str(e)[:60]
                if name == "nested":
                    want = {"refused"} if kind == "nested" else {"combined"}
                elif harmless:
                    want = {"combined"}
                else:
                    want = {"refused"} if level == "error" else {"level"} if level == "nonsense" else {"combined"}
                rec.check(out in want, key, lambda: f"{out} instead of {want}")
                if out == "combined":
                    rec.equal(len(got.posterior), 20 * n, key, "samples")
                rec.check([snap(r) for r in rs] == before, key, "an input changed")
                rec.case(key)
                rec.transition()
                rec.outcome(out)
    rec.trace()


def history(rec, item):
    """reads of the inputs before combining, and of the combination, refer to their own samples"""
    import bilby
    import scipy.stats
    ops = dict(kde=lambda r: r.kde, covariance=lambda r: r.covariance_matrix, volume=lambda r: r.posterior_volume, prob=lambda r: r.posterior_probability(dict(a=.1, b=.2)),
               interval=lambda r: r.get_one_dimensional_median_and_error_bar("a"), levels=lambda r: r.get_all_injection_credible_levels(["a", "b"]))
    kind, n, first = item
    for seq in itertools.chain([()], *[itertools.product(ops, repeat=k) for k in (1, 2)]):
        key = f"history/{kind}/{n}/{first}/{'>'.join(seq)}"
        rs = [result(kind, -1. * (i == 1), .1, 30 + i, i) for i in range(n)]
        before = [snap(r) for r in rs]
        for o in seq:
            ops[o](rs[first])
        bilby.core.utils.random.seed(2)
        got = bilby.core.result.ResultList(rs).combine()
        others = [result(kind, -1. * (i == 1), .1, 30 + i, i) for i in range(n)]
        bilby.core.utils.random.seed(2)
        fresh = bilby.core.result.ResultList(others).combine()
        rec.equal(got.posterior.to_json(), fresh.posterior.to_json(), key, "posterior")
        k = scipy.stats.gaussian_kde(got.posterior[["a", "b"]].values.T)
        rec.close(got.kde([[.1], [.2]]), k([[.1], [.2]]), key, 1e-12, 0, "density")
        rec.close(np.ravel(got.posterior_probability(dict(b=.2, a=.1))), k([[.1], [.2]]), key, 1e-12, 0, "density at a point")
        for o in ops:
            if o != "kde":
                rec.equal(repr(ops[o](got)), repr(ops[o](fresh)), key, o)
        after = [snap(r) for r in rs]
        for a, b in zip(before, after):
            rec.check(all(a[c] == b[c] for c in a if c != "_kde"), key, lambda: "input changed " + str([c for c in a if a[c] != b[c]]))
        rec.case(key)
        rec.transition(len(seq) + 1)
    rec.trace()


def groups(tier, seed):
    deep = tier == "thorough"
    pool = [(z, e, n) for z in ((0., -.5, -3., 2., -1000.) if deep else (0., -.5, -3., 1000.)) for e, n in ((.1, 50), (.3, 100), (np.nan, 50))]
    lists = []
    for kind in ("nested", "mcmc", "other"):
        for k in (1, 2) + ((3,) if kind == "nested" or deep else ()):
            for spec in itertools.product(pool, repeat=k):
                if k == 3 and not deep and (len({s[0] for s in spec}) < 3 or len({s[1:] for s in spec}) == 3):
                    continue
                named = [(kind, *s, t + 1) for t, s in enumerate(spec)]
                for shuffle in (False, True):
                    lists.append((named, shuffle, "error"))
                if k == 2:
                    lists += [(named, False, lev) for lev in ("warning", "ignore")]
    items = [lists[i:i + 60] for i in range(0, len(lists), 60)]
    ref = []
    for kind in ("nested", "mcmc", "other"):
        for name in list(differences()) + list(equal_forms()):
            for n in (2, 3):
                for dev in [(i,) for i in range(n)] + ([(0, 2)] if n == 3 else []):
                    ref.append((kind, name, n, dev))
    return [Group("combine", items, combined, 600), Group("refusal", ref, refusal, 600),
            Group("history", [(k, n, f) for k in ("nested", "mcmc", "other") for n in (2, 3) for f in range(n)], history, 600)]
