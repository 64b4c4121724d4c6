"""C12: reweighting computes the importance weights of every sample and spares its input."""
import itertools
import os
import shutil
import tempfile
import numpy as np
from mc import fakerng
from mc.core import Group

PROPERTY = "C12"
LEVEL = "model_checking"
RULE = ("settings: new likelihood x new prior x old likelihood x old prior x nested or posterior samples x stored columns x conversion x pool size x checkpoint length x "
        "what a checkpoint file holds, each against weights computed sample by sample; the rejection step with every answer of the uniform variates on a "
        "lattice; interruptions: an evaluation failing at every sample of every pass, then resumed with every checkpoint length; histories: every sequence "
        "of reweightings of one result or of its reweighted results up to the depth bound; a case = one reweighting")
TECHNIQUE = "exhaustive enumeration of settings, interruption points and reweighting histories of the real functions against a sample-by-sample reference"
INF = float("inf")
N = 9


def classes():
    import bilby

    class Like(bilby.core.likelihood.Likelihood):
        """extra: depends on the fixed parameter as well; fail: raises at the sample whose a is this"""

        def __init__(self, k, fail=None):
            super().__init__(parameters=dict(a=None, b=None, c=None))
            self.k, self.fail = k, fail

        def log_likelihood(self):
            p = self.parameters
            if self.fail is not None and abs(p["a"] - self.fail) < 1e-9:
                raise RuntimeError("stop here")
            return -self.k * (p["a"] - .3) ** 2 + .7 * p["b"] + self.k * p["c"]
    globals()["Like"] = Like
    Like.__qualname__ = "Like"
    Like.__module__ = __name__
    return Like


def loglike(k, row):
    return -k * (row["a"] - .3) ** 2 + .7 * row["b"] + k * row["c"]


def priors(name):
    from bilby.core import prior as p
    if name is None:
        return None
    if name == "old":
        return p.PriorDict(dict(a=p.Uniform(-2, 2, "a"), b=p.Gaussian(0, 1, "b"), c=.5))
    if name == "new":
        return p.PriorDict(dict(a=p.Gaussian(.2, .6, "a"), b=p.Uniform(-3, 3, "b"), c=.5))
    if name == "narrow":  # excludes some samples
        return p.PriorDict(dict(a=p.Uniform(-.8, 2, "a"), b=p.Gaussian(0, 1, "b"), c=.5))
    if name == "partial":  # of one parameter only
        return p.PriorDict(dict(a=p.Gaussian(.2, .6, "a")))
    if name == "conditional":
        return p.ConditionalPriorDict(dict(a=p.Uniform(-2, 2, "a"), b=p.ConditionalGaussian(mu=0., sigma=1., name="b", condition_func=shifted), c=.5))
    raise KeyError(name)


def shifted(reference_params, a):
    return dict(mu=a, sigma=1.)


def lnprior(name, row):
    a, b = row["a"], row["b"]

    def g(x, m, s):
        return -.5 * ((x - m) / s) ** 2 - np.log(s) - .5 * np.log(2 * np.pi)

    def u(x, lo, hi):
        return -np.log(hi - lo) if lo <= x <= hi else -INF
    return dict(old=lambda: u(a, -2, 2) + g(b, 0, 1), new=lambda: g(a, .2, .6) + u(b, -3, 3), narrow=lambda: u(a, -.8, 2) + g(b, 0, 1), partial=lambda: g(a, .2, .6),
                conditional=lambda: u(a, -2, 2) + g(b, a, 1))[name]()


def make(d, stored=True, n=N):
    import bilby
    import pandas as pd
    rng = np.random.RandomState(4)
    post = pd.DataFrame(dict(b=rng.normal(size=n), a=np.linspace(-1.6, 1.7, n)[rng.permutation(n)], c=.5))
    rows = post.to_dict("records")
    post["log_likelihood"] = [loglike(2., r) for r in rows]
    if stored:
        post["log_prior"] = [lnprior("old", r) for r in rows]
    post["row"] = np.arange(n, dtype=float)
    nested = post[::-1].reset_index(drop=True).copy()
    nested["weights"] = np.array([0.] + list(np.arange(1., n))) / sum(range(n))
    return bilby.core.result.Result(label="lab", outdir=d, sampler="dynesty", posterior=post, nested_samples=nested, priors=priors("old"), search_parameter_keys=["a", "b"],
                                    fixed_parameter_keys=["c"], log_evidence=-3., log_noise_evidence=-11., log_bayes_factor=8., log_evidence_err=.1, meta_data=dict(note=[1]),
                                    injection_parameters=dict(a=.1, b=.2, c=.5))


def snap(r):
    out = {}
    for k, v in sorted(r.__dict__.items()):
        if k == "_kde":
            continue
        out[k] = (list(v.columns), v.to_json(double_precision=15)) if hasattr(v, "columns") else repr(v)
    return out


def expected(r, nl, npr, ol, op, nested):
    """rows of (old ln l, old ln p, new ln l, new ln p, ln w)"""
    post = (r.nested_samples if nested else r.posterior).to_dict("records")
    out = []
    for row in post:
        a = loglike(ol, row) if ol is not None else row["log_likelihood"]
        c = loglike(nl, row) if nl is not None else a
        if op is not None:
            b = lnprior(op, row)
        elif "log_prior" in row:
            b = row["log_prior"]
        elif npr is not None:
            b = lnprior("old", row)
        else:
            b = np.nan
        e = lnprior(npr, row) if npr is not None else b
        w = (c - a) * (nl is not None) + ((e - b) if npr is not None else 0.)
        if nested:
            w = w + np.log(row["weights"]) if row["weights"] > 0 else -INF
        out.append((a, b, c, e, w))
    return np.array(out).T


def lse(x):
    m = max(x)
    return m + np.log(sum(np.exp(np.array(x) - m)))


def convert(data_frame, likelihood, prior):
    data_frame = data_frame.copy()
    data_frame["twice"] = 2 * data_frame["a"]
    return data_frame


def convert_pool(data_frame, likelihood=None, priors=None, npool=1):
    data_frame = data_frame.copy()
    data_frame["twice"] = 2 * data_frame["a"] + 0 * npool
    return data_frame


def write_checkpoint(path, kind, r, args):
    """what a resume file may hold; 'own:k' is written by a pass interrupted after k samples"""
    from bilby.core.result import get_weights_for_reweighting
    if kind == "empty":
        open(path, "w").close()
    elif kind == "torn":
        with open(path, "w") as f:
            f.write("1.0 2.0 3")
    elif kind == "text":
        with open(path, "w") as f:
            f.write("not a checkpoint\n" * 4)
    elif kind == "finished":
        get_weights_for_reweighting(r, resume_file=path, n_checkpoint=100, **args)
    elif kind == "longer":
        get_weights_for_reweighting(make("x", n=N + 3), resume_file=path, n_checkpoint=100, **args)


def setting(rec, item):
    import bilby
    from bilby.core.result import reweight, get_weights_for_reweighting
    Like = classes()
    for cfg in item:
        nl, npr, ol, op, nested, stored, conv, npool, resume, ncheck, verbose = cfg
        key = "setting/" + "/".join(map(str, cfg))
        d = tempfile.mkdtemp(prefix="c12_")
        try:
            with rec.guard(key):
                r = make(d, stored)
                before = snap(r)
                args = dict(new_likelihood=None if nl is None else Like(nl), new_prior=priors(npr), old_likelihood=None if ol is None else Like(ol), old_prior=priors(op))
                path = os.path.join(d, "w.dat") if resume is not None else None
                if resume:
                    write_checkpoint(path, resume, r, args)
                want = expected(r, nl, npr, ol, op, nested)
                for u in (0., .25, .6, .999) if npool == 1 and conv is None else (.25,):
                    k2 = f"{key}/{u}"
                    if not nested and u == 0.:
                        got = get_weights_for_reweighting(r, npool=npool, resume_file=path, n_checkpoint=ncheck, **args)
                        for name, x, y in zip(("weights", "new likelihood", "new prior", "old likelihood", "old prior"), got, (want[4], want[2], want[3], want[0], want[1])):
                            rec.check(_same(x, y), k2, lambda: f"{name} {x} expected {y}")
                        rec.check(snap(r) == before, k2, "the original changed")
                    with fakerng.installed(fakerng.FakeRNG(lambda: u)):
                        out = reweight(r, label="new" if verbose else None, npool=npool, verbose_output=verbose, use_nested_samples=nested, resume_file=path, n_checkpoint=ncheck,
                                       conversion_function=dict(plain=convert, pool=convert_pool).get(conv), **args)
                    w = want[4]
                    rel = np.exp(w - max(w))
                    if verbose:
                        new = out[0]
                        for name, x, y in zip(("weights", "new likelihood", "new prior", "old likelihood", "old prior"), out[1:], (np.exp(w), want[2], want[3], want[0], want[1])):
                            rec.check(_same(x, y), k2, lambda: f"{name} {x} expected {y}")
                    else:
                        new = out
                    src = r.nested_samples if nested else r.posterior
                    keep = rel > u
                    post = new.posterior
                    rec.equal(post["row"].tolist(), src["row"][keep].tolist(), k2, "samples kept")
                    if len(post) == keep.sum():
                        rec.check(_same(post["log_likelihood"].values, want[2][keep]), k2, lambda: f"log_likelihood {post['log_likelihood'].values} expected {want[2][keep]}")
                        rec.check(_same(post["log_prior"].values, want[3][keep]), k2, lambda: f"log_prior {post['log_prior'].values} expected {want[3][keep]}")
                        for c in "abc":
                            rec.check(_same(post[c].values, src[c].values[keep]), k2, f"column {c}")
                        if conv:
                            rec.check("twice" in post and _same(post["twice"].values, 2 * post["a"].values), k2, "conversion not applied")
                    z = -3. + (lse(w) if nested else lse(w) - np.log(N))
                    rec.close(new.log_evidence, z, k2, 1e-12, 1e-12, "evidence")
                    rec.close(new.log_bayes_factor, z + 11., k2, 1e-12, 1e-12, "Bayes factor")
                    rec.check(list(post.index) == list(range(len(post))), k2, "index")
                    rec.check(new.label == "new" if verbose else new.label != r.label, k2, "label")
                    if npr is not None:
                        p = priors(npr)
                        rec.check(all(new.priors[c] == p[c] for c in p), k2, "priors of the new result")
                    else:
                        rec.check(new.priors == r.priors, k2, "priors")
                    rec.check(snap(r) == before, k2, lambda: "the original changed: " + str([c for c in before if before[c] != snap(r).get(c)]))
                    new.posterior["a"] = 99.
                    rec.check(snap(r) == before, k2, lambda: "editing the new result changes the original: " + str([c for c in before if before[c] != snap(r).get(c)]))
                    r = make(d, stored)
                    rec.case(k2)
                    rec.transition()
        finally:
            shutil.rmtree(d)
    rec.trace()


def _same(x, y):
    x, y = np.asarray(x, float), np.asarray(y, float)
    return x.shape == y.shape and np.allclose(x, y, rtol=1e-12, atol=1e-13, equal_nan=True)


def interrupted(rec, item):
    """stop at the evaluation of sample k, with each likelihood, then start again"""
    from bilby.core.result import reweight, get_weights_for_reweighting
    Like = classes()
    first, second, npool, npr, which = item
    for stops in [(k,) for k in range(N)] + ([(k, j) for k in range(N) for j in range(k, N)] if npool == 1 and first == second else []):
        key = f"interrupted/{first}/{second}/{npool}/{npr}/{which}/{stops}"
        d = tempfile.mkdtemp(prefix="c12_")
        try:
            r = make(d)
            before = snap(r)
            path = os.path.join(d, "w.dat")
            a = r.posterior["a"].values
            for k in stops:
                args = dict(new_likelihood=Like(3., a[k] if which == "new" else None), old_likelihood=Like(2., a[k] if which == "old" else None), new_prior=priors(npr))
                try:
                    get_weights_for_reweighting(r, npool=npool, resume_file=path, n_checkpoint=first, **args)
                    rec.fail(key, "the failing evaluation was not made")
                except RuntimeError:
                    pass
            with rec.guard(key):
                args = dict(new_likelihood=Like(3.), old_likelihood=Like(2.), new_prior=priors(npr))
                got = get_weights_for_reweighting(r, npool=npool, resume_file=path, n_checkpoint=second, **args)
                want = expected(r, 3., npr, 2., None, False)
                for name, x, y in zip(("weights", "new likelihood", "new prior", "old likelihood", "old prior"), got, (want[4], want[2], want[3], want[0], want[1])):
                    rec.check(_same(x, y), key, lambda: f"{name} {x} expected {y}")
                again = get_weights_for_reweighting(r, npool=npool, resume_file=path, n_checkpoint=second, **args)
                rec.check(all(_same(x, y) for x, y in zip(again, got)), key, "a finished checkpoint gives other weights")
                rec.check(snap(r) == before, key, "the original changed")
            rec.case(key)
            rec.transition(len(stops) + 2)
            rec.state((first, second, stops))
        finally:
            shutil.rmtree(d)
    rec.trace()


def histories(rec, item):
    """each reweighting starts from the original or from the previous result"""
    from bilby.core.result import reweight
    Like = classes()
    first, depth = item
    ops = dict(like3=(3., None), like1=(1., None), prior=(None, "new"), narrow=(None, "narrow"), both=(1.5, "new"), same=(2., "old"))
    for n in range(1, depth + 1):
        for seq in itertools.product(*[[first]] + [list(itertools.product(ops, ("original", "last")))] * (n - 1)):
            seq = [(first, "original")] + list(seq[1:])
            key = "history/" + ">".join(f"{o}@{w}" for o, w in seq)
            orig = make("x")
            before = snap(orig)
            last, lk, lp, lz = orig, 2., "old", -3.
            with rec.guard(key):
                for o, where in seq:
                    src, k0, p0, z0 = (orig, 2., "old", -3.) if where == "original" else (last, lk, lp, lz)
                    src_before = snap(src)
                    nl, npr = ops[o]
                    rows = src.posterior.to_dict("records")
                    w = [(loglike(nl, x) - loglike(k0, x) if nl is not None else 0.) + (lnprior(npr, x) - lnprior(p0, x) if npr is not None else 0.) for x in rows]
                    with fakerng.installed(fakerng.FakeRNG(lambda: .02)):
                        new = reweight(src, new_likelihood=None if nl is None else Like(nl), new_prior=priors(npr))
                    last, lk, lp = new, nl if nl is not None else k0, npr if npr is not None else p0
                    lz = z0 + lse(w) - np.log(len(w))
                    kept = [x for x, y in zip(rows, w) if np.exp(y - max(w)) > .02]
                    rec.equal(new.posterior["row"].tolist(), [x["row"] for x in kept], key, "samples")
                    rec.check(_same(new.posterior["log_likelihood"], [loglike(lk, x) for x in kept]), key, "log_likelihood")
                    rec.check(_same(new.posterior["log_prior"], [lnprior(lp, x) for x in kept]), key, "log_prior")
                    rec.close(new.log_evidence, lz, key, 1e-11, 1e-11, "evidence")
                    rec.check(snap(src) == src_before, key, "the source changed")
                    rec.check(snap(orig) == before, key, "the original changed")
                    rec.transition()
            rec.case(key)
    rec.trace()


def groups(tier, seed):
    deep = tier == "thorough"
    cfgs = []
    for nl, npr, ol, op, nested, stored in itertools.product((None, 3.), (None, "new", "narrow", "partial", "conditional"), (None, 1.), (None, "old"), (0, 1), (0, 1)):
        if npr is None and nl is None and not deep and (ol or op):
            continue
        cfgs.append((nl, npr, ol, op, nested, bool(stored), None, 1, None, 5000, bool(stored)))
    for npool in (1, 2, 3):
        for conv in (None, "plain", "pool"):
            cfgs += [(3., "new", ol, None, nested, True, conv, npool, None, 5000, False) for ol in (None, 2.) for nested in (0, 1)]
    for resume in ("", "empty", "torn", "text", "finished", "longer"):
        for ncheck in (1, 2, 4, 9, 100):
            for npool in (1, 2) if deep or ncheck == 4 else (1,):
                cfgs += [(3., npr, ol, None, 0, True, None, npool, resume, ncheck, True) for npr in (None, "narrow") for ol in (None, 2.)]
    items = [cfgs[i:i + 8] for i in range(0, len(cfgs), 8)]
    inter = [(f, s, npool, npr, w) for f in (1, 2, 4, 100) for s in ((1, 2, 4, 100) if deep else (2, 100)) for npool in (1, 2) for npr in (None, "new") for w in ("new", "old")
             if deep or not (npool == 2 and (f, s) != (2, 2))]
    ops = ("like3", "like1", "prior", "narrow", "both", "same")
    return [Group("setting", items, setting, 900), Group("interrupted", inter, interrupted, 900), Group("history", [(o, 3 if deep else 2) for o in ops], histories, 900)]
