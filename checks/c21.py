"""C21: the population likelihood is the sum over events of the log mean importance weight of that event's own samples."""
import copy
import itertools
import pickle
import numpy as np
from mc.core import Group

PROPERTY = "C21"
LEVEL = "model_checking"
RULE = ("every combination of event sizes x sampling-prior source x frame layout x truncation x evidences x population model (1-3 factors, cached or not), "
        "each driven through every operation history up to the depth bound (set or replace parameters, evaluate, evaluate the model elsewhere, resample, "
        "copy, pickle); rows used must be distinct rows of the right event and the value the written-out sum; a case = one (configuration, history)")
TECHNIQUE = "bounded exhaustive exploration of configurations and operation histories of the real objects against an independent evaluation of the defining sum"

COLS = ("a", "b")


def raw(i, n):
    """event i: n rows, all different"""
    r = np.array([[.1 + .07 * j + .31 * i, 1. + .4 * ((3 * j + i) % 7) + .01 * j] for j in range(n)])
    return r[:, 0], r[:, 1]


def pa(a):
    return .5 + a ** 2


def pb(b):
    return 2. / (1 + b)


def sampling(dataset):
    return pa(dataset["a"]) * pb(dataset["b"])


def sampling_par(dataset, k):
    return pa(dataset["a"]) * pb(dataset["b"]) * k


class SamplingB:
    def __call__(self, dataset):
        return pb(dataset["b"])


def sampling_a(data):
    return pa(data["a"])


def frames(sizes, source, index):
    import pandas as pd
    out = []
    for i, n in enumerate(sizes):
        a, b = raw(i, n)
        p = pa(a) * pb(b)
        d = dict(a=a, b=b)
        if source == "prior" or (source == "mixed" and i % 2 == 0):
            d["prior"] = p
        elif source in ("log_prior", "mixed"):
            d["log_prior"] = np.log(p)
        elif source == "overridden":
            d["prior"] = 17. + a
        if source == "extra" or source == "priordict_extra":
            d["zz"] = a * 0 + i
            if source == "extra":
                d["prior"] = p
                if i == 0:
                    d["only_here"] = a * 0
        f = pd.DataFrame(d)
        if index == "shift":
            f.index = np.arange(n) + 100 * i + 7
        elif index == "reverse":
            f = f.iloc[::-1]
        elif index == "dup":
            f.index = np.zeros(n, int)
        out.append(f)
    return out


def prior_object(source):
    import bilby
    from bilby.hyper.model import Model
    if source in ("prior", "log_prior", "mixed", "extra"):
        return None
    if source in ("func", "overridden"):
        return sampling
    if source == "model":
        return Model([sampling_a, SamplingB()])
    if source == "model_nocache":
        return Model([sampling], cache=False)
    if source == "model_par":
        m = Model([sampling_par])
        m.parameters["k"] = 1.
        return m
    x = np.linspace(-1, 30, 400001)
    return None if source is None else bilby.core.prior.PriorDict(dict(a=bilby.core.prior.Uniform(0, 4), b=bilby.core.prior.PowerLaw(-1, .5, 20)))


def prior_value(source, a, b):
    if source.startswith("priordict"):
        return .25 * (1 / (b * np.log(20 / .5)))
    return pa(a) * pb(b)


def fa(dataset, mu, s):
    return np.exp(-.5 * ((dataset["a"] - mu) / s) ** 2) / s


def fb(data, lam):
    return lam * np.exp(-lam * data["b"])


class FC:
    variable_names = ["mu", "kap"]

    def __call__(self, dataset, mu, kap):
        return (1 + kap * dataset["a"] * dataset["b"]) / (1 + mu ** 2)


class FD:
    def __call__(self, dataset, kap):
        return np.where(dataset["a"] > kap, 1., 0.)


def fint(dataset):
    return np.where(np.asarray(dataset["a"]) > -1, 2, 0)


FACT = dict(a=fa, b=fb, c=FC(), d=FD(), i=fint)
WANT = dict(a=("mu", "s"), b=("lam",), c=("mu", "kap"), d=("kap",), i=())
POINTS = [dict(mu=.2, s=.5, lam=.7, kap=.15), dict(mu=.6, s=1.5, lam=.2, kap=.4), dict(mu=.2, s=.5, lam=.2, kap=9.)]


def population(model, p, a, b):
    v = np.ones(np.shape(a))
    for c in model:
        if c == "a":
            v = v * np.exp(-.5 * ((a - p["mu"]) / p["s"]) ** 2) / p["s"]
        elif c == "b":
            v = v * p["lam"] * np.exp(-p["lam"] * b)
        elif c == "c":
            v = v * (1 + p["kap"] * a * b) / (1 + p["mu"] ** 2)
        elif c == "d":
            v = v * np.where(a > p["kap"], 1., 0.)
        else:
            v = v * 2
    return v


def build(cfg):
    from bilby.hyper.likelihood import HyperparameterLikelihood
    from bilby.hyper.model import Model
    sizes, source, index, mx, ev, model, how = cfg
    posts = frames(sizes, source, index)
    keep = [f.copy() for f in posts]
    hp = FACT[model] if how == "bare" and len(model) == 1 else Model([FACT[c] for c in model], cache=how != "nocache")
    kw = {}
    if mx is not None:
        kw["max_samples"] = mx
    if ev:
        kw["log_evidences"] = [1.5 * (i + 1) for i in range(len(sizes))]
    L = HyperparameterLikelihood(posts, hp, sampling_prior=prior_object(source), **kw)
    return L, posts, keep, hp


def rows_ok(rec, L, cfg, n, key):
    """the rows used: n different rows of each event, columns together"""
    sizes, source = cfg[0], cfg[1]
    d = L.data
    if not rec.check(np.shape(d["a"]) == (len(sizes), n) and np.shape(d["b"]) == (len(sizes), n) and np.shape(d["prior"]) == (len(sizes), n), key, f"shapes {np.shape(d['a'])} {n}"):
        return None
    for i, m in enumerate(sizes):
        a, b = raw(i, m)
        idx = [int(np.argmin(abs(a - v))) for v in d["a"][i]]
        rec.check(len(set(idx)) == n, key, f"rows of event {i} used more than once: {idx}")
        rec.equal(d["a"][i], a[idx], key, "not this event's samples")
        rec.equal(d["b"][i], b[idx], key, "columns of different samples mixed")
        rec.close(d["prior"][i], prior_value(source, a[idx], b[idx]), key, 1e-9, 0, f"sampling prior of event {i}")
    return d["a"], d["b"]


def expected(rec, L, cfg, p, key):
    sizes, source, index, mx, ev, model, how = cfg
    a, b = np.array(L.data["a"]), np.array(L.data["b"])
    tot = 0.
    with np.errstate(all="ignore"):
        for i in range(len(sizes)):
            w = population(model, p, a[i], b[i]) / prior_value(source, a[i], b[i])
            tot += np.log(sum(w) / len(w))
    return tot, sum(1.5 * (i + 1) for i in range(len(sizes))) if ev else np.nan


def compare(rec, L, cfg, p, key):
    tot, ev = expected(rec, L, cfg, p, key)
    with np.errstate(all="ignore"):
        r, n, l = L.log_likelihood_ratio(), L.noise_log_likelihood(), L.log_likelihood()
    if tot == -np.inf:
        rec.check(r < -1e300 and (np.isnan(ev) or l < -1e300), key, f"impossible event gives {r}")
    else:
        rec.close(r, tot, key, 1e-9, 1e-9, "ratio")
        rec.close(l, tot + ev, key, 1e-9, 1e-9, "log likelihood")
    rec.close(n, ev, key, 1e-12, 0, "evidence")


OPS = ["set1", "set2", "set0", "one", "replace1", "eval", "elsewhere", "resample", "resample2", "copy", "pickle"]


def run(rec, item):
    cfg, histories = item
    sizes, source, index, mx, ev, model, how = cfg
    n0 = min(min(sizes), mx) if mx is not None else min(sizes)
    for ops in histories:
        key = f"{'-'.join(map(str, sizes))}/{source}/{index}/{mx}/{ev}/{model}/{how}/{'+'.join(ops)}"
        with rec.guard(key):
            L, posts, keep, hp = build(cfg)
            n = n0
            rows_ok(rec, L, cfg, n, key)
            p = dict(POINTS[0])
            L.parameters.update(p)
            compare(rec, L, cfg, p, key)
            for o in ops:
                if o.startswith("set"):
                    p = dict(POINTS[int(o[-1])])
                    L.parameters.update(p)
                elif o == "replace1":
                    p = dict(POINTS[1])
                    L.parameters = dict(reversed(list(p.items())))
                elif o == "one":
                    p["kap"] = p["kap"] + .05
                    L.parameters["kap"] = p["kap"]
                elif o == "eval":
                    compare(rec, L, cfg, p, key)
                elif o == "elsewhere":
                    import pandas as pd
                    a, b = raw(5, 4)
                    got = L.hyper_prior.prob(dict(a=a, b=b))
                    if L.hyper_prior.parameters is L.parameters or all(L.hyper_prior.parameters.get(k) == p[k] for c in model for k in WANT[c]):
                        rec.close(got, population(model, p, a, b), key, 1e-12, 0, "model on other data")
                    L.hyper_prior.prob(pd.DataFrame(dict(a=a[:1], b=b[:1])))
                elif o == "resample":
                    L.data = L.resample_posteriors()
                    rows_ok(rec, L, cfg, n, key)
                elif o == "resample2":
                    n = min(2, n)
                    L.data = L.resample_posteriors(max_samples=n)
                    rows_ok(rec, L, cfg, n, key)
                elif o == "copy":
                    L = copy.deepcopy(L)
                elif o == "pickle":
                    L = pickle.loads(pickle.dumps(L))
                rec.transition()
                rec.state((cfg, o, n, tuple(p.values())))
            compare(rec, L, cfg, p, key)
            compare(rec, L, cfg, p, key)
            for f, g in zip(posts, keep):
                rec.equal(f, g, key, "the caller's samples were changed")
            rec.trace()
            rec.case(key)


def models(rec, item):
    """Model.prob on its own: product of its factors at the current parameters on the given data"""
    from bilby.hyper.model import Model
    import pandas as pd
    model, cache, depth = item
    data = [dict(a=raw(0, 3)[0], b=raw(0, 3)[1]), dict(a=raw(1, 3)[0], b=raw(1, 3)[1]), pd.DataFrame(dict(a=raw(2, 4)[0], b=raw(2, 4)[1])),
            dict(a=np.array(raw(3, 6)[0]).reshape(2, 3), b=np.array(raw(3, 6)[1]).reshape(2, 3)), dict(a=.4, b=2.)]
    moves = list(itertools.product(range(len(data)), range(len(POINTS))))
    for seq in itertools.product(moves, repeat=depth):
        key = f"model/{model}/{cache}/{seq}"
        with rec.guard(key):
            m = Model([FACT[c] for c in model], cache=cache)
            results = []
            for d, q in seq:
                p = POINTS[q]
                m.parameters.update(p)
                got = m.prob(data[d])
                want = population(model, p, np.array(data[d]["a"]), np.array(data[d]["b"]))
                rec.close(np.array(got, float) * np.ones(np.shape(want)), want, key, 1e-12, 0)
                results.append((got, np.array(got).copy()))
                rec.transition()
            for g, h in results:
                rec.equal(np.array(g), h, key, "an earlier result changed")
            rec.trace()
            rec.case(key)


def groups(tier, seed):
    deep = tier == "thorough"
    sizes = [(1,), (3,), (2, 2), (3, 2), (2, 5), (4, 2, 3)]
    sources = ["prior", "log_prior", "mixed", "extra", "func", "overridden", "model", "model_nocache", "model_par", "priordict", "priordict_extra"]
    h1 = [(o,) for o in OPS]
    cfgs = []
    for s, so, ix, mx in itertools.product(sizes, sources, ("default", "shift", "reverse", "dup"), (None, 1, 2, 1000)):
        cfgs.append(((s, so, ix, mx, (len(cfgs) % 2 == 0), "ab", "cache"), [("eval",), ("set1", "eval", "set0")]))
    for s, md, how, ev in itertools.product([(3, 2), (2, 5), (4, 2, 3)], ("a", "b", "c", "d", "ab", "ac", "abc", "cb", "dab", "ia", "ai", "cd", "bb"), ("cache", "nocache", "bare"), (False, True)):
        if how == "bare" and len(md) > 1:
            continue
        cfgs.append(((s, "func", "shift", None, ev, md, how), h1 + list(itertools.product(OPS, repeat=2))))
    deepcfg = [((4, 2, 3), "func", "shift", 3, True, "abc", "cache"), ((3, 2), "model", "default", None, False, "cd", "cache"), ((2, 5), "log_prior", "dup", None, True, "a", "bare")]
    for c in deepcfg:
        for first in OPS:
            cfgs.append((c, [(first,) + r for r in itertools.product(OPS, repeat=3 if deep else 2)]))
    ml = [(m, c, 3 if deep else 2) for m in ("a", "b", "c", "ab", "abc", "dab", "ia", "cd") for c in (True, False)]
    return [Group("run", cfgs, run, 200), Group("models", ml, models, 120)]
