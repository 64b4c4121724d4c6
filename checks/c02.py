"""C02: a prior collection behaves like a freshly built one with the same contents after any edit history.

Alphabet: insert/replace (free, fixed, conditional, constraint, number), delete, pop, update, setdefault, popitem-like
clears, bound edits, evaluation of everything, continue-on-a-copy.  Bound: all sequences up to depth 3 (quick) / 4 (thorough)
from several starting collections.  Oracle: a new collection built from an independent list of the same specifications.
"""
import itertools
import numpy as np
from mc.core import Group
from mc import fakerng

PROPERTY = "C02"
LEVEL = "model_checking"
TECHNIQUE = "exhaustive operation histories on real prior collections vs freshly built ones"
RULE = "one case = one operation history; non-trivial = it contains an edit after an evaluation or changes the contents"
ASSUMPTIONS = ["in-place edits of a member's bounds do not refresh an already computed constraint normalisation (known finding)"]


def cond_a(reference_params, a):
    return dict(minimum=a, maximum=a + 1)


def cond_b(reference_params, b):
    return dict(minimum=b, maximum=b + 2)


def cond_c(reference_params, c):
    return dict(minimum=c, maximum=c + 3)


CONDS = dict(a=cond_a, b=cond_b, c=cond_c)


def make(spec):
    import bilby.core.prior as P
    k = spec[0]
    if k == "U":
        return P.Uniform(spec[1], spec[2])
    if k == "P":
        return P.PowerLaw(1.5, spec[1], spec[2])
    if k == "D":
        return P.DeltaFunction(spec[1])
    if k == "C":
        return P.Constraint(spec[1], spec[2])
    if k == "cond":
        return P.ConditionalUniform(condition_func=CONDS[spec[1]], minimum=0, maximum=1)
    raise ValueError(spec)


def build(cls, contents, conv=None):
    import bilby.core.prior as P
    c = getattr(P, cls)
    kw = {} if conv is None else dict(conversion_function=conv)
    return c({k: make(s) for k, s in contents.items()}, **kw)


def conversion(sample):
    out = dict(sample)
    if "a" in out and "b" in out:
        out["s"] = out["a"] + out["b"]
    return out


SETS = {
    "set a=U(2,3)": ("a", ("U", 2., 3.)), "set b=U(0,4)": ("b", ("U", 0., 4.)), "set b=P": ("b", ("P", 1., 2.)),
    "set a=D(.5)": ("a", ("D", 0.5)), "set c=D(.7)": ("c", ("D", 0.7)), "set c=C": ("c", ("C", 0., 1.)),
}
CSETS = {
    "set b|a": ("b", ("cond", "a")), "set a|b": ("a", ("cond", "b")), "set c|b": ("c", ("cond", "b")),
}


def ops(cls):
    o = list(SETS) + ["num c", "del a", "del b", "pop b", "popdef c", "update", "setdefault c", "clear", "max a", "max b", "eval", "copy"]
    if cls == "ConditionalPriorDict":
        o += list(CSETS)
        o.remove("set b=P")
        o.remove("set c=D(.7)")
        o.remove("clear")
    return o


class Skip(Exception):
    pass


def apply(op, obj, model, cls):
    """apply op to the real object and to the model (ordered dict of specs); returns the object to continue with"""
    if op in SETS or op in CSETS:
        k, s = (SETS.get(op) or CSETS.get(op))
        obj[k] = make(s)
        model[k] = s
    elif op == "num c":
        obj["c"] = 0.25
        obj.convert_floats_to_delta_functions()
        model["c"] = ("D", 0.25)
    elif op.startswith("del "):
        k = op[4:]
        if k not in model:
            raise Skip
        del obj[k]
        del model[k]
    elif op == "pop b":
        if "b" not in model:
            raise Skip
        obj.pop("b")
        model.pop("b")
    elif op == "popdef c":
        obj.pop("c", None)
        model.pop("c", None)
    elif op == "update":
        new = dict(b=("U", 1., 5.), d=("U", -1., 0.))
        obj.update({k: make(s) for k, s in new.items()})
        model.update(new)
    elif op == "setdefault c":
        obj.setdefault("c", make(("U", 0., 9.)))
        model.setdefault("c", ("U", 0., 9.))
    elif op == "clear":
        obj.clear()
        model.clear()
        obj["a"] = make(("U", 0., 1.))
        model["a"] = ("U", 0., 1.)
    elif op in ("max a", "max b"):
        k = op[4:]
        if k not in model or model[k][0] not in "UP":
            raise Skip
        hi = model[k][2] + 0.5
        obj[k].maximum = hi
        model[k] = (model[k][0], model[k][1], hi)
    elif op == "eval":
        observe(obj, model)
    elif op == "copy":
        obj = obj.copy()
    return obj


POINTS = [0.3, 0.8, 2.5]


def lcg():
    x = [12345]

    def u():
        x[0] = (1103515245 * x[0] + 12345) % (1 << 31)
        return (x[0] + 0.5) / (1 << 31)
    return u


def attempt(f):
    try:
        r = f()
    except Exception as e:
        return ("raised", "IllegalConditions" if type(e).__name__ == "IllegalConditionsException" else "error")
    return r


def num(x):
    if isinstance(x, dict):
        return {k: np.asarray(v, float).tolist() for k, v in x.items()}
    if isinstance(x, tuple) and x and x[0] == "raised":
        return x
    return np.asarray(x, float).tolist()


def observe(d, model):
    """everything a user can observe, as plain numbers"""
    out = {}
    out["keys"] = list(d.keys())
    out["nonfixed"] = attempt(lambda: list(d.non_fixed_keys))
    out["fixed"] = attempt(lambda: list(d.fixed_keys))
    out["constraint"] = attempt(lambda: list(d.constraint_keys))
    free = [k for k in model if model[k][0] != "C"]
    nf = [k for k in free if model[k][0] != "D"]
    constrained = len(free) != len(model)
    if free:
        with fakerng.installed(fakerng.FakeRNG(lcg())):
            if not constrained:
                out["sample"] = num(attempt(lambda: d.sample()))
                out["sample3"] = num(attempt(lambda: d.sample(3)))
            out["subset"] = num(attempt(lambda: d.sample_subset(keys=list(free), size=2)))
            if not constrained:
                out["asarray"] = num(attempt(lambda: d.sample_subset_constrained_as_array(keys=list(free), size=2)))
        for i, p in enumerate(POINTS):
            pt = {k: p + 0.1 * j for j, k in enumerate(sorted(free))}
            out[f"ln{i}"] = num(attempt(lambda: d.ln_prob(dict(pt), normalized=False)))
            if not constrained:
                out[f"p{i}"] = num(attempt(lambda: d.prob(dict(pt))))
            out[f"cdf{i}"] = num(attempt(lambda: dict(d.cdf(dict(pt)))))
            out[f"con{i}"] = num(attempt(lambda: d.evaluate_constraints(dict(pt))))
        arr = {k: np.array(POINTS) + 0.1 * j for j, k in enumerate(sorted(free))}
        out["lnarr"] = num(attempt(lambda: d.ln_prob(dict(arr), axis=0, normalized=False)))
    if nf:
        th = [0.2 + 0.15 * j for j in range(len(nf))]
        out["rescale"] = num(attempt(lambda: d.rescale(nf, th)))
        out["rescale_r"] = num(attempt(lambda: d.rescale(nf[::-1], th)))
        out["rescale2"] = num(attempt(lambda: d.rescale(nf, [1 - t for t in th])))
        if all(model[k][0] != "cond" for k in nf):
            out["rescale_1"] = num(attempt(lambda: d.rescale(nf[:1], th[:1]))) if len(nf) == 1 else None
    return out


STARTS = {
    "PriorDict": [dict(a=("U", 0., 1.), b=("U", 1., 2.), c=("D", 0.5)), dict(b=("P", 1., 3.), a=("U", 0., 1.))],
    "ConditionalPriorDict": [dict(a=("U", 0., 1.), b=("U", 1., 2.), c=("D", 0.5)),
                             dict(c=("cond", "b"), b=("cond", "a"), a=("U", 0., 1.))],
}


EXPECTED = {}


def explore(rec, item):
    cls, si, prefix, depth = item
    start = STARTS[cls][si]
    alphabet = ops(cls)
    for n in range(1, depth - len(prefix) + 1):
        for rest in itertools.product(alphabet, repeat=n):
            seq = prefix + rest
            model = dict(start)
            obj = build(cls, start)
            try:
                for op in seq:
                    obj = apply(op, obj, model, cls)
            except Skip:
                continue
            got = observe(obj, model)
            ck = (cls, tuple(model.items()))
            if ck not in EXPECTED:
                EXPECTED[ck] = observe(build(cls, model), model)
            exp = EXPECTED[ck]
            rec.case(f"{cls}{si}:" + ";".join(seq))
            rec.transition()
            rec.trace()
            rec.state((cls, tuple(model.items())))
            rec.outcome(repr(got))
            if repr(got) != repr(exp):
                diff = [k for k in exp if repr(got.get(k)) != repr(exp[k])]
                rec.fail(f"history:{cls}:{diff[0]}", f"start={start} ops={seq}: {[(k, got.get(k), exp[k]) for k in diff][:3]}")
            if "copy" in seq:
                rec.check(dict(obj) == dict(build(cls, model)) or "max" in "".join(seq), f"copy-equal:{cls}", f"{seq}")


# ---------------------------------------------------------------- copies, caller data, conversion functions
def independence(rec, cls):
    import bilby
    from copy import deepcopy
    base = dict(a=("U", 0., 1.), b=("U", 1., 2.), c=("D", 0.5))
    for op in [o for o in ops(cls) if o not in ("eval", "copy", "max a", "max b")]:
        m = dict(base)
        d = build(cls, base)
        before = observe(d, base)
        c = d.copy()
        apply(op, c, dict(base), cls)
        rec.case(f"copy-edit:{cls}:{op}")
        rec.check(repr(observe(d, base)) == repr(before), f"copy-not-independent:{cls}", op)
        d = build(cls, base)
        c = d.copy()
        bc = observe(c, base)
        apply(op, d, dict(base), cls)
        rec.check(repr(observe(c, base)) == repr(bc), f"copy-not-independent:{cls}", "original edited: " + op)
    # conversion functions follow copies
    P = bilby.core.prior
    d = getattr(P, cls)(dict(a=P.Uniform(0, 1), b=P.Uniform(0, 1), s=P.Constraint(0, 1)), conversion_function=conversion)
    for o, nm in ((d, "original"), (d.copy(), "copy"), (d.copy().copy(), "copy-copy"), (deepcopy(d), "deepcopy")):
        rec.case(f"conversion:{cls}:{nm}")
        rec.check(not o.evaluate_constraints(dict(a=0.9, b=0.9)) and bool(o.evaluate_constraints(dict(a=0.1, b=0.2))),
                  f"conversion-function-lost:{cls}:{nm}")
    # building from user data leaves it alone
    for k, data in dict(nums=dict(a=1.0, b=2), strs=dict(a="Uniform(minimum=0, maximum=1)", b="3.0"), mixed=dict(
            a=P.Uniform(0, 1), b=4, c="Gaussian(mu=0, sigma=1)"),
            joint=dict(mvg="MultivariateGaussianDist(names=['a','b'], mus=[0,0], covs=[[1,0],[0,1]])",
                       a="MultivariateGaussian(dist=mvg, name='a')", b="MultivariateGaussian(dist=mvg, name='b')")).items():
        snap = dict(data)
        types = {q: type(v) for q, v in data.items()}
        try:
            getattr(P, cls)(data)
        except Exception as e:
            rec.fail(f"build-raised:{cls}:{k}", repr(e))
            continue
        rec.case(f"caller-data:{cls}:{k}")
        rec.check(list(data) == list(snap) and all(type(data[q]) is types[q] for q in data), f"caller-data-modified:{cls}:{k}",
                  f"{snap} became {data}")
    d = getattr(P, cls)(dict(a=P.Uniform(0, 1), c=P.Constraint(0, 1), b=P.Uniform(0, 2)))
    for size in (None, 1, 4):
        keys = ["a", "c", "b"]
        d.sample_subset_constrained(keys=keys, size=size)
        rec.case(f"keys-list:{cls}:{size}")
        rec.check(keys == ["a", "c", "b"], f"caller-keys-modified:{cls}", f"size={size}: {keys}")
    data = dict(a=P.Uniform(0, 1), b=P.Uniform(0, 1))
    o = getattr(P, cls)(data)
    o["a"] = 3.0
    o["z"] = P.Uniform(0, 1)
    rec.check(list(data) == ["a", "b"] and isinstance(data["a"], P.Uniform), f"caller-data-linked:{cls}")
    theta = [0.1, 0.2]
    o2 = getattr(P, cls)(dict(data))
    o2.rescale(["a", "b"], theta)
    rec.check(theta == [0.1, 0.2], f"theta-modified:{cls}")
    pt = dict(a=0.3, b=0.4)
    for f in ("prob", "ln_prob", "cdf", "evaluate_constraints"):
        getattr(o2, f)(pt)
    rec.check(pt == dict(a=0.3, b=0.4), f"sample-modified:{cls}")


# ---------------------------------------------------------------- constraint normalisation follows the contents
def normalisation(rec, item):
    """contents-changing histories with a constraint: normalised prob equals the analytic one"""
    cls, seq = item
    import bilby.core.prior as P
    state = dict(a=2.0, b=1.0, lim=1.0)  # a~U(0,A), b~U(0,B), constraint a < lim*A... expressed directly on a

    def fresh():
        return getattr(P, cls)(dict(a=P.Uniform(0, 2), b=P.Uniform(0, 1), s=P.Constraint(-1, 1)), conversion_function=conv)

    def conv(sample):
        out = dict(sample)
        if "a" in out:
            out["s"] = out["a"] - 0
        return out
    d = fresh()
    A, B, lim = 2.0, 1.0, 1.0
    from bilby.core.utils import random as br
    br.seed(123)
    for op in seq:
        if op == "prob":
            d.prob(dict(a=0.5, b=0.5))
        elif op == "ln_prob":
            d.ln_prob(dict(a=0.5, b=0.5))
        elif op == "con=.5":
            d["s"] = P.Constraint(-1, 0.5 + 1e-9)
            lim = 0.5
        elif op == "con=1.5":
            d["s"] = P.Constraint(-1, 1.5)
            lim = 1.5
        elif op == "a=U(0,4)":
            d["a"] = P.Uniform(0, 4)
            A = 4.0
        elif op == "b=U(0,3)":
            d["b"] = P.Uniform(0, 3)
            B = 3.0
        elif op == "nocon":
            d.pop("s", None)
            lim = A
        elif op == "update":
            d.update(dict(s=P.Constraint(-1, 0.8)))
            lim = 0.8
        elif op == "edit":
            d["a"].maximum = 8.0
            A = 8.0
        if "s" not in d:
            lim = A
    exp = 1 / A / B / min(1.0, lim / A)
    got = d.prob(dict(a=0.4, b=0.5))
    got2 = np.exp(d.ln_prob(dict(a=0.4, b=0.5)))
    key = f"normalisation:{cls}:" + ";".join(seq)
    rec.case(key)
    rec.transition()
    rec.trace()
    rec.state((cls, A, B, lim))
    fk = f"normalisation-after-edit:{cls}" if "edit" not in seq else f"normalisation-after-inplace-bound-edit:{cls}"
    rec.check(abs(got / exp - 1) < 0.04 and abs(got2 / exp - 1) < 0.04, fk, f"{seq}: prob {got} exp(ln_prob) {got2} expected {exp}")


def groups(tier, seed):
    depth = 3 if tier == "quick" else 4
    items = []
    for cls in STARTS:
        for si in range(len(STARTS[cls])):
            items.append((cls, si, (), 1))
            for op in ops(cls):
                items.append((cls, si, (op,), min(depth, 3)))
                if depth > 3:
                    for op2 in ops(cls):
                        for op3 in ops(cls):
                            items.append((cls, si, (op, op2, op3), 4))
    nops = ["con=.5", "con=1.5", "a=U(0,4)", "b=U(0,3)", "nocon", "update"]
    seqs = [("prob",) + s for n in (1, 2) for s in itertools.product(nops, repeat=n)]
    seqs += [("ln_prob", s) for s in nops] + [(s, "prob", t) for s in nops for t in nops]
    norm = [(cls, s) for cls in STARTS for s in (seqs if tier == "thorough" else seqs[:24] + seqs[42:60])]
    norm += [(cls, ("prob", "edit")) for cls in STARTS]
    return [Group("histories", items, explore),
            Group("independence", list(STARTS), independence),
            Group("normalisation", norm, normalisation)]
