"""C03: conditional priors honour their dependency graph: every digraph, declaration order, key order, history.

Enumerated: all labelled digraphs on 3 (quick) / 3 and 4 (thorough) parameters x declaration orders x families of
distributions x key orders of every call x scalar/array arguments x earlier evaluations.  Oracle: an independent evaluator that
walks the graph in topological order with closed-form conditionals.
"""
import itertools
import numpy as np
import scipy.special as sp
from mc.core import Group
from mc import fakerng

PROPERTY = "C03"
LEVEL = "model_checking"
TECHNIQUE = "exhaustive dependency graphs, orders and short histories on real collections vs an independent evaluator"
RULE = ("one case = (graph, families, declaration order, call, key order, history); non-trivial = at least one edge")
ASSUMPTIONS = ["conditionals are smooth closed-form families; values between lattice points behave like lattice points"]


# ------------------------------------------------------------------ closed-form conditionals
def settings(fam, s):
    """numerical settings of a node given the sum s of its parents' values"""
    if fam == "U":
        return dict(minimum=0.2 * s, maximum=0.2 * s + 1 + 0.1 * s * s)
    if fam == "G":
        return dict(mu=0.5 * s, sigma=1 + 0.1 * s * s)
    if fam == "L":
        return dict(minimum=1 + 0.1 * s * s, maximum=3 + 0.3 * s * s)
    if fam == "P":
        return dict(alpha=1 + 0.2 * s * s, minimum=0.5 + 0 * s, maximum=2 + 0 * s)
    if fam == "S":
        return dict(minimum=0.1 + 0 * s, maximum=1.2 + 0.01 * s * s)


def dist(fam, s):
    p = settings(fam, s)
    class D:
        pass
    d = D()
    if fam == "G":
        m, w = p["mu"], p["sigma"]
        d.ppf = lambda q: m + w * sp.ndtri(q)
        d.cdf = lambda x: sp.ndtr((x - m) / w)
        d.pdf = lambda x: np.exp(-0.5 * ((x - m) / w) ** 2) / w / np.sqrt(2 * np.pi)
        return d
    a, b = p["minimum"], p["maximum"]
    if fam == "U":
        d.ppf = lambda q: a + q * (b - a)
        d.cdf = lambda x: np.clip((x - a) / (b - a), 0, 1)
        d.pdf = lambda x: np.where((x >= a) & (x <= b), 1 / (b - a), 0)
    if fam == "L":
        lr = np.log(b / a)
        d.ppf = lambda q: a * np.exp(q * lr)
        d.cdf = lambda x: np.log(np.clip(x, a, b) / a) / lr
        d.pdf = lambda x: np.where((x >= a) & (x <= b), 1 / np.abs(x) / lr, 0)
    if fam == "P":
        n = p["alpha"] + 1
        d.ppf = lambda q: (a ** n + q * (b ** n - a ** n)) ** (1 / n)
        d.cdf = lambda x: np.clip((np.clip(x, a, b) ** n - a ** n) / (b ** n - a ** n), 0, 1)
        d.pdf = lambda x: np.where((x >= a) & (x <= b), n * np.abs(x) ** (n - 1) / (b ** n - a ** n), 0)
    if fam == "S":
        nrm = np.cos(a) - np.cos(b)
        d.ppf = lambda q: np.arccos(np.cos(a) - q * nrm)
        d.cdf = lambda x: (np.cos(a) - np.cos(np.clip(x, a, b))) / nrm
        d.pdf = lambda x: np.where((x >= a) & (x <= b), np.sin(x) / nrm, 0)
    return d


REAL = dict(U="Uniform", G="Gaussian", L="LogUniform", P="PowerLaw", S="Sine")


def cond_func(fam, parents):
    return eval(f"lambda reference_params, {', '.join(parents)}: S({fam!r}, {' + '.join(parents)})", dict(S=settings))


def node(fam, parents):
    import bilby.core.prior as P
    if fam.startswith("D"):
        return P.DeltaFunction(float(fam[1:]))
    if parents:
        return getattr(P, "Conditional" + REAL[fam])(condition_func=cond_func(fam, parents), **settings(fam, 0.0))
    return getattr(P, REAL[fam])(**settings(fam, 0.0))


def topo(graph):
    done, order = set(), []
    while len(order) < len(graph):
        ready = [k for k in graph if k not in done and all(p in done for p in graph[k])]
        if not ready:
            return None
        done.add(ready[0])
        order.append(ready[0])
    return order


def graphs(names):
    pairs = [(p, c) for c in names for p in names if p != c]
    for bits in itertools.product([0, 1], repeat=len(pairs)):
        g = {n: [] for n in names}
        for on, (p, c) in zip(bits, pairs):
            if on:
                g[c].append(p)
        yield g


def ref_rescale(graph, fams, theta):
    val = {}
    for k in topo(graph):
        if fams[k].startswith("D"):
            val[k] = float(fams[k][1:]) + 0 * theta.get(k, 0.0)
        else:
            val[k] = dist(fams[k], sum(val[p] for p in graph[k]) if graph[k] else 0.0).ppf(theta[k])
    return val


def ref_each(graph, fams, pt, what):
    out = {}
    for k in graph:
        if fams[k].startswith("D"):
            v = float(fams[k][1:])
            out[k] = np.where(pt[k] == v, np.inf if what == "pdf" else 1, 0) if what == "pdf" else np.where(pt[k] < v, 0., 1.)
        else:
            s = sum(pt[p] for p in graph[k]) if graph[k] else 0.0
            out[k] = getattr(dist(fams[k], s), what)(pt[k])
    return out


def build(graph, fams, order):
    import bilby.core.prior as P
    return P.ConditionalPriorDict({k: node(fams[k], graph[k]) for k in order})


THETA = [[0.2, 0.5, 0.9, 0.35], [0.7, 0.05, 0.4, 0.8], [0.5, 0.99, 0.01, 0.6]]


def preludes(d, names, free):
    """earlier evaluations that must not matter"""
    slow = any(type(d[k]).__name__ == "ConditionalPowerLaw" for k in names)

    def none():
        pass

    def prob():
        d.ln_prob({k: 0.77 + 0.1 * i for i, k in enumerate(names)}, normalized=not slow)

    def arr():
        if slow:
            return
        d.ln_prob({k: np.array([0.1, 0.2, 0.9]) + i for i, k in enumerate(names)}, axis=0, normalized=False)

    def resc():
        d.rescale(list(free)[::-1], [0.91, 0.13, 0.44, 0.5][:len(free)])

    def smp():
        d.sample(3)

    def cdf():
        d.cdf({k: 0.4 + 0.2 * i for i, k in enumerate(names)})

    def subset():
        if free:
            roots = [k for k in names if not getattr(d[k], "required_variables", None)]
            d.sample_subset(keys=roots, size=2)

    def other():
        for k in names:
            if not getattr(d[k], "required_variables", None):
                d[k].sample(4)
    return dict(none=none, prob=prob, arr=arr, rescale=resc, sample=smp, cdf=cdf, subset=subset, direct=other)


def run(rec, item):
    graph, famlist, order = item
    names = sorted(graph)
    fams = dict(zip(names, famlist))
    nedge = sum(map(len, graph.values()))
    order_ok = topo(graph)
    lab = f"{'/'.join(famlist)}:{{{','.join(p + '>' + c for c in names for p in graph[c])}}}:{''.join(order)}"
    # real dependency graph: edges into a fixed parameter have no effect
    g = {k: ([] if fams[k].startswith("D") else graph[k]) for k in names}
    free = [k for k in order if not fams[k].startswith("D")]
    d0 = build(g, fams, order)
    if order_ok is None and topo(g) is None:
        from bilby.core.prior import IllegalConditionsException as E
        for nm, f in (("sample", lambda: d0.sample()), ("sample3", lambda: d0.sample(3)),
                      ("prob", lambda: d0.prob({k: 0.5 for k in names})), ("ln_prob", lambda: d0.ln_prob({k: .5 for k in names})),
                      ("rescale", lambda: d0.rescale(free, [0.5] * len(free))), ("cdf", lambda: d0.cdf({k: .5 for k in names}))):
            rec.case(f"{lab}:cyclic:{nm}")
            try:
                f()
                rec.fail(f"cyclic-accepted:{nm}", lab)
            except E:
                pass
            except Exception as e:
                rec.fail(f"cyclic-wrong-error:{nm}", f"{lab}: {e!r}")
        return
    if order_ok is None:
        return
    slow = any(fams[k] == "P" and g[k] for k in names)
    perms = list(itertools.permutations(names)) if len(names) <= 3 else list(itertools.permutations(names))[::5]
    for pre in ("none", "prob", "arr", "rescale", "sample", "cdf", "subset", "direct"):
        d = build(g, fams, order)
        if pre != "none" and any(f.startswith("D") for f in famlist) and pre in ("prob", "arr", "cdf"):
            pts = {k: (float(fams[k][1:]) if fams[k].startswith("D") else 0.6) for k in names}
            getattr(d, "prob" if pre != "cdf" else "cdf")(pts)
        else:
            preludes(d, names, free)[pre]()
        for pi, perm in enumerate(perms):
            if pre != "none" and pi not in (0, len(perms) - 1):
                continue
            rec.transition()
            rec.trace()
            rec.state((lab, pre, perm))
            fkeys = [k for k in perm if k in free]
            for ti, th in enumerate(THETA if pre == "none" else THETA[:2]):
                t = dict(zip(names, th))
                v = ref_rescale(g, fams, t)
                if fkeys:
                    got = d.rescale(fkeys, [t[k] for k in fkeys])
                    rec.case(f"{lab}:{pre}:{perm}:rescale{ti}" if nedge else None)
                    rec.close(got, [v[k] for k in fkeys], f"rescale:{pre}", 1e-7, 1e-9, f"{lab} {perm} {th}")
                pt = {k: float(v[k]) for k in perm}
                c = d.cdf(dict(pt))
                rec.case(f"{lab}:{pre}:{perm}:cdf{ti}" if nedge else None)
                for k in free:
                    rec.close(np.reshape(c[k], ()), t[k], f"cdf:{pre}", 1e-6, 1e-8, f"{lab} {perm} {k}")
                rec.check(list(c) == list(perm), "cdf-keys")
                # densities at the transformed point and at a shifted (possibly outside) one
                for sh in (0.0, 0.11, -0.6):
                    q = {k: pt[k] + (0 if fams[k].startswith("D") else sh) for k in perm}
                    e = ref_each(g, fams, q, "pdf")
                    exp = float(np.prod([e[k] for k in free]))
                    qf = {k: q[k] for k in perm if k in free} if any(f.startswith("D") for f in famlist) else q
                    # (the normalisation estimate behind prob() draws 500000 samples per key order: not on every order)
                    full = not slow and pre in ("none", "rescale") and pi == 0
                    gl = d.ln_prob(dict(qf), normalized=full)
                    got = d.prob(dict(qf)) if full else exp
                    rec.case(f"{lab}:{pre}:{perm}:prob{ti}{sh}" if nedge else None)
                    rec.close(got, exp, f"prob:{pre}", 1e-7, 1e-12, f"{lab} {q}")
                    with np.errstate(all="ignore"):
                        rec.close(gl, np.log(exp), f"ln_prob:{pre}", 1e-7, 1e-9, f"{lab} {q}")
            if slow:
                continue  # documented: a power law cannot take an array of conditional exponents
            # arrays
            t = {k: np.array([r[i] for r in THETA]) for i, k in enumerate(names)}
            v = ref_rescale(g, fams, t)
            for kind in ("array", "list"):
                if fkeys:
                    if kind == "list":
                        got = d.rescale(tuple(fkeys), np.array([t[k] for k in fkeys]))
                    else:
                        got = d.rescale(fkeys, [t[k] for k in fkeys])
                    rec.case(f"{lab}:{pre}:{perm}:rescale-{kind}" if nedge else None)
                    rec.close(np.reshape(got, (len(fkeys), -1)), np.array([v[k] for k in fkeys]), f"rescale-array:{pre}", 1e-7, 1e-9, lab)
            q = {k: np.array(v[k], float) + np.array([0, 0.07, -0.5]) * (k in free) for k in perm if k in free}
            qq = {k: (q[k] if k in free else np.full(3, float(fams[k][1:]))) for k in names}
            e = ref_each(g, fams, qq, "pdf")
            exp = np.prod([e[k] for k in free], axis=0) if free else np.ones(3)
            if free:
                snap = {k: q[k].copy() for k in q}
                if pi == 0 and pre == "none":
                    rec.close(d.prob(dict(q), axis=0), exp, f"prob-array:{pre}", 1e-7, 1e-12, lab)
                rec.close(d.ln_prob(dict(q), axis=0, normalized=False), np.log(exp), f"ln_prob-array:{pre}", 1e-7, 1e-9, lab)
                ec = ref_each(g, fams, qq, "cdf")
                gc = d.cdf(dict(q))
                for k in free:
                    rec.close(gc[k], ec[k], f"cdf-array:{pre}", 1e-6, 1e-9, lab)
                rec.check(all(np.array_equal(snap[k], q[k]) for k in q), "input-modified", lab)
        # sampling: the values are the transform of the uniforms that were drawn, all of them
        for size in (None, 1, 3, (2, 2)):
            used = []
            base = lcg()

            def unit():
                u = base()
                used.append(u)
                return u
            with fakerng.installed(fakerng.FakeRNG(unit)):
                try:
                    s = d.sample(size)
                except Exception as ex:
                    rec.fail(f"sample-raised:{'PS'['P' not in famlist]}", f"{lab} {size} {ex!r}")
                    continue
            rec.case(f"{lab}:{pre}:sample{size}" if nedge else None)
            rec.check(sorted(s) == names, "sample-keys", f"{lab} {sorted(s)}")
            shape = () if size is None else np.empty(size).shape
            if not rec.check(all(np.shape(s[k]) == shape or (size == 1) for k in free), "sample-shape", f"{lab} {size} {[np.shape(s[k]) for k in s]}"):
                continue
            flat = {k: np.ravel(s[k]) if k in free else np.full(np.size(s[k]), float(fams[k][1:])) for k in s}
            n = max(np.size(flat[k]) for k in s)
            flat = {k: np.broadcast_to(flat[k], (n,)) for k in s}
            ec = ref_each(g, fams, flat, "cdf")
            us = np.array(used)
            for k in free:
                for q in ec[k]:
                    rec.check(np.min(np.abs(us - q)) < 1e-6, f"sample-not-conditional:{pre}", f"{lab} {size} {k} cdf={ec[k]} drawn={us}")
            allq = np.concatenate([ec[k] for k in free]) if free else np.array([])
            if len(allq):
                rec.check(len(np.unique(np.round(allq, 9))) == len(allq), "sample-draw-shared", f"{lab} {size} {ec}")


def lcg():
    x = [987654]

    def u():
        x[0] = (1103515245 * x[0] + 12345) % (1 << 31)
        return (x[0] + 0.5) / (1 << 31)
    return u


def missing(rec, _):
    """dependencies on parameters that are not there"""
    import bilby.core.prior as P
    E = P.IllegalConditionsException
    for has in itertools.product([0, 1], repeat=2):
        prs = dict(c=node("U", ["a", "b"]))
        if has[0]:
            prs["a"] = node("U", [])
        if has[1]:
            prs["b"] = P.DeltaFunction(0.5)
        for order in itertools.permutations(prs):
            d = P.ConditionalPriorDict({k: prs[k] for k in order})
            for nm, f in (("sample", lambda: d.sample()), ("rescale", lambda: d.rescale([k for k in order if k != "b"], [0.5] * (len(order) - has[1]))),
                          ("prob", lambda: d.prob({k: 0.5 for k in order})), ("ln_prob", lambda: d.ln_prob({k: 0.5 for k in order}))):
                rec.case(f"missing:{has}:{order}:{nm}")
                try:
                    f()
                    rec.check(all(has), f"unsatisfiable-accepted:{nm}", f"{has} {order}")
                except E:
                    rec.check(not all(has), f"satisfiable-rejected:{nm}", f"{has} {order}")
            if not all(has):
                # supplying the missing parent repairs it
                for k in "ab":
                    if k not in d:
                        d[k] = node("U", [])
                rec.check(sorted(d.sample()) == ["a", "b", "c"], "still-rejected")
    # a subset that lacks a parent cannot be sampled; one that has it can
    d = P.ConditionalPriorDict(dict(a=node("U", []), b=node("U", ["a"]), c=node("U", ["b"]), z=P.DeltaFunction(2.0)))
    for n in range(1, 4):
        for sub in itertools.permutations("abc", n):
            ok = all(set(p) <= set(sub) for k, p in (("b", "a"), ("c", "b")) if k in sub)
            for size in (None, 3):
                rec.case(f"subset:{sub}:{size}")
                try:
                    s = d.sample_subset(keys=list(sub), size=size)
                    rec.check(ok and sorted(s) == sorted(sub), "subset-accepted", f"{sub} {s}")
                except E:
                    rec.check(not ok, "subset-rejected", str(sub))


def fixedparent(rec, _):
    """a fixed parent: children see the fixed value whatever was evaluated before"""
    import bilby.core.prior as P
    for peak in (0.5, 2.0):
        for order in itertools.permutations("abc"):
            for hist in itertools.product(["none", "prob_at", "prob_off", "cdf_off", "sample", "lnarr"], repeat=2):
                d = P.ConditionalPriorDict({k: dict(a=lambda: P.DeltaFunction(peak), b=lambda: node("U", ["a"]), c=lambda: node("G", ["b"]))[k]()
                                            for k in order})
                for h in hist:
                    if h == "prob_at":
                        d.prob(dict(a=peak, b=0.9, c=0.1))
                    elif h == "prob_off":
                        d.prob(dict(a=peak + 1, b=0.9, c=0.1))
                    elif h == "cdf_off":
                        d.cdf(dict(a=peak - 1, b=0.9, c=0.1))
                    elif h == "sample":
                        d.sample(2)
                    elif h == "lnarr":
                        d.ln_prob(dict(a=np.full(2, peak), b=np.array([0.1, 0.4]), c=np.zeros(2)), axis=0)
                g = dict(a=[], b=["a"], c=["b"])
                f = dict(a=f"D{peak}", b="U", c="G")
                v = ref_rescale(g, f, dict(a=0.0, b=0.3, c=0.6))
                rec.case(f"fixedparent:{peak}:{order}:{hist}")
                rec.transition()
                rec.close(d.rescale(["c", "b"], [0.6, 0.3]), [v["c"], v["b"]], f"fixed-parent-rescale:{hist[-1]}", 1e-7, 1e-9, f"{peak} {order} {hist}")
                e = ref_each(g, f, v, "pdf")
                rec.close(d.prob(dict(b=v["b"], c=v["c"])), e["b"] * e["c"], f"fixed-parent-prob:{hist[-1]}", 1e-7, 1e-9, f"{peak} {order} {hist}")


def dirichlet(rec, n):
    """Dirichlet elements: uniform density on the simplex"""
    import math
    import bilby.core.prior as P
    for perm in itertools.islice(itertools.permutations(range(n - 1)), 24):
        d = P.DirichletPriorDict(n_dim=n, label="x_")
        keys = [f"x_{i}" for i in perm]
        for th in itertools.product([0.1, 0.5, 0.85], repeat=n - 1):
            v = dict(zip(keys, d.rescale(keys, list(th))))
            rec.case(f"dirichlet:{n}:{perm}:{th}")
            tot = sum(v.values())
            rec.check(0 <= tot <= 1 and min(v.values()) >= 0, "dirichlet-outside", f"{v}")
            # stick-breaking: element i given the previous ones is Beta(1, n-1-i) of what is left
            left, t = 1.0, dict(zip(keys, th))
            for i in range(n - 1):
                x = v[f"x_{i}"] / left
                rec.close(1 - (1 - x) ** (n - 1 - i), t[f"x_{i}"], "dirichlet-conditional", 1e-6, 1e-8, f"{n} {perm} {th}")
                left -= v[f"x_{i}"]
            rec.close(d.prob(dict(v)), float(math.factorial(n - 1)), "dirichlet-density", 1e-6, 0, f"{n} {v}")
            c = d.cdf(dict(v))
            for k in keys:
                rec.close(np.reshape(c[k], ()), t[k], "dirichlet-cdf", 1e-6, 1e-9)
            bad = dict(v)
            bad[keys[0]] = bad[keys[0]] + 1
            rec.check(d.prob(bad) == 0, "dirichlet-outside-density", f"{bad}")


def groups(tier, seed):
    items = []
    fl = [("U", "G", "L"), ("P", "U", "S"), ("U", "U", "U")]
    for g in graphs("abc"):
        for f in fl + [("D0.5", "U", "G"), ("U", "D1.5", "U")]:
            orders = list(itertools.permutations("abc"))
            if f == ("U", "U", "U") or f[0][0] == "D" or f[1][0] == "D":
                orders = orders if tier == "thorough" else [orders[0], orders[-1]]
            elif f[0] == "P" and tier != "thorough":
                orders = orders[::2]
            for o in orders:
                items.append((g, f, o))
    if tier == "thorough":
        for g in graphs("abcd"):
            if topo(g):
                for o in ("abcd", "dcba", "bdac"):
                    items.append((g, ("U", "G", "P", "L"), tuple(o)))
    return [Group("graphs", items, run), Group("missing", ["x"], missing), Group("fixed", ["x"], fixedparent),
            Group("dirichlet", [2, 3, 4, 5], dirichlet)]
