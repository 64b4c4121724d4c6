"""C17: the chain store returns exactly what was appended."""
import copy
import itertools
import math
import pickle
import numpy as np
from mc.core import Group
from mc.fakerng import FakeRNG, installed

PROPERTY = "C17"
LEVEL = "model_checking"
RULE = ("all operation sequences up to the depth (append, overwrite, queries, setting changes, aliasing attempts, copy, pickle) on real chains with tiny array blocks, started from "
        "chains of several lengths, for several settings; after every operation the complete observable state is compared with a plain list model; a case = one (history, observation)")
TECHNIQUE = "stateless exploration of all operation sequences on the real chain against a list model"
ASSUMPTIONS = ["with an estimated autocorrelation length (none is fixed) its value between recomputations is taken from the chain; with a fixed one everything is computed by the model"]

KEYS = ["a", "b", "logl", "logp"]


def value(i):
    """the i-th distinct sample: likelihood climbs, then saturates"""
    return {"a": math.sin(1.7 * i), "b": 0.25 * i, "logl": -20. * math.exp(-i / 15) + 0.3 * math.cos(3. * i), "logp": -1.5 - 0.1 * (i % 3)}


class Model:
    def __init__(self, cfg):
        self.rows, self.next, self.cfg = [], 0, cfg
        self.discard, self.nact, self.prop, self.adapt = cfg["fixed_discard"], cfg["burn_in_nact"], 0, 0
        self.seen = -np.inf
        self.tauq = False  # an autocorrelation length may be kept from an earlier query
        self.queried = False  # an autocorrelation length may have been recorded as unknown

    def push(self, s, at=None):
        r = tuple(s[k] for k in KEYS)
        if at is None:
            self.rows.append(r)
        else:
            self.rows[at] = r
        self.seen = max(self.seen, s["logl"])

    @property
    def position(self):
        return len(self.rows) - 1

    def minimum(self):
        """set of admissible burn-in indices, and the floor common to all"""
        p = self.position
        if p < self.discard:
            return {self.discard}, self.discard
        lst = [self.discard, self.prop, self.adapt]
        lp = np.array([r[2] + r[3] for r in self.rows])
        if len(lp) >= 100:
            c = np.cumsum(np.concatenate([[0], lp]))
            ave = (c[100:] - c[:-100]) / 100
            ok = np.nonzero(lp.max() - ave < 1.0)[0]
            if len(ok):
                lst.append(ok[0] + 99 + 1)
        floor = int(max(lst))
        if self.cfg["fixed_tau"] is None:
            return None, floor
        tau = max(self.cfg["fixed_tau"], self.cfg["min_tau"])
        full = int(max(lst + [self.nact * tau]))
        long = p >= 2 * self.cfg["autocorr_c"]
        if self.queried:
            return {floor, full}, floor
        return {full if long else floor}, floor


def config(fixed_tau=1, discard=0, nact=1, thin=1, block=2, c=1, min_tau=1):
    return dict(fixed_tau=fixed_tau, fixed_discard=discard, burn_in_nact=nact, thin_by_nact=thin, block_length=block, autocorr_c=c, min_tau=min_tau)


CFGS = [config(), config(3, 2, 2, 1, 1), config(None, 0, 1, 1, 3), config(2.5, 0, 0, 2, 5), config(None, 4, 3, 0.5, 2, 5)]


def start(cfg, n):
    from bilby.bilby_mcmc.chain import Chain, Sample
    m = Model(cfg)
    ch = None
    for i in range(n):
        s = value(i)
        if ch is None:
            ch = Chain(Sample(dict(s)), **cfg)
        else:
            ch.append(Sample(dict(s)))
        m.push(s)
        m.next += 1
    return ch, m


OPS = ["append", "append_rev", "append_alias", "over_last", "over_first", "over_rev", "bad_index", "q_min", "q_samples", "q_tau", "q_nsamples", "mutate_current", "mutate_item",
       "discard+", "discard-", "nact", "prop", "adapt", "copy", "pickle"]


def apply(ch, m, op, rec, key):
    from bilby.bilby_mcmc.chain import Sample
    from bilby.core.sampler.base_sampler import SamplerError
    s = value(m.next)
    if op.startswith("append"):
        m.next += 1
        x = Sample(dict(reversed(list(s.items()))) if op == "append_rev" else dict(s))
        ch.append(x)
        m.push(s)
        if op == "append_alias":
            x["a"] = 99.
            x["logl"] = 1e9
    elif op.startswith("over"):
        m.next += 1
        i = 0 if op == "over_first" else -1
        ch[i] = Sample(dict(reversed(list(s.items()))) if op == "over_rev" else dict(s))
        m.push(s, i)
    elif op == "bad_index":
        n = len(m.rows)
        for i in (n, n + 1, -n - 1, -n - 3):
            for how in ("get", "set"):
                try:
                    if how == "get":
                        ch[i]
                    else:
                        ch[i] = Sample(value(500))
                    rec.fail(key + "/bad_index", f"index {i} accepted with {n} samples ({how})")
                except (SamplerError, IndexError):
                    pass
    elif op == "q_min":
        ch.minimum_index
    elif op.startswith("q_"):
        # an autocorrelation length is (re)estimated here; it is unknown on a short useful stretch
        m.tauq = True
        p, (adm, _) = m.position, m.minimum()
        if adm is None or p - max(adm) < 2 * m.cfg["autocorr_c"]:
            m.queried = True
        _ = {"q_samples": lambda: ch.samples, "q_tau": lambda: ch.tau, "q_nsamples": lambda: ch.nsamples}[op]()
    elif op == "mutate_current":
        c = ch.current_sample
        c["a"] = 77.
        c["logl"] = 1e8
    elif op == "mutate_item":
        c = ch[0]
        c["a"] = 77.
    elif op == "discard+":
        m.discard += 3
        ch.fixed_discard = m.discard
    elif op == "discard-":
        m.discard = 0
        ch.fixed_discard = 0
    elif op == "nact":
        m.nact += 2
        ch.burn_in_nact = m.nact
    elif op == "prop":
        m.prop = max(m.prop, 5)
        ch.minimum_index_proposal = 5
        ch.minimum_index_proposal = 4  # never goes back
    elif op == "adapt":
        m.adapt = max(m.adapt, m.position)
        ch.minimum_index_adapt = m.position
    elif op == "copy":
        ch = copy.deepcopy(ch)
    elif op == "pickle":
        ch = pickle.loads(pickle.dumps(ch))
    return ch


def observe(ch, m, rec, key):
    n = len(m.rows)
    rec.check(ch.position == n - 1, key + "/position", f"{ch.position}")
    for i in sorted({0, n // 2, n - 1, -1, -n}):
        rec.check(ch[i].dict == dict(zip(KEYS, m.rows[i])), key + "/item", f"{i}: {ch[i]} {m.rows[i]}")
    rec.check(ch.current_sample.dict == dict(zip(KEYS, m.rows[-1])), key + "/current", f"{ch.current_sample} {m.rows[-1]}")
    rec.check(ch.current_sample.parameter_only_dict == dict(zip("ab", m.rows[-1])), key + "/current", "parameters")
    for j, k in enumerate(KEYS):
        rec.check(list(ch.get_1d_array(k)) == [r[j] for r in m.rows], key + "/array", k)
    rec.check(ch.max_log_likelihood == m.seen, key + "/max", f"{ch.max_log_likelihood} {m.seen}")
    for u in (0., 0.999999):
        with installed(FakeRNG(lambda: u)):
            r = ch.random_sample
        rec.check(tuple(r[k] for k in KEYS) in m.rows, key + "/random", f"{r}")
    a, b = copy.deepcopy(ch), copy.deepcopy(ch)
    adm, floor = m.minimum()
    mi = a.minimum_index
    rec.check(mi >= floor if adm is None else mi in adm, key + "/minimum", f"{mi} {adm} {floor}")
    rec.check(a.minimum_index == mi, key + "/minimum", "repeated query")
    # thinned samples
    df = b.samples
    mb, tau = b.minimum_index, b.tau
    rec.check(mb == mi, key + "/minimum", f"{mb} after other queries, {mi}")
    thin = max(1, int(m.cfg["thin_by_nact"] * tau)) if np.isfinite(tau) else 1
    if m.cfg["fixed_tau"] is not None:
        exp = max(m.cfg["fixed_tau"], m.cfg["min_tau"])
        rec.check(np.isinf(tau) or tau == exp, key + "/tau", f"{tau}")
        if not m.tauq:
            rec.check(np.isfinite(tau) == (n - 1 - mb >= 2 * m.cfg["autocorr_c"]), key + "/tau", f"{tau} {n} {mb}")
    want = m.rows[mb:n - 1:thin]
    rec.check(list(df.columns) == KEYS and [tuple(r) for r in df.values] == want, key + "/samples", lambda: f"{len(df)} {len(want)} min={mb} thin={thin}")
    ns, use = b.nsamples, n - 1 - mb
    rec.check(ns == (max(0, int(use / tau / m.cfg["thin_by_nact"])) if use >= int(use / tau / m.cfg["thin_by_nact"]) else 0), key + "/nsamples", f"{ns} {use} {tau}")
    rec.check(b.samples.equals(df), key + "/samples", "repeated query")
    rec.case(n=12)


def histories(rec, item):
    ci, n0, first, depth = item
    root = start(CFGS[ci], n0)

    def go(ch, m, hist):
        for op in OPS if hist or first is None else [first]:
            c, k = copy.deepcopy(ch), copy.deepcopy(m)
            h = hist + (op,)
            key = f"cfg{ci}/n{n0}/{op}"
            with rec.guard(key + "/raises"):
                c = apply(c, k, op, rec, key)
                before = len(rec.failures)
                observe(c, k, rec, key)
                if len(rec.failures) > before:
                    rec.failures[before] = (rec.failures[before][0], f"history {h}: " + rec.failures[before][1])
                    continue
                rec.transition()
                rec.case((ci, n0) + h)
                if len(h) < depth:
                    go(c, k, h)
    go(*root, ())
    rec.state((ci, n0, first))
    rec.trace()


def growth(rec, item):
    """long appends across many array extensions, read once at the end and after each one"""
    ci, block, n, every = item
    cfg = dict(CFGS[ci], block_length=block)
    ch, m = start(cfg, 1)
    key = f"growth/{item}"
    from bilby.bilby_mcmc.chain import Sample
    with rec.guard(key):
        for i in range(1, n):
            s = value(i)
            ch.append(Sample(dict(s)))
            m.push(s)
            m.next += 1
            if every and i % every == 0:
                adm, _ = m.minimum()
                if adm is None or m.position - max(adm) < 2 * cfg["autocorr_c"]:
                    m.queried = True
                m.tauq = True
                ch.samples
        observe(ch, m, rec, key)
        rec.case(key)
        # the same samples in a chain of another block size
        other, mo = start(dict(cfg, block_length=n + 7), n)
        rec.check(all(np.array_equal(other.get_1d_array(k), ch.get_1d_array(k)) for k in KEYS), key, "block size changes the record")


def samples(rec, item):
    """the sample record itself: all insertion orders and assignments"""
    from bilby.bilby_mcmc.chain import Sample
    order, extra = item
    key = f"sample/{item}"
    with rec.guard(key):
        base = {"a": 1., "b": 2., "logl": -3., "logp": -4.}
        s = Sample({k: base[k] for k in order})
        m = {k: base[k] for k in order}
        for k in extra:
            s[k] = m[k] = m.get(k, 0.) + 10.
            rec.check(s[k] == m[k] and s.dict == m and s.list == list(m.values()) and s.keys == list(m), key, f"{s} {m}")
            par = [q for q in m if q not in ("logl", "logp")]
            rec.check(s.parameter_keys == par and s.ndim == len(par) and s.parameter_only_dict == {q: m[q] for q in par}, key, f"parameters {s.parameter_keys} {par}")
            rec.check(s.as_dict(list(m)[:1]) == {list(m)[0]: m[list(m)[0]]} and s.as_dict() == m, key, "as_dict")
        c = s.copy()
        rec.check(c == s and c.dict == m, key, "copy")
        c[order[0]] = 55.
        rec.check(s.dict == m and c != s, key, "copy shares values")
        rec.case(key)


def groups(tier, seed):
    depth = 3 if tier == "quick" else 4
    h = [(c, n, o, depth if n < 100 or tier != "quick" else 2) for c in range(len(CFGS)) for n in (1, 2, 5, 13, 130) for o in OPS]
    g = [(c, b, n, e) for c in range(len(CFGS)) for b in (1, 2, 7, 100) for n in (2, 8, 101, 300) for e in (0, 1, 10)]
    orders = [o for n in (1, 2, 3, 4) for o in itertools.permutations(KEYS, n)]
    s = [(o, e) for o in orders for n in (1, 2) for e in itertools.product(KEYS + ["c"], repeat=n)]
    return [Group("histories", h, histories, 600), Group("growth", g, growth, 200), Group("samples", s, samples, 60)]
