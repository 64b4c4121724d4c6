"""C09: a signal at any point of an analysis leaves a usable checkpoint, the configured exit code, and a run that resumes."""
import os
import signal
import sys
import numpy as np
from checks import c08
from mc import crash
from mc.core import Group

PROPERTY = "C09"
LEVEL = "model_checking"
RULE = ("signals: every line of the package's sampler code reached by an analysis (at its first, a middle and its last execution; thorough: more executions) x signal, "
        "per sampler and pool size, followed by a restart (and, in a second group, by a second signal and another restart); continuation: the process ended after "
        "every checkpoint, the resumed analysis compared with the uninterrupted one; handlers: every way the analysis can end x previous handler; a case = one "
        "delivered signal or interruption")
TECHNIQUE = "exhaustive signal injection at every executed line of the real sampler code, restart and recovery checked for each delivery point; resumed runs compared with the uninterrupted run"

SAMPLERS = dict(c08.SAMPLERS)
_fu = dict(first_update=dict(min_ncall=1, min_eff=100.), seed=3, dlogz=.5, n_check_point=60, bound="live")
LONGER = dict(rwalk=dict(_fu, sample="rwalk"), acceptance=dict(_fu, sample="acceptance-walk"), act=dict(_fu, sample="act-walk"),
              multi=dict(_fu, bound="live-multi", sample="acceptance-walk"), native=dict(_fu, sample="rwalk_dynesty", bound="multi"), slice=dict(_fu, sample="rslice", bound="single", slices=2))
FILES = ("core/sampler/", "bilby_mcmc/")


class Tracer:
    """counts the lines executed below the package's sampler modules; at number `at` raises the signal"""

    def __init__(self, at=None, sig=None, keep=False):
        self.at, self.sig, self.n, self.log, self.known = at, sig, 0, [] if keep else None, {}
        self.delivered = None

    def start(self):
        import bilby
        self.root = os.path.dirname(os.path.abspath(bilby.__file__))
        sys.settrace(self.call)

    def wanted(self, code):
        w = self.known.get(code)
        if w is None:
            f = code.co_filename
            w = self.known[code] = f.startswith(self.root) and any(x in f[len(self.root):] for x in FILES) or (f == c08.__file__ and code.co_name == "log_likelihood")
        return w

    def call(self, frame, event, arg):
        return self.line if self.wanted(frame.f_code) else None

    def line(self, frame, event, arg):
        if event == "line":
            # only while the analysis has its own handlers: before and after the default action ends the process
            if getattr(signal.getsignal(self.sig or signal.SIGTERM), "__name__", "") == "write_current_state_and_exit":
                self.n += 1
                if self.log is not None:
                    self.log.append((os.path.basename(frame.f_code.co_filename), frame.f_lineno, frame.f_code.co_name))
                if self.n == self.at:
                    sys.settrace(None)
                    self.delivered = f"{os.path.basename(frame.f_code.co_filename)}:{frame.f_code.co_name}"
                    os.kill(os.getpid(), self.sig)
        return self.line


def points(log, per_line):
    """indices (from 1) of the executions of each line: the first, the last and evenly spaced others"""
    where = {}
    for i, l in enumerate(log, 1):
        where.setdefault(l, []).append(i)
    out = set()
    for idx in where.values():
        m = min(per_line, len(idx))
        out |= {idx[0], idx[-1]} | {idx[int(j * (len(idx) - 1) / max(1, m - 1))] for j in range(m)}
    return sorted(out)


def warm(name):
    import importlib
    import bilby.core.sampler  # noqa
    import h5py, dill, matplotlib.pyplot  # noqa
    for m in {"dynesty_multi": ["dynesty"], "bilby_mcmc": ["bilby.bilby_mcmc"]}.get(name, [name]):
        importlib.import_module(m)


def finished(name, d):
    """restart and judge; None or what is wrong"""
    import bilby
    r = c08.analyse(d, name)
    bad = c08.healthy(r)
    if bad:
        return "after restarting: " + bad
    bad = counts(name, r)
    if bad:
        return "after restarting: " + bad
    bad = c08.healthy(bilby.core.result.read_in_result(os.path.join(d, "lab_result.json")))
    if bad:
        return "on disk after restarting: " + bad


def counts(name, r):
    s = SAMPLERS[name]
    if name in ("emcee", "zeus", "kombine"):
        n = s["nwalkers"] * (s.get("iterations", s.get("nsteps")) - s["nburn"])
        if len(r.posterior) != n:
            return f"{len(r.posterior)} samples instead of {n}"
        if not np.array_equal(np.shape(r.walkers), (s["nwalkers"], s.get("iterations", s.get("nsteps")), 2)) and name != "zeus":
            return f"chain of shape {np.shape(r.walkers)}"
    if name == "bilby_mcmc" and len(r.posterior) < s["nsamples"]:
        return f"{len(r.posterior)} samples"


def signals(s, item):
    _, name, npool, sig, per_line, shard, shards, cap, twice = item
    rec = s.rec
    warm(name)
    kw = dict(npool=npool) if npool > 1 else {}
    if twice:
        kw["exit_code"] = 7
    code = 7 if twice else 77 if name in ("ultranest",) else 130

    def traced(d, at=None, keep=False):
        t = Tracer(at, sig, keep)
        try:
            t.start()
            c08.analyse(d, name, **kw)
        finally:
            sys.settrace(None)
        return t.log
    s.root_d = os.path.join(s.root, "d")
    c08.analyse(os.path.join(s.root, "warm"), name)

    def fresh(n):
        return os.path.join(s.root, n)
    st, log, _ = s.child(lambda: traced(fresh("d0"), keep=True), timeout=200)
    base = f"signal/{name}/{npool}/{sig}" + ("/twice" if twice else "")
    if not rec.check(st == "ok", base, f"traced: {st} {log}"):
        return
    pts = points(log, per_line)
    rec.note(f"lines of {name}", len(set(log)))
    if cap and len(pts) > cap * shards:
        rec.note(f"delivery points of {name} not all explored", len(pts))
        pts = [pts[int(i * len(pts) / (cap * shards))] for i in range(cap * shards)]
    seen = {}
    import shutil
    for at in pts[shard::shards]:
        what = log[at - 1]
        k = seen[what] = seen.get(what, 0) + 1
        key = f"{base}/{what[0]}:{what[2]}:{at}"
        d = fresh("d")
        shutil.rmtree(d, ignore_errors=True)
        st, v, _ = s.child(lambda: (traced(d, at), None)[1], timeout=200)
        if not rec.check(st in (f"exit {code}", "ok"), key, f"line {what[1]}: the signalled run ended with: {st} {v}"):
            continue
        rec.outcome(st)
        if twice:  # a second signal early in the resumed run
            st, v, _ = s.child(lambda: (traced(d, twice), None)[1], timeout=200)
            if not rec.check(st in (f"exit {code}", "ok"), key, f"the second signalled run ended with: {st} {v}"):
                continue
        st2, v, _ = s.child(lambda: finished(name, d), timeout=200)
        rec.check(st2 == "ok" and v is None, key, lambda: f"line {what[1]}: {st2} {v}; files {sorted(os.listdir(d)) if os.path.isdir(d) else None}")
        rec.case(key)
        rec.transition()
        rec.trace()
        rec.state((name, what))


def digest(r):
    return dict(z=r.log_evidence, post=r.posterior[["x", "y", "log_likelihood"]].values.tolist(), ncall=r.num_likelihood_evaluations,
                nested=r.nested_samples[["x", "y", "log_likelihood"]].values.tolist())


def continuation(s, item):
    """end the process right after its k-th checkpoint (and again after the j-th of the resumed run): the dead points of the checkpoint stay, in order, and calls add up"""
    _, variant, npool, second = item
    import shutil
    from bilby.core.sampler.dynesty import Dynesty as K
    rec = s.rec
    name = "dynesty"
    warm(name)
    kw = dict(LONGER[variant], npool=npool)
    c08.analyse(os.path.join(s.root, "warm"), name)

    def run(d, k):
        old = K.write_current_state
        n = []

        def write(self, *a, **b):
            out = old(self, *a, **b)
            res = self.sampler.results
            dead = len(res["logl"]) - (self.sampler.nlive if self.sampler.added_live else 0)
            n.append((dead, self.sampler.ncall, np.column_stack([res["samples"][:dead], res["logl"][:dead]]).tolist()))
            if len(n) == k:
                with open(d + ".state", "wb") as f:
                    import pickle
                    pickle.dump(n[-1], f)
                raise SystemExit(55)
            return out
        K.write_current_state = write
        try:
            r = c08.analyse(d, name, **kw)
            bad = c08.healthy(r, False)
            return dict(digest(r), bad=bad), len(n)
        finally:
            K.write_current_state = old

    def state(d):
        import pickle
        with open(d + ".state", "rb") as f:
            return pickle.load(f)
    base = f"continuation/{variant}/{npool}"
    vs = []
    for i in (0, 1):
        st, v, _ = s.child(lambda: run(os.path.join(s.root, f"plain{i}"), -1), timeout=200)
        if not rec.check(st == "ok", base, f"{st} {v}"):
            return
        vs.append(v)
    rec.check(vs[0] == vs[1], base, "two uninterrupted analyses differ")
    want, total = vs[0]
    rec.note(f"checkpoints of {variant}", total)
    rec.check(total > 3, base, f"only {total} checkpoints")
    d = os.path.join(s.root, "d")
    for k in range(1, total + 1):
        for j in [None] + list(range(1, min(second, total - k) + 1)):
            key = f"{base}/{k}" + (f"/{j}" if j else "")
            shutil.rmtree(d, ignore_errors=True)
            st, v, _ = s.child(lambda: run(d, k), timeout=200)
            if not rec.check(st == "exit 55", key, f"{st} {v}"):
                continue
            dead, ncall, rows = state(d)
            rec.check(rows == want["nested"][:dead], key, "the dead points of the checkpoint are not those of the uninterrupted run")
            if j:
                st, v, _ = s.child(lambda: run(d, j), timeout=200)
                if st == "ok":
                    continue
                if not rec.check(st == "exit 55", key, f"second: {st} {v}"):
                    continue
                d2, n2, r2 = state(d)
                rec.check(r2[:dead] == rows and d2 >= dead and n2 >= ncall, key, "the second checkpoint does not continue the first")
                dead, ncall, rows = d2, n2, r2
            st, v, _ = s.child(lambda: run(d, -1), timeout=200)
            if rec.check(st == "ok", key, f"resumed: {st} {v}"):
                got = v[0]
                rec.check(got["nested"][:dead] == rows, key, "dead points of the checkpoint lost or changed")
                rec.check(got["bad"] is None, key, got["bad"])
                rec.check(got["ncall"] >= ncall, key, f"{got['ncall']} likelihood evaluations, {ncall} of them before the interruption")
                rec.check(all(x in got["nested"] for x in got["post"]) and got["post"], key, "posterior samples that are no nested samples")
                if k == total:
                    rec.check(abs(got["z"] - want["z"]) < 1e-9 and got["nested"] == want["nested"] and got["ncall"] == want["ncall"], key, "a finished run changed by resuming")
            rec.case(key)
            rec.trace()
            rec.transition()
            rec.state((variant, k, j))


def handlers(s, item):
    """whatever the handlers were, they are back afterwards"""
    _, name = item
    import bilby
    rec = s.rec
    warm(name)

    def custom(signum, frame):
        raise KeyboardInterrupt(f"custom {signum}")
    sigs = (signal.SIGTERM, signal.SIGINT, signal.SIGALRM)
    for prev in ("default", "custom", "ignore", "mixed"):
        for end in ("ok", "likelihood", "keyboard", "exit", "resumed"):
            key = f"handlers/{name}/{prev}/{end}"

            def run():
                hs = [dict(default=signal.SIG_DFL, custom=custom, ignore=signal.SIG_IGN, mixed=(signal.SIG_DFL, custom, signal.SIG_IGN)[i])[prev] for i in range(3)]
                for g, h in zip(sigs, hs):
                    signal.signal(g, h)
                d = os.path.join(s.root, key.replace("/", "_"))
                n = [0]
                old = c08.model

                def model():
                    like, pri = old()
                    f = like.log_likelihood

                    def log_likelihood():
                        n[0] += 1
                        # the first hundred or so calls time the likelihood before sampling starts
                        if n[0] > 115 and end in ("likelihood", "keyboard", "exit"):
                            raise dict(likelihood=ZeroDivisionError, keyboard=KeyboardInterrupt, exit=SystemExit)[end]()
                        return f()
                    like.log_likelihood = log_likelihood
                    return like, pri
                c08.model = model
                try:
                    c08.analyse(d, name)
                    if end == "resumed":
                        c08.analyse(d, name)
                    out = "ok"
                except BaseException as e:
                    out = type(e).__name__
                got = [signal.getsignal(g) for g in sigs]
                return out, [g is h or g == h for g, h in zip(got, hs)], [str(g)[:80] for g in got]
            st, v, _ = s.child(run, timeout=200)
            if rec.check(st == "ok", key, f"{st} {v}"):
                rec.check(all(v[1]), key, f"{v}")
                rec.outcome((end, v[0]))
            rec.case(key)
            rec.transition()
    rec.trace()


def scenario(s, item):
    globals()[item[0]](s, item)


def run(rec, item):
    crash.serve(rec, "checks.c09", item, timeout=3000)


def groups(tier, seed):
    deep = tier == "thorough"
    T, I, A = signal.SIGTERM, signal.SIGINT, signal.SIGALRM
    sig = []
    for name in SAMPLERS:
        if name == "nestle":
            continue
        slow = name == "ultranest"
        shards = 8 if deep else 2
        for i in range(shards):
            if not slow or deep:
                sig.append(("signals", name, 1, int(T), 6 if deep else 3, i, shards, None if deep else 20, 0))
        if not slow:
            sig.append(("signals", name, 1, int(I), 1, 0, 1, None if deep else 4, 0))
            sig.append(("signals", name, 1, int(A), 1, 0, 1, None if deep else 4, 0))
            sig += [("signals", name, 1, int(T), 2, 0, 1, 30 if deep else 4, j) for j in ((1, 40, 200) if deep else (40,))]
            if name in ("dynesty", "bilby_mcmc", "emcee") and (deep or name == "dynesty"):
                sig.append(("signals", name, 2, int(T), 2, 0, 1, 60 if deep else 6, 0))
    cont = [("continuation", v, 1, 99 if deep else 1) for v in LONGER] + [("continuation", "acceptance", 2, 9 if deep else 0)]
    hand = [("handlers", n) for n in ("dynesty", "bilby_mcmc", "emcee", "zeus", "kombine")]
    return [Group("signals", sig, run, 3000), Group("continuation", cont, run, 3000), Group("handlers", hand, run, 3000)]
