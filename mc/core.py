"""Shared machinery of the checks: bounded-exhaustive exploration, bookkeeping, parallel execution.

A check module defines PROPERTY, LEVEL, RULE, optional ASSUMPTIONS and groups(tier, seed) -> [Group].
A Group is a finite, fully enumerated list of items and a function run on every one of them; the
function explores one item (one configuration, or one sub-tree of histories) on the real code and
reports through a Recorder.
"""
import base64
import itertools
import os
import pickle
import signal
import sys
import tempfile
import time
import traceback

import numpy as np


class Group:
    def __init__(self, name, items, fn, timeout=600, workers=None):
        self.name, self.items, self.fn = name, list(items), fn
        self.timeout, self.workers = timeout, workers


class HarnessTimeout(BaseException):
    pass


class Recorder:
    """Collects what one item explored."""

    def __init__(self):
        self.evaluations = 0
        self.distinct = set()
        self.outcomes = set()
        self.states = set()
        self.transitions = 0
        self.traces = 0
        self.samples = []
        self.failures = []  # (key, message)
        self.notes = {}

    # -- bookkeeping
    def case(self, key=None, n=1):
        """one execution / comparison; key (hashable, small) marks a distinct non-trivial case"""
        self.evaluations += n
        if key is not None:
            self.distinct.add(_h(key))
            if len(self.samples) < 2:
                self.samples.append(str(key)[:300])

    def outcome(self, o):
        self.outcomes.add(_h(o))

    def state(self, s):
        self.states.add(_h(s))

    def transition(self, n=1):
        self.transitions += n

    def trace(self, n=1, sample=None):
        self.traces += n
        if sample is not None and len(self.samples) < 2:
            self.samples.append(str(sample)[:300])

    def note(self, k, n=1):
        self.notes[k] = self.notes.get(k, 0) + n

    # -- verdicts
    def fail(self, key, message=""):
        if len(self.failures) < 200:
            self.failures.append((str(key), str(message)[:4000]))

    def check(self, cond, key, message=""):
        if not cond:
            self.fail(key, message() if callable(message) else message)
        return bool(cond)

    def close(self, a, b, key, rtol=1e-8, atol=1e-12, message=""):
        ok = close(a, b, rtol, atol)
        if not ok:
            self.fail(key, f"{message} got={short(a)} expected={short(b)}")
        return ok

    def equal(self, a, b, key, message=""):
        ok = same(a, b)
        if not ok:
            self.fail(key, f"{message} got={short(a)} expected={short(b)}")
        return ok

    def guard(self, key):
        return _Guard(self, key)


class _Guard:
    """with rec.guard(key): code that must not raise"""

    def __init__(self, rec, key):
        self.rec, self.key = rec, key

    def __enter__(self):
        return self

    def __exit__(self, et, ev, tb):
        if et is None:
            return False
        if issubclass(et, HarnessTimeout) or issubclass(et, KeyboardInterrupt):
            return False
        self.rec.fail(self.key, f"unexpected {et.__name__}: {str(ev)[:300]} | " + "".join(traceback.format_exception(et, ev, tb))[-1200:])
        return True


def _h(x):
    return hash(x) if isinstance(x, (str, int, tuple, frozenset)) else hash(repr(x))


def short(x):
    s = repr(x)
    return s if len(s) < 400 else s[:400] + "..."


def close(a, b, rtol=1e-8, atol=1e-12):
    try:
        a, b = np.asarray(a), np.asarray(b)
        if a.shape != b.shape:
            return False
        if a.dtype.kind in "OUSb" or b.dtype.kind in "OUSb":
            return bool(np.all(a == b))
        with np.errstate(all="ignore"):
            return bool(np.all(np.isclose(a, b, rtol=rtol, atol=atol, equal_nan=True)))
    except Exception:
        return False


def same(a, b, rtol=0.0):
    """deep equality with nan == nan; numpy and python containers; rtol for floats"""
    import pandas as pd
    if isinstance(a, pd.DataFrame) or isinstance(b, pd.DataFrame):
        if not (isinstance(a, pd.DataFrame) and isinstance(b, pd.DataFrame)):
            return False
        return list(a.columns) == list(b.columns) and len(a) == len(b) and all(
            same(a[k].values, b[k].values, rtol) for k in a.columns)
    if isinstance(a, dict) and isinstance(b, dict):
        return set(a) == set(b) and all(same(a[k], b[k], rtol) for k in a)
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return type(a) is type(b) and len(a) == len(b) and all(same(x, y, rtol) for x, y in zip(a, b))
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        a, b = np.asarray(a), np.asarray(b)
        if a.shape != b.shape:
            return False
        if a.dtype.kind == "O" or b.dtype.kind == "O":
            return all(same(x, y, rtol) for x, y in zip(a.ravel().tolist(), b.ravel().tolist()))
        if a.dtype.kind in "fc" or b.dtype.kind in "fc":
            with np.errstate(all="ignore"):
                if rtol:
                    return bool(np.all(np.isclose(a, b, rtol=rtol, atol=0, equal_nan=True)))
                return bool(np.all((a == b) | ((a != a) & (b != b))))
        return bool(np.all(a == b))
    if isinstance(a, (float, np.floating, complex, np.complexfloating)) and isinstance(
            b, (int, float, np.number, complex)):
        if a != a and b != b:
            return True
        return bool(a == b) or bool(rtol and abs(a - b) <= rtol * abs(b))
    try:
        return bool(a == b)
    except Exception:
        return False


# ----------------------------------------------------------------- exploration
def sequences(alphabet, depth, min_depth=0):
    for n in range(min_depth, depth + 1):
        yield from itertools.product(alphabet, repeat=n)


class Choices:
    """stateless exploration of all answers: run(choose) is re-executed for every path.

    choose(n) returns 0..n-1; paths are enumerated depth first; replay divergence is an error."""

    def __init__(self, max_paths=None):
        self.max_paths = max_paths
        self.paths = 0
        self.capped = False

    def explore(self, run):
        prefix = []
        while True:
            trail, arity = [], []

            def choose(n):
                i = len(trail)
                if i < len(prefix):
                    c = prefix[i]
                    if c >= n:
                        raise RuntimeError("replay divergence")
                else:
                    c = 0
                trail.append(c)
                arity.append(n)
                return c

            yield run(choose), tuple(trail)
            self.paths += 1
            if self.max_paths and self.paths >= self.max_paths:
                self.capped = True
                return
            while trail and trail[-1] + 1 >= arity[len(trail) - 1]:
                trail.pop()
                arity.pop()
            if not trail:
                return
            trail[-1] += 1
            prefix = list(trail)


def bfs(initial_history, enabled, build, canon, check, max_depth, rec):
    """explicit-state search over the real transition function (state = history rebuilt on real objects)"""
    from collections import deque
    st = build(initial_history)
    seen = {canon(st)}
    rec.states |= {_h(x) for x in seen}
    front = deque([tuple(initial_history)])
    while front:
        h = front.popleft()
        if len(h) >= max_depth:
            continue
        for ev in enabled(h):
            nh = h + (ev,)
            st = build(nh)
            rec.transition()
            check(nh, st)
            k = canon(st)
            if k not in seen:
                seen.add(k)
                rec.state(k)
                front.append(nh)
    return seen


# ----------------------------------------------------------------- execution
def _run_item(group, idx, out):
    rec = Recorder()
    t0 = time.time()

    def onalarm(*_):
        raise HarnessTimeout()

    try:
        signal.signal(signal.SIGALRM, onalarm)
        signal.alarm(int(group.timeout))
        np.random.seed(0)
        group.fn(rec, group.items[idx])
    except HarnessTimeout:
        rec.fail(f"{group.name}:hang:{item_label(group.items[idx])}", f"did not finish in {group.timeout}s")
    except KeyboardInterrupt:
        raise
    except BaseException as e:
        rec.fail(f"{group.name}:exception:{item_label(group.items[idx])}:{type(e).__name__}",
                 traceback.format_exc()[-3000:])
    finally:
        signal.alarm(0)
    rec.notes["_t"] = time.time() - t0
    return rec


def item_label(item):
    s = item if isinstance(item, str) else repr(item)
    return s if len(s) < 160 else s[:160]


def run_groups(groups, nproc=8, budget=None, log=None):
    """run every item of every group in forked workers; returns list of (group, idx, Recorder)"""
    from multiprocessing import Value
    tasks = [(gi, ii) for gi, g in enumerate(groups) for ii in range(len(g.items))]
    nproc = max(1, min(nproc, len(tasks)))
    counter = Value("l", 0)
    base = tempfile.mkdtemp(prefix="mcrun_")
    pids = {}
    nextw = [0]

    def spawn():
        w = nextw[0]
        nextw[0] += 1
        sys.stdout.flush()
        sys.stderr.flush()
        pid = os.fork()
        if pid:
            pids[pid] = w
            return
        code = 0
        try:
            devnull = os.open(os.devnull, os.O_WRONLY)
            if not os.environ.get("MC_DEBUG"):
                os.dup2(devnull, 1)
                os.dup2(devnull, 2)
            wd = os.path.join(base, f"w{w}")
            os.mkdir(wd)
            os.chdir(wd)
            os.environ["TMPDIR"] = wd
            tempfile.tempdir = wd
            with open(os.path.join(base, f"out{w}"), "ab") as f:
                while True:
                    with counter.get_lock():
                        t = counter.value
                        counter.value += 1
                    if t >= len(tasks):
                        break
                    gi, ii = tasks[t]
                    pickle.dump(("start", t, None), f)
                    f.flush()
                    rec = _run_item(groups[gi], ii, None)
                    pickle.dump(("done", t, rec), f)
                    f.flush()
        except BaseException:
            traceback.print_exc()
            code = 3
        finally:
            os._exit(code)

    try:
        for _ in range(nproc):
            spawn()
        while pids:
            pid, status = os.wait()
            w = pids.pop(pid, None)
            if w is not None and status != 0:
                with counter.get_lock():
                    more = counter.value < len(tasks)
                if more:
                    spawn()
        done, started = {}, set()
        for w in range(nextw[0]):
            p = os.path.join(base, f"out{w}")
            if not os.path.exists(p):
                continue
            with open(p, "rb") as f:
                while True:
                    try:
                        kind, t, rec = pickle.load(f)
                    except EOFError:
                        break
                    except Exception:
                        break
                    started.add(t)
                    if kind == "done":
                        done[t] = rec
        out = []
        for t, (gi, ii) in enumerate(tasks):
            rec = done.get(t)
            if rec is None:
                rec = Recorder()
                rec.fail(f"{groups[gi].name}:died:{item_label(groups[gi].items[ii])}",
                         "the process running this case died")
            out.append((groups[gi], ii, rec))
        return out
    finally:
        import shutil
        shutil.rmtree(base, ignore_errors=True)


def encode_item(item):
    try:
        return base64.b64encode(pickle.dumps(item)).decode()
    except Exception:
        return None
