"""Exhaustive crash injection: runs an action of the real code in forked children, ending the child at every change
it makes to files below a directory (before the change, and after part of every write), then runs the recovery.

A check's item calls `serve(module, item)`; that starts `python -m mc.crash module` under the LD_PRELOAD shim, which
calls module.scenario(session, item). The session reports through the same Recorder as every other check.
"""
import ctypes
import json
import os
import pickle
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))


def build(d):
    so = os.path.join(d, "crashshim.so")
    subprocess.run(["gcc", "-O1", "-shared", "-fPIC", "-w", "-o", so, os.path.join(HERE, "crashshim.c"), "-ldl"], check=True)
    return so


def serve(rec, module, item, timeout=600):
    """run module.scenario(session, item) in a process with the shim and merge what it recorded into rec"""
    d = tempfile.mkdtemp(prefix="crash_")
    try:
        so = build(d)
        env = dict(os.environ, LD_PRELOAD=so, CRASHSHIM=so, OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", MPLBACKEND="Agg")
        inp, out = os.path.join(d, "in"), os.path.join(d, "out")
        with open(inp, "wb") as f:
            pickle.dump((module, item), f)
        log = open(os.path.join(d, "log"), "wb")
        p = subprocess.Popen([sys.executable, "-m", "mc.crash", inp, out], env=env, stdout=log, stderr=log, start_new_session=True, cwd=os.path.dirname(HERE))
        try:
            p.wait(timeout)
        except subprocess.TimeoutExpired:
            pass
        finally:
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
            p.wait()
        if not os.path.exists(out):
            rec.fail(f"{item}", f"the crash server ended with {p.returncode}: " + open(os.path.join(d, "log"), errors="replace").read()[-1500:])
            return
        with open(out, "rb") as f:
            r = pickle.load(f)
        for k in ("distinct", "outcomes", "states"):
            getattr(rec, k).update(getattr(r, k))
        rec.evaluations += r.evaluations
        rec.transitions += r.transitions
        rec.traces += r.traces
        rec.samples += r.samples[:2]
        rec.failures += r.failures
        for k, n in r.notes.items():
            rec.note(k, n)
    finally:
        shutil.rmtree(d)


class Session:
    def __init__(self, rec):
        self.rec = rec
        self.lib = ctypes.CDLL(os.environ["CRASHSHIM"])
        self.lib.cs_log.restype = ctypes.c_char_p
        self.lib.cs_count.restype = ctypes.c_long
        self.lib.cs_arm.argtypes = [ctypes.c_char_p, ctypes.c_long, ctypes.c_int, ctypes.c_int, ctypes.c_int]
        self.root = tempfile.mkdtemp(prefix="crashrun_")

    def child(self, fn, arm=None, timeout=60):
        """run fn() in a forked child; returns (exit status, value, log of file events)

        status: "ok", "crash" (ended by the injector), "exit N", "error" (value = traceback), "signal N", "timeout"
        """
        r, w = os.pipe()
        sys.stdout.flush()
        sys.stderr.flush()
        pid = os.fork()
        if pid == 0:
            code = 1
            try:
                os.close(r)
                os.setpgid(0, 0)
                if arm is not None:
                    self.lib.cs_arm(*arm)
                try:
                    v = ("ok", fn())
                except SystemExit as e:
                    v = (f"exit {e.code}", None)
                except BaseException:
                    v = ("error", " | ".join(traceback.format_exc().strip().splitlines()[-7:])[-1200:])
                self.lib.cs_disarm()
                data = pickle.dumps((*v, self.lib.cs_log().decode(errors="replace").splitlines() if arm else []))
                off = 0
                while off < len(data):
                    off += os.write(w, data[off:])
                code = 0
            finally:
                os._exit(code)
        os.close(w)
        import select
        data, end = b"", time.time() + timeout
        status = None
        while True:
            left = end - time.time()
            if left <= 0:
                status = "timeout"
                break
            if select.select([r], [], [], left)[0]:
                b = os.read(r, 1 << 20)
                if not b:
                    break
                data += b
        os.close(r)
        if status == "timeout":
            try:
                os.killpg(pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
        _, st = os.waitpid(pid, 0)
        try:
            os.killpg(pid, signal.SIGKILL)  # workers left behind
        except (ProcessLookupError, PermissionError):
            pass
        if status == "timeout":
            return "timeout", None, []
        if os.WIFSIGNALED(st):
            return f"signal {os.WTERMSIG(st)}", None, []
        code = os.WEXITSTATUS(st)
        if code == 99:
            return "crash", None, []
        if code:
            return f"exit {code}", None, []
        return pickle.loads(data)

    def explore(self, name, setup, action, recover, tears=((0, 1), (1, 2)), timeout=60, only=None, max_events=None, warm=True):
        """crash at every event of action() after setup(); recover(d) returns None or a message on failure

        setup, action and recover take the directory. Every write event is cut at each of `tears`, every other
        event happens or does not happen.
        """
        rec = self.rec

        def fresh():
            d = os.path.join(self.root, "d")
            if os.path.exists(d):
                shutil.rmtree(d)
            os.mkdir(d)
            return d
        if warm:  # imports and caches, so that the children need not repeat them
            d = fresh()
            for f in (setup, action, recover):
                try:
                    f(d)
                except (Exception, SystemExit):
                    pass
        d = fresh()
        st, v, _ = self.child(lambda: setup(d), timeout=timeout)
        if not rec.check(st == "ok", name, f"setup: {st} {v}"):
            return
        clean = os.path.join(self.root, "clean")
        if os.path.exists(clean):
            shutil.rmtree(clean)
        shutil.copytree(d, clean, symlinks=True)

        def restore():
            if os.path.exists(d):
                shutil.rmtree(d)
            shutil.copytree(clean, d, symlinks=True)
            return d
        st, v, log = self.child(lambda: (action(d), None)[1], arm=(d.encode(), 0, 0, 1, 0), timeout=timeout)
        if not rec.check(st in ("ok",), name, f"uninterrupted: {st} {v}"):
            return
        st, v, _ = self.child(lambda: recover(d), timeout=timeout)
        rec.check(st == "ok" and v is None, name, f"after the uninterrupted action: {st} {v}")
        rec.note("file events", len(log))
        events = list(enumerate(log, 1))
        if only:
            events = [e for e in events if only(e[1])]
        if max_events and len(events) > max_events:
            rec.note(f"events of {name} not all explored", len(events))
            step = len(events) / max_events
            events = [events[int(i * step)] for i in range(max_events)]
        for k, what in events:
            cuts = tears if what.split()[0] in ("write", "sendfile") else ((0, 1),)
            for n, m in cuts:
                key = f"{name}/{k}:{what.strip().replace(' ', '_')}" + (f"/{n}of{m}" if n else "")
                restore()
                st, v, _ = self.child(lambda: (action(d), None)[1], arm=(d.encode(), k, n, m, 0), timeout=timeout)
                if st not in ("crash", "ok"):
                    rec.fail(key, f"the interrupted run: {st} {v}")
                    continue
                st2, v, _ = self.child(lambda: recover(d), timeout=timeout)
                rec.check(st2 == "ok" and v is None, key, f"after the crash: {st2} {v}; files {sorted(os.listdir(d))}")
                rec.case(key)
                rec.trace()
                rec.transition()
                rec.state((name, listing(d)))
                rec.outcome((st, st2))


def listing(d):
    return tuple(sorted((os.path.relpath(os.path.join(p, f), d), os.path.getsize(os.path.join(p, f))) for p, _, fs in os.walk(d) for f in fs))


def main():
    with open(sys.argv[1], "rb") as f:
        module, item = pickle.load(f)
    from mc.core import Recorder
    import importlib
    rec = Recorder()
    s = Session(rec)
    try:
        try:
            importlib.import_module(module).scenario(s, item)
        except BaseException:
            rec.fail(str(item), "harness: " + " | ".join(traceback.format_exc().strip().splitlines()[-7:])[-1200:])
    finally:
        shutil.rmtree(s.root, ignore_errors=True)
    with open(sys.argv[2] + ".tmp", "wb") as f:
        pickle.dump(rec, f)
    os.rename(sys.argv[2] + ".tmp", sys.argv[2])


if __name__ == "__main__":
    main()
