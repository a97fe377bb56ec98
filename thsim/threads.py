"""Caller threads of one process under one baton.

Exactly one thread runs. Every executed line of repository code (and, when wanted, every tensor operation) is a point at
which the scheduler may switch to another thread; all choices come from one PRNG. The schedule is the list of
"t<k> n" entries: thread k ran through n points. Locks that repository code creates are simulated, so that a thread that
would block gives the baton away instead.
"""

import hashlib
import os
import pickle
import shutil
import sys
import tempfile
import threading
import traceback

import torch

from .core import HarnessError, Violation, _Baton
from .search import Result

REPO = os.environ.get("THSIM_REPO", "/repo")
PKG = REPO + "/torch_harmonics/"

CURRENT = None  # the running Threads instance


class SimLock:
    """A lock created by repository code."""

    def __init__(self, reentrant=False):
        self.owner, self.count, self.reentrant = None, 0, reentrant

    def acquire(self, blocking=True, timeout=-1):
        me = threading.get_ident()
        n = 0
        while self.owner is not None and not (self.reentrant and self.owner == me):
            if not blocking or timeout == 0:
                return False
            if timeout > 0 and n > 50:
                return False
            w = CURRENT
            if w is None or not w.block(self):
                raise HarnessError("lock blocked outside of a simulated thread")
            n += 1
        self.owner = me
        self.count += 1
        return True

    def release(self):
        if self.owner is None or (self.reentrant and self.owner != threading.get_ident()):
            raise RuntimeError("release unlocked lock")
        self.count -= 1
        if self.count == 0:
            self.owner = None

    def locked(self):
        return self.owner is not None

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()

    # what threading.Condition asks for
    def _is_owned(self):
        return self.owner == threading.get_ident()


_real_lock, _real_rlock = threading.Lock, threading.RLock


def _from_repo():
    f = sys._getframe(2)
    for _ in range(4):
        if f is None:
            return False
        fn = f.f_code.co_filename
        if fn.startswith(PKG):
            return True
        if not fn.endswith("dataclasses.py"):
            return False
        f = f.f_back
    return False


def install_locks():
    """Before torch_harmonics is imported."""
    threading.Lock = lambda: SimLock() if _from_repo() else _real_lock()
    threading.RLock = lambda *a, **k: SimLock(True) if _from_repo() else _real_rlock(*a, **k)


def preload():
    """Import every module of the package: no import (and no import lock) happens inside a run."""
    import importlib
    import pkgutil

    import torch_harmonics

    for m in pkgutil.walk_packages(torch_harmonics.__path__, "torch_harmonics."):
        if ".distributed" in m.name:
            continue
        try:
            importlib.import_module(m.name)
        except ImportError:
            pass


class _T:
    def __init__(self, idx, fn):
        self.idx, self.fn = idx, fn
        self.sem = _Baton()
        self.done = False
        self.exc = None
        self.tb = None
        self.points = 0
        self.blocked = None


class Threads:
    def __init__(self, fns, rng, *, p=0.02, style="uniform", schedule=None, max_points=150000):
        self.ts = [_T(i, f) for i, f in enumerate(fns)]
        self.rng, self.p, self.style = rng, p, style
        self.schedule = [tuple(int(x) for x in s[1:].split()) for s in schedule] if schedule is not None else None
        self.pos = 0
        self.left = None
        self.trace = []
        self.main = _Baton()
        self.max_points = max_points
        self.total = 0
        self.run_points = 0
        self.cur = None
        self.switches = 0
        self.fatal = None

    # -- in the running thread ------------------------------------------------------------------------------------
    def point(self):
        t = self.cur
        t.points += 1
        self.total += 1
        self.run_points += 1
        if self.total > self.max_points:  # long enough: the rest runs thread by thread
            self.left, self.budget = None, 1 << 60
            return
        if self.left is not None:  # replaying
            self.left -= 1
            if self.left > 0:
                return
            self._switch(t)
            return
        if self.budget > 0:
            self.budget -= 1
            return
        self._switch(t)

    def block(self, lock):
        t = self.cur
        if t is None or threading.current_thread() is not t.thread:
            return False
        t.blocked = lock
        self._switch(t)
        t.blocked = None
        return True

    def _switch(self, t):
        self.main.release()
        t.sem.acquire()

    def _tracer(self, frame, ev, arg):
        if frame.f_code.co_filename.startswith(PKG) and self.total <= self.max_points:
            if ev == "line":
                self.point()
            return self._tracer
        return None

    def _main(self, t):
        t.sem.acquire()
        try:
            with torch.autograd.set_multithreading_enabled(False):
                sys.settrace(self._tracer)
                try:
                    t.fn(t)
                finally:
                    sys.settrace(None)
        except BaseException as e:  # noqa: BLE001
            t.exc = e
            t.tb = traceback.format_exc(limit=-6)
        finally:
            t.done = True
            self.main.release()

    # -- scheduler ------------------------------------------------------------------------------------------------
    def _pick(self):
        en = [t for t in self.ts if not t.done and (t.blocked is None or t.blocked.owner is None)]
        if not en:
            raise Violation("deadlock", "all threads wait for locks")
        if self.schedule is not None:
            while self.pos < len(self.schedule):
                k, n = self.schedule[self.pos]
                self.pos += 1
                c = [t for t in en if t.idx == k]
                if c:
                    self.left = n
                    return c[0]
            self.left = None
            self.budget = 1 << 60
            return en[0]
        rng = self.rng
        if self.total > self.max_points:
            self.budget = 1 << 60
            return en[0]
        # how long the chosen thread runs: mostly short, sometimes long
        if self.style == "fine":
            self.budget = rng.randint(0, 3)
        elif self.style == "coarse":
            self.budget = rng.randint(0, 400)
        elif self.style == "serial":
            self.budget = 1 << 60
        else:
            self.budget = rng.choice([rng.randint(0, 3), rng.randint(0, 30), rng.randint(0, 300)])
        if self.style == "pct" and rng.random() < 0.7:
            return en[-1]
        return rng.choice(en)

    def run(self):
        global CURRENT
        CURRENT = self
        for t in self.ts:
            t.thread = threading.Thread(target=self._main, args=(t,), daemon=True)
            t.thread.start()
        try:
            last = None
            while not all(t.done for t in self.ts):
                t = self._pick()
                self.cur = t
                self.run_points = 0
                t.sem.release()
                if not self.main.lock.acquire(timeout=150):
                    raise HarnessError(f"thread {t.idx} blocks outside of the simulator's control")
                self.cur = None
                if t is not last:
                    self.switches += 1
                last = t
                if self.trace and self.trace[-1].startswith(f"t{t.idx} ") and (self.schedule is None or self.run_points == 0):
                    self.trace[-1] = f"t{t.idx} {int(self.trace[-1].split()[1]) + self.run_points}"
                else:
                    self.trace.append(f"t{t.idx} {self.run_points}")
        finally:
            CURRENT = None
        for t in self.ts:
            if isinstance(t.exc, (HarnessError, Violation)):
                raise t.exc
            if t.exc is not None:
                raise Violation("exception", f"thread {t.idx}: {type(t.exc).__name__}: {t.exc}\n{t.tb}")
        return self


def isolated(fn):
    """Run fn() in a forked copy of this (pristine) process; returns (value, trace) or raises what it raised.

    fn returns (Result, trace) or raises Violation/HarnessError; .trace of the exception is sent along.
    """
    r, w = os.pipe()
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            try:
                out = ("ok",) + fn()
            except Violation as v:
                out = ("violation", v.kind, v.msg, getattr(v, "trace", []))
            except BaseException as e:  # noqa: BLE001
                out = ("error", f"{type(e).__name__}: {e}\n{traceback.format_exc(limit=-8)}", [])
            with os.fdopen(w, "wb") as f:
                pickle.dump(out, f)
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    with os.fdopen(r, "rb") as f:
        data = f.read()
    _, st = os.waitpid(pid, 0)
    if not data:
        return ("died", st, [])
    return pickle.loads(data)


class SharedMemo:
    """Reference values computed once for all workers of a check (files in a scratch directory, removed at the end)."""

    dirs = []

    def __init__(self):
        self.dir = tempfile.mkdtemp(prefix="thsim-memo-")
        SharedMemo.dirs.append(self.dir)
        self.mem = {}

    def get(self, key, compute):
        if key not in self.mem:
            p = os.path.join(self.dir, hashlib.sha256(key.encode()).hexdigest()[:24])
            try:
                with open(p, "rb") as f:
                    self.mem[key] = pickle.load(f)
            except FileNotFoundError:
                self.mem[key] = compute()
                q = f"{p}.{os.getpid()}"
                with open(q, "wb") as f:
                    pickle.dump(self.mem[key], f)
                os.replace(q, p)
        return self.mem[key]

    @classmethod
    def cleanup(cls):
        for d in cls.dirs:
            shutil.rmtree(d, ignore_errors=True)


__all__ = ["Threads", "SimLock", "install_locks", "preload", "isolated", "Result"]
