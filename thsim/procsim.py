"""Actors that are real forked processes under the simulator's baton.

An actor gives the baton back at every file-system call on the scratch directory, at every network read and at every
line of repository code. The simulator (parent) lets exactly one actor continue at a time and may kill it (SIGKILL) at
any such point: what survives is what the operating system already has, user-space buffers are lost.
"""

import builtins
import errno
import http.client
import io
import json
import os
import signal
import sys
import tempfile
import urllib.error
import urllib.request
import urllib.response

from .core import HarnessError

_io = sys.modules["_io"]
REPO = os.environ.get("THSIM_REPO", "/repo")
ERR = {"ENOSPC": errno.ENOSPC, "EIO": errno.EIO, "EDQUOT": errno.EDQUOT}


class Actor:
    """Parent side."""

    def __init__(self, idx, fn):
        self.idx = idx
        r1, w1 = os.pipe()
        r2, w2 = os.pipe()
        sys.stdout.flush()
        sys.stderr.flush()
        self.pid = os.fork()
        if self.pid == 0:
            code = 1
            try:
                os.close(r1)
                os.close(w2)
                fn(Child(r2, w1))
                code = 0
            finally:
                os._exit(code)
        os.close(w1)
        os.close(r2)
        self.rf = os.fdopen(r1, "r")
        self.wfd = w2
        self.done = False
        self.killed = False
        self.result = None
        self.points = 0
        self.fired = []
        self._read()

    def _read(self):
        line = self.rf.readline()
        if not line:
            raise HarnessError(f"actor {self.idx} ended without a result")
        m = json.loads(line)
        if "r" in m:
            self.result = m["r"]
            self.done = True
            self._reap()
        else:
            self.label = m["e"]
            if m.get("f"):
                self.fired.append(m["f"])

    def _reap(self):
        os.waitpid(self.pid, 0)
        self.rf.close()
        os.close(self.wfd)

    def step(self):
        self.points += 1
        os.write(self.wfd, b"g")
        self._read()

    def kill(self):
        os.kill(self.pid, signal.SIGKILL)
        self.done = self.killed = True
        self._reap()


class Child:
    """Actor side: the seams."""

    def __init__(self, rfd, wfd):
        self.rfd, self.wfd = rfd, wfd
        self.names = {}
        self.faults = {}  # operation class -> list of (n-th occurrence, fault)
        self.counts = {}
        self.root = None
        self.broken = None  # the error that the next write meets
        self.quiet = 0

    def send(self, **m):
        data = (json.dumps(m) + "\n").encode()
        _write(self.wfd, data)

    def point(self, label, fired=None):
        if self.quiet:
            return
        self.send(e=label, f=fired)
        if _read(self.rfd, 1) != b"g":
            os._exit(3)

    def fault(self, cls):
        """Is a fault planned for this occurrence of an operation?"""
        n = self.counts.get(cls, 0)
        self.counts[cls] = n + 1
        f = self.faults.get(cls)
        if f is not None and f[0] == n:
            return f[1]
        return None

    def name(self, path):
        if isinstance(path, int):
            try:
                path = os.readlink(f"/proc/self/fd/{path}")
            except OSError:
                return None
        path = os.path.abspath(os.fsdecode(path))
        if not path.startswith(self.root + "/") and path != self.root:
            return None
        if path in self.known:
            return self.known[path]
        return self.names.setdefault(path, f"<tmp{len(self.names)}>")

    def op(self, cls, label):
        f = self.fault(cls)
        self.point(label, f"{cls}:{f}" if f else None)
        return f

    def install(self, root, known, faults, lines=True):
        self.root, self.known, self.faults = root, known, faults
        me = self
        real_open = io.open

        class SimRaw(io.FileIO):
            def __init__(self, nm, *a, **k):
                super().__init__(*a, **k)
                self.nm = nm

            def write(self, b):
                f = me.op("write", f"write {self.nm}")
                b = memoryview(b).cast("B")
                if f == "short" and len(b) > 1:
                    return super().write(b[: max(1, len(b) // 3)])
                if f in ERR and len(b) > 1:
                    # as POSIX has it: what fits is written and counted, the next call fails (and, on a full disk, all after it)
                    me.broken = f
                    return super().write(b[: len(b) // 2])
                if f not in ERR and me.broken:
                    f = me.broken
                if f in ERR:
                    me.broken = f if f in ("ENOSPC", "EDQUOT") else None
                    raise OSError(ERR[f], os.strerror(ERR[f]))
                return super().write(b)

            def readinto(self, b):
                f = me.op("read", f"read {self.nm}")
                if f in ERR:
                    raise OSError(errno.EIO, os.strerror(errno.EIO))
                return super().readinto(b)

            def readall(self):
                f = me.op("read", f"read {self.nm}")
                if f in ERR:
                    raise OSError(errno.EIO, os.strerror(errno.EIO))
                return super().readall()

            def close(self):
                if not self.closed and self.writable():
                    me.point(f"close {self.nm}")
                super().close()

        def sim_open(file, mode="r", buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
            nm = me.name(file)
            if nm is None:
                return real_open(file, mode, buffering, encoding, errors, newline, closefd, opener)
            writing = any(c in mode for c in "wax+")
            if not isinstance(file, int):
                f = me.op("open" if writing else "openr", f"open {nm} {mode}")
                if f in ERR:
                    raise OSError(ERR[f], os.strerror(ERR[f]), os.fspath(file))
            raw = SimRaw(nm, file, mode.replace("b", "").replace("t", ""), closefd, opener)
            if buffering == 0:
                return raw
            size = buffering if buffering > 1 else io.DEFAULT_BUFFER_SIZE
            if "+" in mode:
                buf = io.BufferedRandom(raw, size)
            elif writing:
                buf = io.BufferedWriter(raw, size)
            else:
                buf = io.BufferedReader(raw, size)
            if "b" in mode:
                return buf
            t = io.TextIOWrapper(buf, encoding or "utf-8", errors, newline)
            t.mode = mode
            return t

        builtins.open = io.open = _io.open = sim_open

        def wrap(fname, cls, npaths=1):
            real = getattr(os, fname)

            def w(*a, **k):
                nms = [me.name(p) if isinstance(p, (str, bytes, int, os.PathLike)) and p is not None else None for p in a[:npaths]]
                if any(n is not None for n in nms):
                    f = me.op(cls, f"{fname} " + " ".join(map(str, nms)))
                    if f in ERR and cls not in ("stat",):
                        raise OSError(ERR[f], os.strerror(ERR[f]), str(a[0]))
                return real(*a, **k)

            setattr(os, fname, w)

        wrap("open", "open")
        real_write = os.write

        def sim_write(fd, data):
            nm = me.name(fd)
            if nm is None:
                return real_write(fd, data)
            f = me.op("write", f"write {nm}")
            b = memoryview(data).cast("B")
            if f and len(b) > 1:
                me.broken = f if f in ERR else None
                return real_write(fd, b[: max(1, len(b) // 3)])
            f = f or me.broken
            if f in ERR:
                me.broken = f if f in ("ENOSPC", "EDQUOT") else None
                raise OSError(ERR[f], os.strerror(ERR[f]))
            return real_write(fd, b)

        os.write = sim_write
        for fn in ("replace", "rename", "link", "symlink"):
            wrap(fn, "rename", 2)
        for fn in ("unlink", "remove", "rmdir"):
            wrap(fn, "unlink")
        for fn in ("mkdir", "truncate", "ftruncate", "fsync", "fdatasync", "chmod"):
            wrap(fn, "meta")
        wrap("stat", "stat")

        def no_sendfile(*a, **k):
            raise OSError(errno.ENOTSUP, "not simulated")

        os.sendfile = no_sendfile
        tempfile.tempdir = root

        def tr(frame, ev, arg):
            if not frame.f_code.co_filename.startswith(REPO + "/torch_harmonics/"):
                return None
            if ev == "line":
                me.point("line")
            return tr

        if lines:
            sys.settrace(tr)

    def network(self, plan):
        """Install the simulated HTTPS server. plan: dict(kind=..., at=...)."""
        me = self

        class Handler(urllib.request.BaseHandler):
            handler_order = 100

            def https_open(self, req):
                return serve(me, plan, req)

            http_open = https_open

        op = urllib.request.OpenerDirector()
        for h in (Handler, urllib.request.HTTPErrorProcessor, urllib.request.HTTPDefaultErrorHandler, urllib.request.HTTPRedirectHandler, urllib.request.UnknownHandler):
            op.add_handler(h())
        urllib.request.install_opener(op)


_write, _read = os.write, os.read


class _Body(io.RawIOBase):
    """The byte stream of a connection: yields between pieces, may break."""

    def __init__(self, child, data, plan):
        self.child, self.data, self.pos, self.plan = child, data, 0, plan

    def readable(self):
        return True

    def readinto(self, b):
        c = self.child
        k, at = self.plan["kind"], self.plan.get("at")
        lim = len(self.data)
        if k in ("reset", "timeout", "eof"):
            lim = min(lim, at)
        n = min(len(b), lim - self.pos, self.plan.get("mss", 1 << 16))
        if n <= 0 and lim < len(self.data) or (k in ("reset", "timeout") and self.pos >= lim):
            c.point("net broken", "net:" + k)
            if k == "reset":
                raise ConnectionResetError(errno.ECONNRESET, "Connection reset by peer")
            if k == "timeout":
                raise TimeoutError("The read operation timed out")
            return 0
        c.point("net")
        b[:n] = self.data[self.pos : self.pos + n]
        self.pos += n
        return n


class _Sock:
    def __init__(self, raw):
        self.raw = raw

    def makefile(self, mode, bufsize=None):
        return io.BufferedReader(self.raw)

    def close(self):
        pass


def serve(child, plan, req):
    k = plan["kind"]
    child.served = getattr(child, "served", 0) + 1
    if k == "refused":
        child.point("connect", "net:refused")
        raise urllib.error.URLError(ConnectionRefusedError(errno.ECONNREFUSED, "Connection refused"))
    child.point("connect")
    body = plan["body"]
    if k == "status":
        child.point("status", "net:status")
        txt = b"<html>down</html>"
        head = f"HTTP/1.1 {plan['code']} Error\r\nContent-Type: text/html\r\nContent-Length: {len(txt)}\r\nConnection: close\r\n\r\n".encode()
        data, kk = head + txt, dict(kind="ok")
    else:
        if plan.get("chunked"):
            head = b"HTTP/1.1 200 OK\r\nContent-Type: image/jpeg\r\nTransfer-Encoding: chunked\r\nConnection: close\r\n\r\n"
            cs = plan.get("chunk", 700)
            data = b"".join(b"%x\r\n" % len(body[i : i + cs]) + body[i : i + cs] + b"\r\n" for i in range(0, len(body), cs)) + b"0\r\n\r\n"
        else:
            head = f"HTTP/1.1 200 OK\r\nContent-Type: image/jpeg\r\nContent-Length: {len(body)}\r\nConnection: close\r\n\r\n".encode()
            data = body
        kk = dict(plan)
        if "at" in kk:
            # a connection that breaks does so strictly before the last byte of the body
            kk["at"] = len(head) + int(kk["at"] * (len(data) - 8))
        data = head + data
    resp = http.client.HTTPResponse(_Sock(_Body(child, data, kk)), method=req.get_method(), url=req.full_url)
    resp.begin()
    resp.url = req.full_url
    resp.msg = resp.reason
    return resp
