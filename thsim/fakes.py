"""Executable stand-ins for requests, tqdm, h5py and PIL (not installed here), as far as the code under test uses them.

They keep what matters to crashes and faults: bytes arrive in pieces, files are written through the ordinary file
interface while the program runs, an h5 file closed early is readable but incomplete, a truncated image is refused.
"""

import errno
import http.client
import json
import os
import pickle
import struct
import types
import zlib

import numpy as np

from .procsim import _Body, _Sock


def module(name, **kw):
    m = types.ModuleType(name)
    m.__dict__.update(kw)
    return m


# --- tqdm -----------------------------------------------------------------------------------------------------------


class Bar:
    def __init__(self, it=None, **kw):
        self.it = it
        self.n = kw.get("initial", 0)

    def __iter__(self):
        return iter(self.it)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def update(self, n=1):
        self.n += n

    def close(self):
        pass

    set_description = set_postfix = write = refresh = lambda self, *a, **k: None


# --- requests -------------------------------------------------------------------------------------------------------


class RequestException(IOError):
    pass


class ConnectionError_(RequestException):
    pass


class Timeout(RequestException):
    pass


class ChunkedEncodingError(RequestException):
    pass


class HTTPError(RequestException):
    pass


class JSONDecodeError(RequestException, ValueError):
    pass


class Response:
    def __init__(self, child, resp, url, length):
        self.child, self.resp, self.url, self.left = child, resp, url, length
        self.status_code = resp.status
        self.reason = resp.reason
        self.headers = {k.lower(): v for k, v in resp.getheaders()}
        self._content = None

    @property
    def ok(self):
        return self.status_code < 400

    def raise_for_status(self):
        if not self.ok:
            raise HTTPError(f"{self.status_code} Error: {self.reason} for url: {self.url}")

    def iter_content(self, chunk_size=1, decode_unicode=False):
        while True:
            try:
                b = self.resp.read(chunk_size)
            except http.client.IncompleteRead as e:
                raise ChunkedEncodingError(f"Connection broken: {e!r}") from e
            except TimeoutError as e:
                raise ConnectionError_("Read timed out.") from e
            except OSError as e:
                raise ChunkedEncodingError(f"Connection broken: {e!r}") from e
            if not b:
                if self.left is not None and self.left > 0:  # as urllib3 2 does
                    raise ChunkedEncodingError(f"Connection broken: IncompleteRead({self.left} more expected)")
                return
            if self.left is not None:
                self.left -= len(b)
            yield b

    @property
    def content(self):
        if self._content is None:
            self._content = b"".join(self.iter_content(4096))
        return self._content

    @property
    def text(self):
        return self.content.decode("utf-8", "replace")

    def json(self):
        try:
            return json.loads(self.content)
        except ValueError as e:
            raise JSONDecodeError(str(e)) from e

    def close(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


class Server:
    """files: url basename -> bytes; plan: what happens to which request (dict(kind, req, at, ranges, chunked, mss))."""

    def __init__(self, child, files, plan):
        self.child, self.files, self.plan, self.n = child, files, plan, 0

    def get(self, url, headers=None, stream=False, timeout=None, **kw):
        c, p = self.child, self.plan
        mine = p["kind"] != "ok" and p.get("req", 0) == self.n
        self.n += 1
        k = p["kind"] if mine else "ok"
        if k == "refused":
            c.point("connect", "net:refused")
            raise ConnectionError_("Connection refused")
        c.point("connect")
        body = self.files[url.rsplit("/", 1)[-1]]
        code, extra = 200, ""
        rng = {a.lower(): b for a, b in (headers or {}).items()}.get("range")
        if k == "status":
            c.point("status", "net:status")
            code, body = p["code"], b"<html>down</html>"
        elif rng and p.get("ranges", True):
            off = int(rng.split("=")[1].split("-")[0])
            if off >= len(body):
                code, body, extra = 416, b"", f"Content-Range: bytes */{len(body)}\r\n"
            else:
                extra = f"Content-Range: bytes {off}-{len(body) - 1}/{len(body)}\r\n"
                code, body = 206, body[off:]
        if p.get("chunked") and body:
            head = f"HTTP/1.1 {code} X\r\nTransfer-Encoding: chunked\r\n{extra}Connection: close\r\n\r\n".encode()
            cs = p.get("chunk", 700)
            data = b"".join(b"%x\r\n" % len(body[i : i + cs]) + body[i : i + cs] + b"\r\n" for i in range(0, len(body), cs)) + b"0\r\n\r\n"
            left = None
        else:
            head = f"HTTP/1.1 {code} X\r\nContent-Length: {len(body)}\r\n{extra}Connection: close\r\n\r\n".encode()
            data, left = body, len(body)
        kk = dict(kind=k if k in ("reset", "timeout", "eof") and len(data) > 8 else "ok", mss=p.get("mss", 1 << 16))
        if kk["kind"] != "ok":
            kk["at"] = len(head) + int(p["at"] * (len(data) - 8))
        resp = http.client.HTTPResponse(_Sock(_Body(c, head + data, kk)), method="GET", url=url)
        resp.begin()
        r = Response(c, resp, url, left)
        if not stream:
            r.content  # noqa: B018
        return r


# --- h5py -----------------------------------------------------------------------------------------------------------

H5 = b"\x89SIMHDF\r\n"


def log_read(path):
    with open(path, "rb") as f:
        b = f.read()
    if not b.startswith(H5):
        raise OSError(f"Unable to open file {path} (file signature not found)")
    p, out, end = len(H5), {}, False
    while p + 8 <= len(b):
        n, crc = struct.unpack(">II", b[p : p + 8])
        rec = b[p + 8 : p + 8 + n]
        if len(rec) < n or zlib.crc32(rec) != crc:
            break
        p += 8 + n
        r = pickle.loads(rec)
        if r[0] == "new":
            out[r[1]] = r[2]
        elif r[0] == "set":
            out[r[1]][r[2]] = r[3]
        else:
            end = True
    if not end:
        raise OSError(f"Unable to open file {path} (truncated file)")
    return out


class Set:
    def __init__(self, f, name, arr):
        self.f, self.name, self.arr = f, name, arr
        self.shape, self.dtype = arr.shape, arr.dtype

    def __setitem__(self, i, v):
        self.arr[i] = v
        self.f.record(("set", self.name, i, np.array(v, dtype=self.arr.dtype)))

    def __getitem__(self, i):
        return self.arr[i]

    def __len__(self):
        return len(self.arr)


class File:
    def __init__(self, path, mode="r", **kw):
        self.path = os.fspath(path)
        self.sets = {}
        self.f = None
        if mode == "r":
            self.sets = {k: Set(self, k, v) for k, v in log_read(self.path).items()}
        elif mode in ("w", "w-", "x"):
            self.f = open(self.path, "wb" if mode == "w" else "xb")
            self.f.write(H5)
            self.f.flush()
        else:
            raise NotImplementedError(mode)

    def record(self, r):
        if self.f is None:
            raise OSError(errno.EBADF, "not open for writing")
        b = pickle.dumps(r)
        self.f.write(struct.pack(">II", len(b), zlib.crc32(b)) + b)
        self.f.flush()

    def create_dataset(self, name, shape=None, dtype=None, data=None, **kw):
        if data is not None:
            a = np.array(data)
            if a.dtype.kind == "U":
                a = np.array([str(x).encode() for x in a.reshape(-1)], dtype=object).reshape(a.shape)
        elif dtype is object:
            a = np.full(shape, b"", dtype=object)
        else:
            a = np.zeros(shape, dtype=dtype)
        self.sets[name] = Set(self, name, a)
        self.record(("new", name, a.copy()))
        return self.sets[name]

    def flush(self):
        if self.f is not None:
            self.f.flush()

    def close(self):
        if self.f is not None:
            try:
                self.record(("end",))
            finally:
                f, self.f = self.f, None
                f.close()

    def __getitem__(self, k):
        return self.sets[k]

    def __contains__(self, k):
        return k in self.sets

    def keys(self):
        return self.sets.keys()

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


# --- PIL ------------------------------------------------------------------------------------------------------------

PNG = b"\x89SIMPNG\r\n"


def png(a):
    a = np.ascontiguousarray(a)
    h, w = a.shape[:2]
    c = a.shape[2] if a.ndim == 3 else 0
    px = a.tobytes()
    return PNG + struct.pack(">IIII", h, w, c, a.dtype.itemsize) + px + struct.pack(">I", zlib.crc32(px))


class Img:
    def __init__(self, a):
        self.a = a

    @property
    def size(self):
        return (self.a.shape[1], self.a.shape[0])

    def resize(self, size=None, resample=None, **kw):
        w, h = size
        i = (np.arange(h) * self.a.shape[0]) // h
        j = (np.arange(w) * self.a.shape[1]) // w
        return Img(self.a[i][:, j])

    def convert(self, mode):
        if mode == "RGBA" and self.a.shape[2] == 3:
            return Img(np.concatenate([self.a, np.full((*self.a.shape[:2], 1), 255, self.a.dtype)], 2))
        return Img(self.a[..., :3] if mode == "RGB" else self.a)

    def __array__(self, dtype=None, copy=None):
        return np.array(self.a, dtype=dtype or self.a.dtype)

    def close(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


def image_open(fp, mode="r", **kw):
    with open(fp, "rb") as f:
        b = f.read()
    n = len(PNG)
    if not b.startswith(PNG) or len(b) < n + 16:
        raise OSError("cannot identify image file")
    h, w, c, size = struct.unpack(">IIII", b[n : n + 16])
    px = b[n + 16 : n + 16 + h * w * max(c, 1) * size]
    crc = b[n + 16 + len(px) :]
    if len(px) < h * w * max(c, 1) * size or len(crc) < 4 or struct.unpack(">I", crc[:4])[0] != zlib.crc32(px):
        raise OSError("image file is truncated")
    return Img(np.frombuffer(px, dtype=np.uint8 if size == 1 else np.uint16).reshape((h, w, c) if c else (h, w)))


def image_new(mode, size, color=0):
    color = tuple(color) + (255,) * (4 - len(color)) if mode == "RGBA" else color
    return Img(np.tile(np.array(color, dtype=np.uint8), (size[1], size[0], 1)))


def composite(bg, fg):
    al = fg.a[..., 3:].astype(np.float64) / 255
    rgb = np.round(fg.a[..., :3] * al + bg.a[..., :3] * (1 - al)).astype(np.uint8)
    return Img(np.concatenate([rgb, np.full((*rgb.shape[:2], 1), 255, np.uint8)], 2))


def install(modules, server):
    ex = module("requests.exceptions", RequestException=RequestException, ConnectionError=ConnectionError_, Timeout=Timeout, ChunkedEncodingError=ChunkedEncodingError, HTTPError=HTTPError, JSONDecodeError=JSONDecodeError)
    rq = module("requests", get=server.get, exceptions=ex, RequestException=RequestException, ConnectionError=ConnectionError_, Timeout=Timeout, HTTPError=HTTPError, Response=Response, codes=types.SimpleNamespace(ok=200, partial_content=206, requested_range_not_satisfiable=416))
    im = module("PIL.Image", open=image_open, new=image_new, alpha_composite=composite, Image=Img, BILINEAR=2, NEAREST=0, Resampling=types.SimpleNamespace(BILINEAR=2, NEAREST=0))
    pil = module("PIL", Image=im)
    modules.update({"requests": rq, "requests.exceptions": ex, "tqdm": module("tqdm", tqdm=Bar), "tqdm.auto": module("tqdm.auto", tqdm=Bar), "h5py": module("h5py", File=File, Dataset=Set, string_dtype=lambda encoding="utf-8", length=None: object), "PIL": pil, "PIL.Image": im})
