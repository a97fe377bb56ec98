"""C14: the cached elevation data set is complete or absent."""

import json
import os
import random
import shutil
import struct
import sys
import tempfile
import types
import zlib

import numpy as np
import torch
import torch.nn.functional as F

from thsim.core import HarnessError, Violation
from thsim.procsim import Actor
from thsim.search import Check, Result

MAGIC = b"\xff\xd8SIMJPEG"
EOI = b"\xff\xd9"


def encode(img):
    h, w = img.shape
    px = img.astype(np.uint8).tobytes()
    return MAGIC + struct.pack(">II", h, w) + px + struct.pack(">I", zlib.crc32(px)) + EOI


class UnidentifiedImageError(OSError):
    pass


class SimImage:
    """What the code under test uses of PIL.Image.Image (lazy loading like the real one)."""

    def __init__(self, fp, own):
        self.fp, self.own = fp, own
        head = fp.read(len(MAGIC) + 8)
        if len(head) < len(MAGIC) + 8 or not head.startswith(MAGIC):
            raise UnidentifiedImageError("cannot identify image file")
        self.height, self.width = struct.unpack(">II", head[len(MAGIC) :])
        self.size = (self.width, self.height)
        self.mode = "RGB"
        self.format = "JPEG"
        self.px = None

    def load(self):
        if self.px is None:
            n = self.height * self.width
            b = self.fp.read(n + 6)
            if len(b) < n + 6:
                raise OSError(f"image file is truncated ({n + 6 - len(b)} bytes not processed)")
            if struct.unpack(">I", b[n : n + 4])[0] != zlib.crc32(b[:n]):
                raise OSError("broken data stream when reading image file")
            self.px = np.frombuffer(b[:n], dtype=np.uint8).reshape(self.height, self.width)
            if self.own:
                self.fp.close()
        return self

    def verify(self):
        self.load()

    def convert(self, mode):
        self.load()
        out = object.__new__(SimImage)
        out.__dict__.update(self.__dict__, mode=mode)
        return out

    def copy(self):
        return self.convert(self.mode)

    def __array__(self, dtype=None, copy=None):
        self.load()
        return np.array(self.px, dtype=dtype or np.uint8)

    def close(self):
        if self.own:
            self.fp.close()

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


def fake_pil():
    pil = types.ModuleType("PIL")
    image = types.ModuleType("PIL.Image")

    def open_(fp, mode="r", formats=None):
        own = isinstance(fp, (str, bytes, os.PathLike))
        return SimImage(open(fp, "rb") if own else fp, own)

    image.open = open_
    image.Image = SimImage
    pil.Image = image
    pil.UnidentifiedImageError = UnidentifiedImageError
    return {"PIL": pil, "PIL.Image": image}


def sample_attempt(rng, faulty):
    a = dict(net=dict(kind="ok"), fs={}, crash=None, size=rng.choice([None, None, [3, 5], [8, 4]]))
    a["net"].update(chunked=rng.random() < 0.3, mss=rng.choice([64, 300, 1 << 16]), chunk=rng.choice([50, 700]))
    if not faulty:
        return a
    r = rng.random()
    if r < 0.4:
        k = rng.choice(["reset", "timeout", "eof", "eof", "status", "refused"])
        a["net"]["kind"] = k
        if k in ("reset", "timeout", "eof"):
            a["net"]["at"] = rng.choice([0.0, rng.random(), rng.random(), 0.999])
        if k == "status":
            a["net"]["code"] = rng.choice([403, 404, 500, 503])
    elif r < 0.7:
        cls = rng.choice(["write", "write", "write", "open", "rename", "read", "openr", "meta", "unlink"])
        f = rng.choice(["short", "ENOSPC", "EIO"]) if cls == "write" else rng.choice(["ENOSPC", "EIO"])
        a["fs"][cls] = [rng.choice([0, 0, 0, 1, 2]), f]
    else:
        a["crash"] = rng.choice([rng.randrange(1, 12), rng.randrange(1, 60)])
    if rng.random() < 0.15 and a["crash"] is None:
        a["crash"] = rng.randrange(1, 40)
    return a


class C14(Check):
    id = "C14"
    quick_runs, quick_wall = 2500, 40
    thorough_runs, thorough_wall = 100000, 1200
    time_unit = "scheduler steps (file-system calls, network reads and code lines of the attempts)"
    rule = (
        "a run is a history of attempts (some overlapping) with injected network, disk and crash faults, followed by attempts without faults; non-trivial when a fault fired or attempts overlapped; "
        "distinct when the hash of the full sequence of scheduling points differs"
    )
    components = {
        "real code": ["torch_harmonics.utils.load_mola_elevation", "urllib.request opener chain", "http.client response parsing", "Python file objects, operating-system files in a scratch directory", "real processes, killed with SIGKILL"],
        "stub": ["HTTPS connection (byte stream that yields and breaks)", "PIL.Image (not installed here; executable stand-in that refuses truncated images)"],
    }
    assumptions = ["a process crash loses user-space buffers and keeps what the operating system was given (no power loss)", "the server declares the length of the body or uses chunked encoding"]

    def prepare(self):
        import torch_harmonics.utils  # noqa: F401

    def sample(self, rng):
        h, w = rng.choice([(4, 8), (16, 40), (30, 50), (80, 130)])
        rounds = []
        for _ in range(rng.randint(1, 3)):
            n = rng.choice([1, 1, 2, 3])
            rounds.append([sample_attempt(rng, rng.random() < 0.7) for _ in range(n)])
        return dict(shape=[h, w], rounds=rounds, cache=rng.choice(["arg", "arg", "default", "new"]), style=rng.choice(["uniform", "burst", "rr"]))

    def attempt(self, a, root, cache, known, body):
        def fn(ch):
            sys.modules.update(fake_pil())
            from torch_harmonics.utils import load_mola_elevation

            ch.install(root, known, {k: tuple(v) for k, v in a["fs"].items()})
            ch.network(dict(a["net"], body=body))
            ch.point("start")
            try:
                kw = {} if cache is None else dict(cache_dir=cache)
                if a["size"]:
                    kw.update(nlat=a["size"][0], nlon=a["size"][1])
                t = load_mola_elevation(**kw)
                sys.settrace(None)
                ch.quiet = 1
                res = dict(ok=True, shape=list(t.shape), dtype=str(t.dtype), data=t.double().reshape(-1).tolist() if t.numel() <= 4000 else None, sum=t.double().sum().item())
                if res["data"] is None:
                    res["crc"] = zlib.crc32(t.contiguous().numpy().tobytes())
            except Exception as e:  # noqa: BLE001
                sys.settrace(None)
                ch.quiet = 1
                res = dict(ok=False, err=f"{type(e).__name__}: {e}"[:300])
            ch.send(r=dict(res, served=getattr(ch, "served", 0)))

        return Actor(0, fn)

    def expected(self, img, size):
        d = torch.from_numpy(np.array(img, dtype=np.float32) / 255.0)
        if size:
            d = F.interpolate(d[None, None], size=tuple(size), mode="bilinear", align_corners=False)[0, 0]
        return d

    def judge(self, who, a, act, img):
        """Outcome of a finished attempt."""
        r = act.result
        if r["ok"]:
            ref = self.expected(img, a["size"])
            if r["shape"] != list(ref.shape):
                raise Violation("partial-data", f"{who} returned shape {r['shape']}, complete data has {list(ref.shape)}")
            if r["data"] is not None:
                same = torch.allclose(torch.tensor(r["data"], dtype=torch.float64).view(ref.shape), ref.double(), atol=1e-6)
            else:
                same = r["crc"] == zlib.crc32(ref.contiguous().numpy().tobytes())
            if not same:
                raise Violation("partial-data", f"{who} returned data that differs from the complete data set")
        elif not [f for f in act.fired if f != "write:short"]:
            raise Violation("partial-data", f"{who} met no fault of its own but failed with {r['err']}")

    def run(self, cfg, rs, schedule=None):
        rng = random.Random("run:" + rs)
        base = tempfile.mkdtemp(prefix="thsim14-", dir="/dev/shm" if os.access("/dev/shm", os.W_OK) else None)
        trace = self.last_trace = []
        sched = list(schedule) if schedule is not None else None
        live = []
        self._last = None
        try:
            root = os.path.join(base, "root")
            os.mkdir(root)
            cache = None if cfg["cache"] == "default" else os.path.join(root, "cache") if cfg["cache"] == "arg" else root
            if cfg["cache"] == "arg":
                os.mkdir(cache)
            cdir = cache or root
            known = {cdir: "<dir>", root: "<root>"}
            img = np.random.RandomState(zlib.crc32(rs.encode()) & 0x7FFFFFFF).randint(0, 256, cfg["shape"])
            body = encode(img)
            known.update({os.path.join(cdir, "mola_topo.jpg"): "<file>"})
            faults, steps, cached, nontrivial = {}, 0, False, False
            n = 0
            for rd in cfg["rounds"] + [[dict(net=dict(kind="ok"), fs={}, crash=None, size=None)], [dict(net=dict(kind="refused"), fs={}, crash=None, size=None)]]:
                acts = []
                for a in rd:
                    act = self.attempt(a, root, cache, known, body)
                    act.idx = n
                    n += 1
                    acts.append((a, act))
                    live.append(act)
                nontrivial |= len(rd) > 1
                had = cached
                while True:
                    en = [i for i, (a, x) in enumerate(acts) if not x.done]
                    if not en:
                        break
                    i = None
                    if sched is not None:
                        while sched and i is None:
                            lab = sched.pop(0)
                            for j in en:
                                if lab == f"{acts[j][1].idx} {acts[j][1].label}" or lab == f"{acts[j][1].idx} KILL":
                                    i = j
                                    break
                        kill = i is not None and lab.endswith("KILL")
                        if i is None:
                            i, kill = en[0], False
                    else:
                        if cfg["style"] == "burst" and acts[-1] and getattr(self, "_last", None) in en and rng.random() < 0.8:
                            i = self._last
                        elif cfg["style"] == "rr":
                            i = min(en, key=lambda j: acts[j][1].points)
                        else:
                            i = rng.choice(en)
                        kill = acts[i][0]["crash"] is not None and acts[i][1].points >= acts[i][0]["crash"]
                    self._last = i
                    a, x = acts[i]
                    steps += 1
                    if kill:
                        trace.append(f"{x.idx} KILL")
                        x.kill()
                        x.fired.append("crash")
                    else:
                        trace.append(f"{x.idx} {x.label}")
                        x.step()
                    if steps > 20000:
                        raise Violation("no-progress", "an attempt does not finish")
                for a, x in acts:
                    for f in x.fired:
                        faults[f] = faults.get(f, 0) + 1
                        nontrivial = True
                    who = f"attempt {x.idx}"
                    if x.killed:
                        continue
                    self.judge(who, a, x, img)
                    if had and x.result["served"] and not x.fired:
                        raise Violation("downloaded-again", f"{who} went to the network although an earlier attempt had returned the complete data")
                    if x.result["ok"]:
                        cached = True
            dg = zlib.crc32("\n".join(trace).encode())
            return Result(steps=steps, digest=f"{dg:08x}{len(trace)}", faults=faults, ops={"attempts": n}, nontrivial=nontrivial, state=json.dumps(sorted(faults)) + str([len(r) for r in cfg["rounds"]]))
        finally:
            for x in live:
                if not x.done:
                    x.kill()
            shutil.rmtree(base, ignore_errors=True)

    def shrink(self, cfg):
        R = cfg["rounds"]
        for i in range(len(R)):
            if len(R) > 1:
                yield dict(cfg, rounds=R[:i] + R[i + 1 :])
            for j in range(len(R[i])):
                if len(R[i]) > 1:
                    yield dict(cfg, rounds=R[:i] + [R[i][:j] + R[i][j + 1 :]] + R[i + 1 :])
        for i in range(len(R)):
            for j, a in enumerate(R[i]):
                for k, v in (("crash", None), ("fs", {}), ("net", dict(kind="ok")), ("size", None)):
                    if a[k] != v:
                        yield dict(cfg, rounds=R[:i] + [R[i][:j] + [dict(a, **{k: v})] + R[i][j + 1 :]] + R[i + 1 :])
        if cfg["shape"] != [4, 8]:
            yield dict(cfg, shape=[4, 8])
        if cfg["cache"] != "arg":
            yield dict(cfg, cache="arg")


CHECK = C14()
