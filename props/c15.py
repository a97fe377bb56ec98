"""C15: preparing the Stanford data set is all-or-nothing."""

import hashlib
import io
import json
import os
import random
import shutil
import sys
import tarfile
import tempfile
import zlib

import numpy as np

from thsim import fakes
from thsim.core import HarnessError, Violation
from thsim.procsim import Actor
from thsim.search import Check, Result, load_known

CLASSES = ["ceiling_1_hallway_1_1", "floor_1_hallway_1_1", "wall_2_office_3_4", "wall_5_office_3_4", "chair_1_office_1_2"]


def archive(area, samples, shape, seed):
    """A tar file like those of the data set."""
    rs = np.random.RandomState(seed)
    buf = io.BytesIO()
    with tarfile.open(fileobj=buf, mode="w") as t:

        def add(name, data=None):
            ti = tarfile.TarInfo(name)
            if data is None:
                ti.type, ti.mode = tarfile.DIRTYPE, 0o755
                t.addfile(ti)
            else:
                ti.size, ti.mode = len(data), 0o644
                t.addfile(ti, io.BytesIO(data))

        h, w = shape
        for d in ("", "/pano", "/pano/rgb", "/pano/semantic", "/pano/depth"):
            add(area + d)
        for k in range(samples):
            n = f"camera_{area}_{k}_office_frame_equirectangular_domain"
            add(f"{area}/pano/rgb/{n}_rgb.png", fakes.png(rs.randint(0, 256, (h, w, 4)).astype(np.uint8)))
            ids = rs.randint(0, len(CLASSES), (h, w))
            add(f"{area}/pano/semantic/{n}_semantic.png", fakes.png(np.stack([ids * 0, ids * 0, ids], -1).astype(np.uint8)))
            add(f"{area}/pano/depth/{n}_depth.png", fakes.png(rs.randint(0, 65536, (h, w)).astype(np.uint16)))
    return buf.getvalue()


def sample_attempt(rng, faulty):
    a = dict(net=dict(kind="ok"), fs={}, crash=None)
    a["net"].update(chunked=rng.random() < 0.3, mss=rng.choice([700, 3000, 1 << 16]), chunk=rng.choice([500, 4000]), ranges=rng.random() < 0.8)
    if not faulty:
        return a
    r = rng.random()
    if r < 0.35:
        k = rng.choice(["reset", "timeout", "eof", "eof", "status", "refused"])
        a["net"].update(kind=k, req=rng.choice([0, 0, 1, 2, 3]), at=rng.choice([0.0, rng.random(), rng.random(), 0.999]), code=rng.choice([403, 404, 500, 503]))
    elif r < 0.6:
        cls = rng.choice(["write", "write", "write", "open", "rename", "read", "openr", "meta", "unlink"])
        f = rng.choice(["short", "ENOSPC", "EIO"]) if cls == "write" else rng.choice(["ENOSPC", "EIO"])
        a["fs"][cls] = [rng.choice([0, 1, 2, rng.randrange(12), rng.randrange(40)]), f]
    else:
        a["crash"] = rng.choice([rng.randrange(1, 30), rng.randrange(1, 120), rng.randrange(1, 300)])
    return a


class C15(Check):
    id = "C15"
    quick_runs, quick_wall = 2500, 40
    thorough_runs, thorough_wall = 100000, 1200
    time_unit = "scheduler steps (file-system calls and network reads of the attempts)"
    rule = "a run is a history of attempts to prepare the data set, each with network, disk or crash faults, followed by attempts without faults; non-trivial when a fault fired; distinct when the hash of the full sequence of scheduling points differs"
    components = {
        "real code": ["torch_harmonics.examples.stanford_2d3ds_dataset.Stanford2D3DSDownloader", "tarfile, hashlib, http.client response parsing", "Python file objects, operating-system files in a scratch directory", "real processes, killed with SIGKILL"],
        "stub": ["requests over a simulated connection with range requests", "h5py, PIL and tqdm (not installed here; executable stand-ins that write and read real files)"],
    }
    assumptions = ["one process prepares a directory at a time", "a process crash loses user-space buffers and keeps what the operating system was given (no power loss)", "the HTTP library reports bodies shorter than declared"]

    def prepare(self):
        import torch_harmonics.examples.stanford_2d3ds_dataset  # noqa: F401

    def sample(self, rng):
        areas = [[rng.randint(1, 3), rng.randrange(1000)] for _ in range(rng.choice([1, 1, 2, 3]))]
        if len(areas) == 1:
            areas[0][0] = rng.randint(2, 4)  # the statistics need two samples
        return dict(
            areas=areas, shape=rng.choice([[4, 8], [6, 12], [8, 16]]), factor=rng.choice([1, 2]), sums=rng.choice(["all", "all", "some", "none"]),
            attempts=[sample_attempt(rng, rng.random() < 0.85) for _ in range(rng.randint(1, 4))],
            tidy=rng.random() < 0.85,  # the user removes what the known findings trip over
        )

    def leftovers(self, data, files, done):
        """What interrupted attempts left behind, as far as it matters for the known findings."""
        left = {}
        for n in files:
            tar, stem = os.path.join(data, n), os.path.splitext(os.path.join(data, n))[0]
            folder = os.path.join(data, n.replace("_no_xyz.tar", ""))
            if n.endswith(".tar") and os.path.exists(tar) and os.path.isdir(folder):
                left.setdefault("interrupted-extraction", []).append(folder)
            if os.path.exists(stem + ".part") and os.path.getsize(stem + ".part") >= len(files[n]):
                left.setdefault("complete-part", []).append(stem + ".part")
        h5 = os.path.join(data, "stanford_2d3ds_dataset.h5")
        if os.path.exists(h5) and not done:
            left["interrupted-conversion"] = [h5]
        return left

    def known(self, cfg, v):
        left = getattr(v, "left", None) or {}
        listed = {k["finding"] for k in load_known(self.id)}
        for f, ok in (
            ("interrupted-conversion", v.kind == "partial-data"),
            ("interrupted-extraction", v.kind in ("partial-data", "stuck")),
            ("complete-part", v.kind == "stuck" and "416" in v.msg),
        ):
            if f in left and ok and f in listed:
                return f
        return None

    def attempt(self, idx, a, root, data, known, files, cfg):
        names = [f"area_{i}_no_xyz.tar" for i in range(len(cfg["areas"]))]
        pairs = [(n, f"area_{i}") for i, n in enumerate(names)]
        sums = {n: hashlib.sha256(files[n]).hexdigest() for i, n in enumerate(names) if cfg["sums"] == "all" or i == 0}

        def fn(ch):
            server = fakes.Server(ch, files, a["net"])
            fakes.install(sys.modules, server)
            from torch_harmonics.examples.stanford_2d3ds_dataset import Stanford2D3DSDownloader

            ch.install(root, known, {k: tuple(v) for k, v in a["fs"].items()}, lines=False)
            tarfile.bltn_open = open
            sys.stdout = open(os.devnull, "w")
            ch.point("start")
            try:
                d = Stanford2D3DSDownloader(base_url="https://sim/2d3ds", local_dir=data, checksums=None if cfg["sums"] == "none" else sums)
                p = d.prepare_dataset(file_extracted_directory_pairs=pairs, downsampling_factor=cfg["factor"])
                ch.quiet = 1
                res = dict(ok=True, path=p)
            except Exception as e:  # noqa: BLE001
                ch.quiet = 1
                res = dict(ok=False, err=f"{type(e).__name__}: {e}"[:300])
            ch.send(r=dict(res, served=server.n))

        return Actor(idx, fn)

    def read(self, path):
        d = fakes.log_read(path)
        src = [os.path.basename(s.decode() if isinstance(s, bytes) else str(s)) for s in d["data_source_path"]]
        samples = {}
        for i, n in enumerate(src):
            samples[n] = {k: np.asarray(d[k][i]) for k in ("rgb", "semantic", "depth")}
        stats = {k: np.asarray(v, dtype=np.float64) for k, v in d.items() if k not in ("rgb", "semantic", "depth", "data_source_path", "data_target_path", "class_labels")}
        return dict(samples=samples, n=len(src), stats=stats, labels=list(d["class_labels"]), keys=sorted(d))

    def judge(self, who, path, ref):
        try:
            got = self.read(path)
        except Exception as e:  # noqa: BLE001
            raise Violation("partial-data", f"{who} returned a data set that cannot be read: {type(e).__name__}: {e}") from e
        if got["n"] != ref["n"] or got["samples"].keys() != ref["samples"].keys():
            raise Violation("partial-data", f"{who} returned a data set with {len(got['samples'])} of {ref['n']} samples")
        if got["keys"] != ref["keys"] or got["labels"] != ref["labels"]:
            raise Violation("partial-data", f"{who} returned a data set with entries {got['keys']} instead of {ref['keys']}")
        for n, s in ref["samples"].items():
            for k, v in s.items():
                if not np.array_equal(v, got["samples"][n][k]):
                    raise Violation("partial-data", f"{who}: {k} of sample {n} differs from that of an undisturbed preparation")
        for k, v in ref["stats"].items():
            if v.shape != got["stats"][k].shape or not np.allclose(v, got["stats"][k], rtol=1e-3, atol=1e-5, equal_nan=True):
                raise Violation("partial-data", f"{who}: statistics {k} differ from those of an undisturbed preparation")

    def drive(self, act, a, trace, sched=None):
        n = 0
        while not act.done:
            kill = a["crash"] is not None and act.points >= a["crash"]
            if sched is not None:
                while sched and sched[0].split(" ", 1)[0] != str(act.idx):
                    sched.pop(0)
                kill = bool(sched) and sched.pop(0).endswith(" KILL")
            n += 1
            if kill:
                trace.append(f"{act.idx} KILL")
                act.kill()
                act.fired.append("crash")
            else:
                trace.append(f"{act.idx} {act.label}")
                act.step()
            if n > 20000:
                raise Violation("no-progress", "an attempt does not finish")
        return n

    def run(self, cfg, rs, schedule=None):
        base = tempfile.mkdtemp(prefix="thsim15-", dir="/dev/shm" if os.access("/dev/shm", os.W_OK) else None)
        trace = self.last_trace = []
        sched = list(schedule) if schedule is not None else None
        live = []
        try:
            files = {f"area_{i}_no_xyz.tar": archive(f"area_{i}", n, cfg["shape"], s) for i, (n, s) in enumerate(cfg["areas"])}
            files["semantic_labels.json"] = json.dumps(CLASSES).encode()
            good = dict(net=dict(kind="ok"), fs={}, crash=None)

            def go(idx, a, where, tr):
                root = os.path.join(base, where)
                data = os.path.join(root, "data")
                known = {root: "<root>", data: "<data>", os.path.join(data, "stanford_2d3ds_dataset.h5"): "<h5>"}
                act = self.attempt(idx, a, root, data, known, files, cfg)
                live.append(act)
                return act, self.drive(act, a, tr, sched if where == "root" else None)

            os.mkdir(os.path.join(base, "ref"))
            os.mkdir(os.path.join(base, "root"))
            act, _ = go(0, good, "ref", [])
            if not act.result["ok"]:
                raise Violation("refused", f"an undisturbed preparation fails: {act.result['err']}")
            try:
                ref = self.read(act.result["path"])
            except Exception as e:  # noqa: BLE001
                raise HarnessError(f"reference data set: {e}") from e
            if ref["n"] != sum(n for n, _ in cfg["areas"]):
                raise Violation("partial-data", f"an undisturbed preparation gives {ref['n']} of {sum(n for n, _ in cfg['areas'])} samples")
            faults, steps, done = {}, 0, False
            for i, a in enumerate(cfg["attempts"] + [good, dict(good, net=dict(kind="refused"))]):
                left = self.leftovers(os.path.join(base, "root", "data"), files, done)
                if cfg["tidy"]:
                    for p in sum(left.values(), []):
                        shutil.rmtree(p) if os.path.isdir(p) else os.remove(p)
                    left = {}
                act, k = go(i + 1, a, "root", trace)
                steps += k
                for f in act.fired:
                    faults[f] = faults.get(f, 0) + 1
                if act.killed:
                    continue
                who = f"attempt {i + 1}"
                if act.result["ok"]:
                    self.judge(who, act.result["path"], ref)
                    if done and act.result["served"]:
                        raise Violation("downloaded-again", f"{who} went to the network although an earlier attempt had prepared the data set")
                    done = True
                elif not [f for f in act.fired if f != "write:short"]:
                    raise Violation("stuck", f"{who} met no fault of its own but failed with {act.result['err']}")
            dg = zlib.crc32("\n".join(trace).encode())
            return Result(steps=steps, digest=f"{dg:08x}{len(trace)}", faults=faults, ops={"attempts": len(cfg["attempts"]) + 2}, nontrivial=bool(faults), state=json.dumps(sorted(faults)) + str(len(cfg["areas"])))
        except Violation as v:
            v.left = locals().get("left")
            raise
        finally:
            for x in live:
                if not x.done:
                    x.kill()
            shutil.rmtree(base, ignore_errors=True)

    def shrink(self, cfg):
        A = cfg["attempts"]
        for i in range(len(A)):
            if len(A) > 1:
                yield dict(cfg, attempts=A[:i] + A[i + 1 :])
        if len(cfg["areas"]) > 1:
            yield dict(cfg, areas=[[2, 1]])
        for i, a in enumerate(A):
            for k, v in (("crash", None), ("fs", {}), ("net", dict(kind="ok"))):
                if a[k] != v:
                    yield dict(cfg, attempts=A[:i] + [dict(a, **{k: v})] + A[i + 1 :])
        for k, v in (("shape", [4, 8]), ("factor", 1), ("sums", "all"), ("tidy", True)):
            if cfg[k] != v:
                yield dict(cfg, **{k: v})


CHECK = C15()
