"""C11: the multi-threaded CPU kernels do not depend on the number, work distribution or interleaving of threads."""

import ctypes
import json
import os
import random
import signal
import subprocess
import sys
import threading
import zlib

import torch

from props.c12 import det_params, rnd
from thsim import ompbuild, search, threads
from thsim.core import HarnessError, Violation
from thsim.search import Check, Result
from thsim.threads import isolated

GRIDS = ["equiangular", "legendre-gauss", "lobatto"]
STYLES = ["fine", "mixed", "coarse", "places", "stalled"]


def new_case(rng, k):
    c = dict(k=k, g1=rng.choice(GRIDS), g2=rng.choice(GRIDS), b=rng.choice([1, 1, 2, 3]), grad=rng.random() < 0.8, seed=rng.randrange(1000), bias=rng.random() < 0.3)
    p = rng.choice([1, 1, 2, 2, 3, 4])
    small = [rng.randint(3, 6), rng.choice([4, 5, 6, 8])]
    if k == "att" and p > 1:
        small[1] = 4
    big = [max(small[0], rng.randint(4, 8)), small[1] * p]
    c.update(small=small, big=big, f64=rng.random() < 0.25)
    if k in ("disco", "discot"):
        b = rng.choice(["piecewise linear", "harmonic", "zernike"])
        c.update(basis=b, ks={"piecewise linear": [2, 3], "harmonic": [2, 2], "zernike": [3]}[b], groups=rng.choice([1, 1, 2]), cut=rng.choice([None, 0.9]), fused=k == "disco" and rng.random() < 0.3)
        g = c["groups"]
        c.update(ci=g * rng.choice([1, 2, 3]), co=g * rng.choice([1, 2]))
    else:
        h = rng.choice([1, 1, 2])
        c["f64"] = False  # the kernels take single precision only
        c.update(dir=rng.choice(["self", "down", "down", "up", "up"]), heads=h, qkn=rng.random() < 0.3, cut=rng.choice([None, None, 1.0]), ci=h * rng.choice([1, 2, 3]), kc=h * rng.choice([1, 2, 4]), co=h * rng.choice([1, 2, 3]))
        c["qkn"] = c["qkn"] and c["ci"] > 1  # ill-conditioned otherwise
        if rng.random() < 0.15:  # more longitudes than one block of the kernels
            w = rng.choice([66, 70, 129])
            c.update(b=1, kc=h, co=h * rng.choice([1, 2]), cut=rng.choice([0.5, 1.0]), small=[3, w // 2 if c["dir"] == "up" and w % 2 == 0 else w], big=[3, w])
            if c["dir"] == "down":
                c["big"] = [4, 2 * w if w < 100 else w]
        elif rng.random() < 0.12:  # more channels than one cache block of the kernels
            wide = rng.choice(["kc", "co"])
            c.update({wide: h * rng.choice([65, 70])}, b=1, big=[4, 4 * min(p, 2)], small=[3, 4], grad=rng.random() < 0.5)
    return c


def build(c):
    import torch_harmonics as th

    kw = dict(grid_in=c["g1"], grid_out=c["g2"], bias=c["bias"])
    if c["k"] in ("disco", "discot"):
        kw.update(kernel_shape=tuple(c["ks"]), basis_type=c["basis"], groups=c["groups"], theta_cutoff=c["cut"], optimized_kernel=True)
        if c["k"] == "disco":
            m = th.DiscreteContinuousConvS2(c["ci"], c["co"], tuple(c["big"]), tuple(c["small"]), fused=c["fused"], **kw)
        else:
            m = th.DiscreteContinuousConvTransposeS2(c["ci"], c["co"], tuple(c["small"]), tuple(c["big"]), **kw)
    else:
        a, b = shapes(c)
        m = th.NeighborhoodAttentionS2(c["ci"], a, b, num_heads=c["heads"], use_qknorm=c["qkn"], theta_cutoff=c["cut"], k_channels=c["kc"], out_channels=c["co"], optimized_kernel=True, **kw)
    det_params(m)
    return m.to(torch.float64) if c["f64"] else m


def shapes(c):
    """Shapes of the input and the output grid of an attention module."""
    big, small = tuple(c["big"]), tuple(c["small"])
    return {"self": (big, big), "down": (big, small), "up": (small, big)}[c["dir"]]


def call(c, m):
    s, dt = c["seed"], torch.float64 if c["f64"] else torch.float32
    if c["k"] in ("disco", "discot"):
        xs = [rnd(c["b"], c["ci"], *(c["big"] if c["k"] == "disco" else c["small"]), seed=s).to(dt)]
    else:
        a, o = shapes(c)
        xs = [rnd(c["b"], c["ci"], *sh, seed=s + i).to(dt) for i, sh in enumerate((o, a, a))]
    leaves = []
    if c["grad"]:
        for x in xs:
            x.requires_grad_(True)
        leaves = xs + [p for _, p in m.named_parameters()]
    with torch.set_grad_enabled(c["grad"]), torch.autograd.set_multithreading_enabled(False):
        y = m(*xs)
        vals = [y]
        if c["grad"]:
            vals += [torch.zeros(()) if g is None else g for g in torch.autograd.grad(y, leaves, rnd(*y.shape, seed=s + 5).to(y.dtype), allow_unused=True)]
    return [v.detach() for v in vals]


def largest(t):
    return torch.nan_to_num(t, 0.0, 0.0, 0.0).abs().max().item() if t.numel() else 0.0


def tolerance(c, b, ref):
    """Some gradients vanish but for rounding (that of the key's bias, for one): the others give the scale."""
    scale = max(largest(b), 0.1 * max(largest(t) for t in ref), 1e-3)
    return scale * (1e-9 if c["f64"] and c["k"] != "att" else 3e-4)


_universe = []


def universe():
    if not _universe:
        rng = random.Random("universe11:" + os.environ.get("VERIF_SEED", "1"))
        kinds = ["disco", "discot", "att", "att"]
        n = 800 if os.environ.get("VERIF_TIER") == "thorough" else 240
        _universe.extend(new_case(rng, kinds[i % len(kinds)]) for i in range(n))
    return _universe


def reference(c):
    """The ordinary single-threaded build."""
    return [v.clone() for v in call(c, build(c))]


def compute_references(cases, memo):
    def one(part):
        for c in part:
            try:
                r = reference(c)
            except Exception as e:  # noqa: BLE001
                r = ("raised", f"{type(e).__name__}: {e}")
            memo.get(json.dumps(c, sort_keys=True), lambda: r)
        return (None, [])

    import multiprocessing as mp

    ctx = mp.get_context("fork")
    n = min(8, os.cpu_count() or 1)
    ps = [ctx.Process(target=one, args=(cases[i::n],)) for i in range(n)]
    for p in ps:
        p.start()
    for p in ps:
        p.join()


class C11(Check):
    id = "C11"
    quick_runs, quick_wall = 8000, 40
    thorough_runs, thorough_wall = 200000, 1200
    time_unit = "scheduling points (memory accesses of kernel code)"
    rule = "a run is one to three callers making kernel calls with teams of one to sixteen simulated threads; non-trivial when at least one parallel region had two threads or more; distinct when the hash of cases and thread switches differs"
    components = {"real code": ["CPU kernels of DISCO convolution and neighborhood attention and their dispatch (compiled from the working tree with OpenMP)", "modules and autograd functions that call them", "PyTorch CPU operators"], "stub": ["OpenMP runtime (teams, work sharing, barriers, critical sections, locks, atomics)", "thread scheduling (one baton, switches at memory accesses of kernel code)", "mutexes and static-initialisation guards used by kernel code"]}
    assumptions = ["memory is sequentially consistent at the granularity of the compiled accesses", "compiled with -O1: the access sequence of another optimisation level can differ", "PyTorch's own operators run single-threaded"]

    def __init__(self):
        self.memo = None

    def prepare(self):
        d = ompbuild.ensure()
        if "libsimomp" not in os.environ.get("LD_PRELOAD", ""):
            try:  # addresses do not vary from process to process
                ctypes.CDLL(None).personality(0x0040000)
            except Exception:  # noqa: BLE001
                pass
            sys.stdout.flush()
            os.execve(sys.executable, [sys.executable, *sys.argv], dict(os.environ, LD_PRELOAD=os.path.join(d, "libsimomp.so")))
        self.memo = threads.SharedMemo()
        cases = list(universe())
        if "--replay" in sys.argv:
            with open(sys.argv[sys.argv.index("--replay") + 1]) as f:
                cases = [c for t in json.load(f)["cfg"]["callers"] for c in t]
        compute_references(cases, self.memo)
        ompbuild.install(d)
        import torch_harmonics  # noqa: F401

        lib = self.lib = ctypes.CDLL(os.path.join(d, "libsimomp.so"))
        lib.simctl_begin.argtypes = [ctypes.c_uint64, ctypes.c_int, ctypes.c_int, ctypes.c_int, ctypes.c_int, ctypes.c_uint64, ctypes.c_int, ctypes.POINTER(ctypes.c_int64), ctypes.c_int64]
        lib.simctl_enter.argtypes = [ctypes.c_int]
        lib.simctl_stat.restype = ctypes.c_uint64
        lib.simctl_race.restype = ctypes.c_uint64
        lib.simctl_where.restype = ctypes.c_int64
        lib.simctl_where.argtypes = [ctypes.c_int, ctypes.c_char_p, ctypes.c_int64]
        lib.simctl_trace_len.restype = ctypes.c_int64
        lib.simctl_trace.restype = ctypes.POINTER(ctypes.c_int64)
        for ext in ompbuild.EXT:
            if ext in sys.modules and not sys.modules[ext].__file__.startswith(d):
                raise HarnessError(f"{ext} is not the simulated build")

    def sample(self, rng):
        u = universe()
        n = rng.choice([1, 1, 1, 2, 3])
        first = rng.choice(u)
        same = [c for c in u if (c["k"], c.get("dir")) == (first["k"], first.get("dir"))]  # other sizes, same kernel
        callers = []
        for i in range(n):
            cs = [rng.choice([rng.choice(u), rng.choice(same), first, first]) for _ in range(rng.choice([1, 1, 2, 3]))]
            callers.append(cs)
        return dict(callers=callers, shared=rng.random() < 0.5, threads=rng.choice([1, 2, 2, 3, 3, 4, 5, 7, 8, 16]), dyn=rng.random() < 0.25, style=rng.choice(STYLES), places=rng.random() < 0.5, points=rng.choice([2000, 20000, 100000]), perturb=rng.choice([0, 0xA5, 0x3C, 0xFF]))

    def reference(self, c):
        def missing():
            raise HarnessError("no reference value for this case")

        return self.memo.get(json.dumps(c, sort_keys=True), missing)

    def run(self, cfg, rs, schedule=None):
        refs = [[self.reference(c) for c in cs] for cs in cfg["callers"]]
        lib = self.lib

        def child():
            signal.alarm(200)
            torch.set_num_threads(1)
            if cfg["perturb"]:
                ctypes.CDLL(None).mallopt(-6, cfg["perturb"])
            mods = {}

            def module(c):
                if not cfg["shared"]:
                    return build(c)
                k = json.dumps(c, sort_keys=True)
                return mods[k] if k in mods else mods.setdefault(k, build(c))

            usable = [[(c, r) for c, r in zip(cs, rf) if not (isinstance(r, tuple) and r[0] == "raised")] for cs, rf in zip(cfg["callers"], refs)]
            for u in usable:
                for c, _ in u:
                    if cfg["shared"]:
                        module(c)
            flat = [int(x) for s in schedule for x in s.split()] if schedule is not None else []
            arr = (ctypes.c_int64 * max(1, len(flat)))(*flat)
            seed = random.Random("run:" + rs).getrandbits(64)
            n = len(usable)
            errs = [None] * n
            lib.simctl_begin(seed, STYLES.index(cfg["style"]), cfg["threads"], int(cfg["dyn"]), n, cfg["points"], int(cfg["places"] or cfg["style"] == "places"), arr if schedule is not None else None, len(flat))

            def caller(i):
                lib.simctl_enter(i)
                try:
                    for c, r in usable[i]:
                        vals = call(c, module(c))
                        for j, (a, b) in enumerate(zip(vals, r)):
                            what = "output" if j == 0 else f"gradient {j - 1}"
                            if a.shape != b.shape or a.dtype != b.dtype:
                                raise Violation("value", f"caller {i} {c}: {what} is {tuple(a.shape)} {a.dtype}, single-threaded it is {tuple(b.shape)} {b.dtype}")
                            fin = torch.isfinite(b)
                            if not torch.equal(torch.isfinite(a), fin):
                                raise Violation("value", f"caller {i} {c}: {what} is not finite where the single-threaded one is")
                            d = torch.where(fin, a - b, torch.zeros_like(a)).abs().max().item() if a.numel() else 0.0
                            if d > tolerance(c, b, r):
                                raise Violation("value", f"caller {i}, {cfg['threads']} threads, {c}: {what} differs from the single-threaded one by {d:.3e} (largest entry {largest(b):.3e})")
                except BaseException as e:  # noqa: BLE001
                    errs[i] = e
                finally:
                    lib.simctl_leave()

            ts = [threading.Thread(target=caller, args=(i,)) for i in range(n)]
            for t in ts:
                t.start()
            for t in ts:
                t.join()
            lib.simctl_end()
            st = [lib.simctl_stat(i) for i in range(9)]
            points, switches, regions, par, maxteam, digest, checked, raced, overflow = st

            def trace():
                m, p = lib.simctl_trace_len(), lib.simctl_trace()
                return [f"{p[i]} {p[i + 1]}" for i in range(0, m, 2)]

            try:
                if raced:
                    raise Violation("data-race", self.describe_race())
                if overflow:
                    raise Violation("overflow", f"memory was written behind the end of an allocated block of {overflow - 1} bytes (team of up to {maxteam} threads)")
                for e in errs:
                    if e is not None:
                        raise e
            except Exception as e:  # noqa: BLE001
                v = search._classify(e)
                if v is None:
                    raise
                v.trace = trace()
                raise v from None
            faults = {}
            if switches:
                faults["thread-switches"] = switches
            if cfg["dyn"] and par:
                faults["reduced-team"] = 1
            if cfg["style"] == "stalled" and par:
                faults["stalled-thread"] = 1
            if cfg["perturb"]:
                faults["garbage-in-fresh-memory"] = 1
            dg = zlib.crc32(json.dumps(cfg["callers"], sort_keys=True).encode())
            kinds = [c["k"] + (":" + c["dir"] if c["k"] == "att" else "") + (":grad" if c["grad"] else "") for cs in cfg["callers"] for c in cs]
            return (Result(steps=points, digest=f"{dg:08x}{digest:016x}", faults=faults, ops={"kernel calls": len(kinds), "parallel regions": par, "checked accesses": checked}, nontrivial=par > 0, state=f"{sorted(set(kinds))}{maxteam}{n}", probes=kinds + [f"team-{maxteam}", f"callers-{n}", "style-" + cfg["style"]]), [])

        r = isolated(child)
        if r[0] == "ok":
            self.last_trace = r[2]
            return r[1]
        if r[0] == "violation":
            self.last_trace = r[3]
            raise Violation(r[1], r[2])
        if r[0] == "died":
            if os.WIFEXITED(r[1]):
                code = os.WEXITSTATUS(r[1])
                if code == 77:
                    raise Violation("deadlock", "every simulated thread waits")
                if code == 80:
                    raise Violation("no-progress", "the kernels did not finish")
            elif os.WTERMSIG(r[1]) not in (signal.SIGALRM, signal.SIGKILL):
                raise Violation("crash", f"the process died with signal {os.WTERMSIG(r[1])}")
            raise HarnessError(f"a simulated run ended with status {r[1]}")
        raise HarnessError(r[1])

    def describe_race(self):
        lib = self.lib
        out = []
        ow, w = divmod(lib.simctl_race(4), 2)
        for i, (wr, t) in enumerate(((ow, lib.simctl_race(2)), (w, lib.simctl_race(3)))):
            buf = ctypes.create_string_buffer(1024)
            off = lib.simctl_where(i, buf, 1024)
            where = "?"
            if off >= 0:
                try:
                    where = subprocess.run(["addr2line", "-e", buf.value.decode(), hex(off - 1)], stdout=subprocess.PIPE, text=True, env={k: v for k, v in os.environ.items() if k != "LD_PRELOAD"}).stdout.strip().split(" ")[0]
                    where = os.path.relpath(where, os.environ.get("THSIM_REPO", "/repo")) if where.startswith("/") else where
                except Exception:  # noqa: BLE001
                    pass
            out.append(f"thread {t} {'writes' if wr else 'reads'} at {where}")
        return "unsynchronised accesses to the same memory in one parallel region: " + "; ".join(out)

    def shrink(self, cfg):
        C = cfg["callers"]
        for i in range(len(C)):
            if len(C) > 1:
                yield dict(cfg, callers=C[:i] + C[i + 1 :])
            for j in range(len(C[i])):
                if len(C[i]) > 1:
                    yield dict(cfg, callers=C[:i] + [C[i][:j] + C[i][j + 1 :]] + C[i + 1 :])
        for k, v in (("perturb", 0), ("dyn", False), ("threads", 2), ("threads", 3), ("style", "coarse"), ("places", False), ("points", 2000)):
            if cfg[k] != v:
                yield dict(cfg, **{k: v})


CHECK = C11()
