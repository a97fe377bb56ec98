"""C12: cached precomputations cannot be corrupted by callers, history or threads."""

import contextlib
import json
import os
import random
import zlib

import numpy as np
import torch

from thsim import search, threads
from thsim.core import HarnessError, Violation
from thsim.faults import FailingOps, InjectedOOM
from thsim.search import Check, Result
from thsim.threads import Threads, isolated

GRIDS = ["equiangular", "legendre-gauss", "lobatto", "equiangular-trapezoidal"]
BASES = ["piecewise linear", "harmonic", "zernike", "fourier-bessel", "morlet"]


def num(v, how):
    return np.int64(v) if how == "np" else v


def shape_of(basis, k):
    return tuple(k) if isinstance(k, list) else k


def sample_op(rng, pool):
    """One call of the public interface that goes through a cache. JSON-able."""
    if pool and rng.random() < 0.55:
        return rng.choice(pool)
    fam = universe()
    op = rng.choice(rng.choice(fam))
    if pool and rng.random() < 0.5:  # a call that differs from an earlier one in one argument
        f = [f for f in fam if pool[-1] in f]
        op = rng.choice(f[0]) if f else op
    pool.append(op)
    return op


_universe = []


def universe():
    """The argument sets of this seed: few enough that their fresh references are computed once per worker."""
    if not _universe:
        rng = random.Random("universe:" + os.environ.get("VERIF_SEED", "1"))
        for _ in range(700 if os.environ.get("VERIF_TIER") == "thorough" else 160):
            op = new_op(rng)
            fam = [op]
            for _ in range(100):
                o = new_op(rng)
                diff = [k for k in o if k in op and o[k] != op[k]] if o["k"] == op["k"] else []
                if diff:
                    k = rng.choice(diff)
                    if dict(op, **{k: o[k]}) not in fam:
                        fam.append(dict(op, **{k: o[k]}))
                if len(fam) == 4:
                    break
            _universe.append(fam)
    return _universe


def new_op(rng):
    k = rng.choices(["lat", "lon", "basis", "psi", "sht", "vsht", "quad", "disco", "discot", "resample", "legpoly", "natt", "bad", "spectral", "att", "rule", "deco"], [5, 3, 5, 4, 3, 2, 2, 4, 2, 2, 3, 1, 1, 1, 1, 3, 5])[0]
    h = rng.randint(3, 9)
    w = rng.choice([2 * h, 2 * h - 2, rng.randint(4, 14)])
    op = dict(k=k)
    if k == "lat":
        op.update(n=rng.randint(2, 40), g=rng.choice(GRIDS), how=rng.choice(["pos", "kw", "np", "default"]))
    elif k == "lon":
        op.update(n=rng.randint(1, 40), how=rng.choice(["pos", "kw", "np"]))
    elif k in ("basis", "psi", "disco", "discot"):
        b = rng.choice(BASES)
        ks = {"piecewise linear": [3, [3], [2, 3], [1, 4], [2, 2], [3, 3]], "harmonic": [[2, 3], [1, 2], [2, 2]], "zernike": [2, 3, [3], [2]], "fourier-bessel": [[2, 1], [1, 2], [2, 2]], "morlet": [[2, 3], [1, 2], [2, 2]]}[b]
        op.update(b=b, ks=rng.choice(ks))
        if k == "basis":
            op.update(cut=rng.choice([0.3, 1.0]), what=rng.choice(["vals", "vals", "norms", "init", "mask", "attrs"]))
        else:
            h2 = rng.choice([h, max(3, h - 2), h + 2])
            op.update(ish=[h, w], osh=[h2, rng.choice([w, w, 2 * h2])], gi=rng.choice(GRIDS[:3]), go=rng.choice(GRIDS[:3]), cut=rng.choice([None, 0.4, 0.9]), bn=rng.choice(["none", "modal", "nodal", "mean"]))
            if k in ("disco", "discot"):
                op.update(opt=rng.random() < 0.5)
                if op["ish"][1] % op["osh"][1] or op["osh"][1] > op["ish"][1]:
                    op["osh"][1] = op["ish"][1]
            if k == "psi":
                op.update(tn=rng.random() < 0.3, mq=rng.random() < 0.3)
    elif k in ("sht", "vsht"):
        op.update(h=h, w=w, g=rng.choice(GRIDS[:3]), norm=rng.choice(["ortho", "four-pi", "schmidt"]), cs=rng.random() < 0.5, inv=rng.random() < 0.5)
    elif k == "quad":
        op.update(h=h, w=w, g=rng.choice(GRIDS[:3]), norm=rng.random() < 0.5)
    elif k == "resample":
        op.update(ish=[h, w], osh=[rng.randint(3, 9), rng.randint(4, 12)], gi=rng.choice(GRIDS[:3]), go=rng.choice(GRIDS[:3]), mode=rng.choice(["bilinear", "bilinear-spherical"]))
    elif k == "legpoly":
        op.update(m=rng.randint(1, 6), l=rng.randint(1, 6), t=rng.randrange(3), norm=rng.choice(["ortho", "four-pi", "schmidt"]), inv=rng.random() < 0.5, cs=rng.random() < 0.5, d=rng.random() < 0.4, reuse=rng.random() < 0.5)
    elif k == "rule":
        op.update(f=rng.choice(["trapezoidal", "legendre_gauss", "lobatto", "clenshaw_curtiss"]), n=rng.randint(3, 20), a=rng.choice([-1.0, 0.0]), b=rng.choice([1.0, 2.0]), kw=rng.random() < 0.5, per=rng.random() < 0.5)
    elif k == "deco":
        op.update(size=rng.choice([1, 2, 20]), typed=rng.random() < 0.7, copy=rng.random() < 0.8, x=rng.choice([1, 1.0, True, 2]), y=rng.choice([1, 1, 2, 5]), style=rng.choice(["pos", "kw", "xonly", "swap", "z"]))
    elif k in ("natt", "att"):
        op.update(h=h, w=2 * h, g=rng.choice(GRIDS[:3]), cut=rng.choice([None, 0.5]))
    elif k == "spectral":
        op.update(h=h, w=2 * h, g=rng.choice(GRIDS[:3]))
    elif k == "bad":
        op.update(what=rng.choice(["grid", "basis", "kernel", "size"]), n=rng.randint(2, 12))
    return op


def rnd(*shape, seed=0, cplx=False):
    g = torch.Generator().manual_seed(seed + 17 * len(shape))
    t = torch.randn(*shape, generator=g, dtype=torch.float64).float()
    if cplx:
        return torch.complex(t, torch.randn(*shape, generator=g, dtype=torch.float64).float())
    return t


def det_values(m, ver=0):
    return {n: rnd(*p.shape, seed=i + 1000 * ver, cplx=p.is_complex()) for i, (n, p) in enumerate(m.named_parameters())}


def det_params(m, ver=0):
    new = det_values(m, ver)
    with torch.no_grad():
        for n, p in m.named_parameters():
            p.copy_(new[n])


AMBIENT = ["infer", "nograd", "meta", "f64", "bf16"]


@contextlib.contextmanager
def ambient(how):
    """What surrounds a call: gradient mode, default device or default dtype."""
    if how in ("f64", "bf16"):
        old = torch.get_default_dtype()
        torch.set_default_dtype(torch.float64 if how == "f64" else torch.bfloat16)
        try:
            yield
        finally:
            torch.set_default_dtype(old)
    else:
        with {"infer": torch.inference_mode, "nograd": torch.no_grad, "meta": lambda: torch.device("meta")}.get(how, contextlib.nullcontext)():
            yield


def perform(op, ctx):
    """Returns (values to compare, objects the caller may scribble on)."""
    if op.get("amb"):
        with ambient(op["amb"]):
            return perform({k: v for k, v in op.items() if k != "amb"}, ctx)
    import torch_harmonics as th
    from torch_harmonics import quadrature
    from torch_harmonics import filter_basis as fb

    k = op["k"]
    if k == "lat":
        f = quadrature.precompute_latitudes
        if op["how"] == "kw":
            r = f(nlat=op["n"], grid=op["g"])
        elif op["how"] == "default" and op["g"] == "equiangular":
            r = f(op["n"])
        else:
            r = f(num(op["n"], op["how"]), op["g"])
        return list(r), list(r)
    if k == "lon":
        f = quadrature.precompute_longitudes
        r = f(nlon=op["n"]) if op["how"] == "kw" else f(num(op["n"], op["how"]))
        return [r], [r]
    if k == "basis":
        b = fb.get_filter_basis(shape_of(op["b"], op["ks"]), op["b"])
        if op["what"] == "vals":
            r, phi = torch.meshgrid(torch.linspace(0, op["cut"], 6, dtype=torch.float64), torch.linspace(0, 6.0, 7, dtype=torch.float64), indexing="ij")
            i, v = b.compute_support_vals(r, phi, r_cutoff=op["cut"])
            return [i, v], [i, v]
        if op["what"] == "norms":
            v = b.compute_l2_norms(r_cutoff=op["cut"], nr=8, nphi=12)
            return [v], [v]
        if op["what"] == "init":
            v = b.get_init_factors()
            return [v], [v]
        if op["what"] == "mask":
            v = b.isotropic_mask
            return [torch.tensor([bool(x) for x in v])], [v]
        return [torch.tensor(b.kernel_size), repr(b)], []
    if k == "psi":
        from torch_harmonics.disco import convolution as dc

        f = getattr(dc, "_precompute_convolution_tensor_s2", None)
        if f is None:
            return [], []
        b = fb.get_filter_basis(shape_of(op["b"], op["ks"]), op["b"])
        kw = dict(grid_in=op["gi"], grid_out=op["go"], transpose_normalization=op["tn"], basis_norm_mode=op["bn"], merge_quadrature=op["mq"])
        kw["theta_cutoff"] = op["cut"] or 0.7
        r = f(tuple(op["ish"]), tuple(op["osh"]), b, **kw)
        r = [x for x in r if torch.is_tensor(x)]
        return r, r
    if k in ("disco", "discot"):
        cls = th.DiscreteContinuousConvS2 if k == "disco" else th.DiscreteContinuousConvTransposeS2
        ish, osh = (op["ish"], op["osh"]) if k == "disco" else (op["osh"], op["ish"])
        m = cls(2, 2, tuple(ish), tuple(osh), kernel_shape=shape_of(op["b"], op["ks"]), basis_type=op["b"], basis_norm_mode=op["bn"], grid_in=op["gi"], grid_out=op["go"], theta_cutoff=op["cut"], bias=False, optimized_kernel=op["opt"])
        det_params(m)
        with torch.no_grad():
            y = m(rnd(1, 2, *ish))
        return [y], [y] + list(m.buffers()) + [p.data for p in m.parameters()]
    if k in ("sht", "vsht"):
        if k == "sht":
            cls = th.InverseRealSHT if op["inv"] else th.RealSHT
        else:
            cls = th.InverseRealVectorSHT if op["inv"] else th.RealVectorSHT
        m = cls(op["h"], op["w"], grid=op["g"], norm=op["norm"], csphase=op["cs"])
        lead = (2,) if k == "vsht" else ()
        x = rnd(1, *lead, m.lmax, m.mmax, cplx=True) if op["inv"] else rnd(1, *lead, op["h"], op["w"])
        y = m(x)
        return [y], [y] + list(m.buffers())
    if k == "quad":
        m = th.QuadratureS2((op["h"], op["w"]), grid=op["g"], normalize=op["norm"])
        y = m(rnd(1, 2, op["h"], op["w"]))
        return [y], list(m.buffers())
    if k == "resample":
        m = th.ResampleS2(*op["ish"], *op["osh"], grid_in=op["gi"], grid_out=op["go"], mode=op["mode"])
        y = m(rnd(1, 2, *op["ish"]))
        return [y], [y] + list(m.buffers())
    if k == "legpoly":
        from torch_harmonics import legendre

        f = getattr(legendre, "_precompute_dlegpoly" if op["d"] else "_precompute_legpoly", None)
        if f is None:
            return [], []
        t = ctx["angles"][op["t"]]
        if op.get("reuse"):  # the caller keeps one tensor of angles and overwrites it between two calls
            work = t.flip(0).contiguous()
            f(op["m"], op["l"], work, norm=op["norm"], inverse=op["inv"], csphase=op["cs"])
            t = work.copy_(t)
        r = f(op["m"], op["l"], t, norm=op["norm"], inverse=op["inv"], csphase=op["cs"])
        return [r], [r]
    if k == "rule":
        f = getattr(quadrature, op["f"] + "_weights", None)
        if f is None:
            return [], []
        kw = dict(periodic=op["per"]) if op["f"] == "trapezoidal" else {}
        r = f(op["n"], a=op["a"], b=op["b"], **kw) if op["kw"] else f(op["n"], op["a"], op["b"], **kw)
        return list(r), list(r)
    if k == "deco":
        return decorated(op, ctx)
    if k in ("natt", "att"):
        if k == "att":
            m = th.AttentionS2(2, 1, (op["h"], op["w"]), (op["h"], op["w"]), grid_in=op["g"], grid_out=op["g"])
        else:
            m = th.NeighborhoodAttentionS2(2, (op["h"], op["w"]), (op["h"], op["w"]), grid_in=op["g"], grid_out=op["g"], theta_cutoff=op["cut"])
        det_params(m)
        with torch.no_grad():
            y = m(rnd(1, 2, op["h"], op["w"]))
        return [y], list(m.buffers())
    if k == "spectral":
        m = th.SpectralConvS2((op["h"], op["w"]), (op["h"], op["w"]), 2, 2, grid_in=op["g"], grid_out=op["g"], bias=False)
        det_params(m)
        with torch.no_grad():
            y = m(rnd(1, 2, op["h"], op["w"]))
        return [y], list(m.buffers())
    if k == "bad":
        if op["what"] == "grid":
            quadrature.precompute_latitudes(op["n"], "no-such-grid")
        elif op["what"] == "basis":
            fb.get_filter_basis((2, 2), "no-such-basis")
        elif op["what"] == "kernel":
            fb.get_filter_basis((2, 2, 2), "piecewise linear")
        else:
            quadrature.precompute_latitudes(-1, "equiangular")
        return [], []
    raise HarnessError(k)


def decorated(op, ctx):
    """A function a user put behind the library's cache decorator."""
    from torch_harmonics import cache

    deco = getattr(cache, "lru_cache", None)
    if deco is None:
        return [], []
    key = json.dumps([op["size"], op["typed"], op["copy"]])
    f = ctx.setdefault("deco", {}).get(key)
    typed = op["typed"]
    if f is None:

        @deco(maxsize=op["size"], typed=op["typed"], copy=op["copy"])
        def f(x, y=1, z=0):
            if y == 5:
                raise ValueError("no")
            return [torch.full((3,), x + 10 * y + 100 * z, dtype=torch.float64), f"{type(x).__name__ if typed else float(x)} {y} {z}", [x + 10 * y, [z]]]

        ctx["deco"].setdefault(key, f)
    x, y, st = op["x"], op["y"], op["style"]
    if st == "pos":
        r = f(x, y)
    elif st == "kw":
        r = f(x=x, y=y)
    elif st == "xonly":
        r = f(x)
    elif st == "swap":
        r = f(y=y, x=x)
    else:
        r = f(x, z=y)
    return [r[0].clone(), r[1], json.dumps([float(r[2][0]), r[2][1:]])], [r[0], r[2], r[2][1]] if op["copy"] else []


def angles():
    return [torch.linspace(a, b, n, dtype=torch.float64) for a, b, n in ((0.1, 3.0, 4), (0.1, 3.0, 7), (0.3, 2.5, 7))]


def fresh(op):
    """The op computed alone in its own fresh process image."""

    def one():
        try:
            vals, _ = perform(dict(op, reuse=False), dict(angles=angles()))
            return ([v.clone() if torch.is_tensor(v) else v for v in vals], [])
        except Exception as e:  # noqa: BLE001
            return (("raised", type(e).__name__), [])

    r = isolated(one)
    if r[0] != "ok":
        raise HarnessError(f"reference computation failed: {r}")
    return r[1]


def equal(a, b):
    if torch.is_tensor(a) != torch.is_tensor(b):
        return False
    if not torch.is_tensor(a):
        return a == b
    if a.shape != b.shape or a.dtype != b.dtype:
        return False
    if a.device != b.device:
        return False
    if a.numel() == 0 or a.is_meta:
        return True
    if a.is_complex():
        a, b = torch.view_as_real(a.resolve_conj()), torch.view_as_real(b.resolve_conj())
    if not a.is_floating_point():
        return torch.equal(a, b)
    if not torch.equal(torch.isnan(a), torch.isnan(b)):
        return False
    a, b = torch.nan_to_num(a), torch.nan_to_num(b)
    tol = 1e-11 if a.dtype == torch.float64 else 1e-5
    return (a - b).abs().max().item() <= tol * max(b.abs().max().item(), 1e-6)


def scribble(objs, how):
    for o in objs:
        if torch.is_tensor(o):
            inside = torch.inference_mode if o.is_inference() else torch.no_grad
            if o.numel() == 0:
                continue
            with inside():
                o = o.detach()
                if how == "fill":
                    o.fill_(7)
                elif how == "scale":
                    o.mul_(3).add_(1)
                else:
                    o.zero_()
        elif isinstance(o, list):
            o.reverse()
            o.append(True)


class C12(Check):
    id = "C12"
    quick_runs, quick_wall = 3000, 45
    thorough_runs, thorough_wall = 150000, 1200
    time_unit = "scheduling points (executed lines of repository code)"
    rule = "a run is a history of calls by one to three threads on a process with empty caches; non-trivial when an argument set is requested more than once; distinct when the hash of calls and thread switches differs"
    components = {"real code": ["torch_harmonics quadrature, legendre, filter_basis, disco, sht, resample, attention, spectral convolution and cache modules", "functools caches, PyTorch CPU operators, real threads"], "stub": ["thread scheduling (one baton, switches at executed lines of repository code)", "locks created by repository code"]}
    assumptions = ["a thread switch can happen between any two executed lines of repository Python code", "the shared filter basis objects themselves are not reassigned by callers; what their methods return may be"]

    def __init__(self):
        self.memo = None

    def prepare(self):
        threads.install_locks()
        threads.preload()
        self.memo = threads.SharedMemo()

    def sample(self, rng):
        n = rng.choice([1, 1, 2, 2, 3])
        pool = []
        ths = []
        amb = rng.random() < 0.3
        long = rng.random() < 0.25  # overflow the caches
        for _ in range(n):
            ops = []
            for _ in range(rng.randint(25, 70) // n if long else rng.randint(2, 9)):
                op = sample_op(rng, pool)
                if long and rng.random() < 0.5:
                    op = dict(k=rng.choice(["lat", "lon"]), n=rng.randint(2, 40), g="equiangular", how="pos")
                    pool.append(op)
                if amb and rng.random() < 0.25:
                    op = dict(op, amb=rng.choice(AMBIENT if n == 1 else AMBIENT[:3]))
                d = dict(op=op, scrib=rng.choice([None, "fill", "scale", "zero"]), late=rng.random() < 0.3)
                if rng.random() < 0.15:
                    d["fail"] = [rng.random() ** 2, rng.random() < 0.3]
                ops.append(d)
            ths.append(ops)
        return dict(threads=ths, style=rng.choice(["uniform", "fine", "coarse", "pct"]))

    def run(self, cfg, rs, schedule=None):
        memo = {}
        for t in cfg["threads"]:
            for d in t:
                key = json.dumps(d["op"], sort_keys=True)
                memo[key] = self.memo.get(key, lambda: fresh(d["op"]))  # noqa: B023

        def child():
            w = None
            try:
                held = []
                st = dict(fail=0, scrib=0)
                ctx = dict(angles=angles())

                def make(ti, ops):
                    def fn(t):
                        for n, d in enumerate(ops):
                            key = json.dumps(d["op"], sort_keys=True)
                            ref = memo[key]
                            mode = FailingOps(int(d["fail"][0] * 400), d["fail"][1]) if "fail" in d else None
                            try:
                                if mode is None:
                                    vals, objs = perform(d["op"], ctx)
                                else:
                                    with mode:
                                        vals, objs = perform(d["op"], ctx)
                            except InjectedOOM:
                                st["fail"] += 1
                                continue
                            except (HarnessError, Violation):
                                raise
                            except Exception as e:  # noqa: BLE001
                                if mode is not None and mode.fired:
                                    st["fail"] += 1
                                    continue
                                if isinstance(ref, tuple) and ref[1] == type(e).__name__:
                                    continue
                                raise Violation("exception", f"thread {ti}, call {n} {d['op']}: {type(e).__name__}: {e}, although a fresh computation gives a {'different error ' + ref[1] if isinstance(ref, tuple) else 'result'}") from e
                            if isinstance(ref, tuple):
                                raise Violation("stale", f"thread {ti}, call {n} {d['op']} returned, a fresh computation raises {ref[1]}")
                            if len(vals) != len(ref):
                                raise Violation("stale", f"thread {ti}, call {n} {d['op']}: {len(vals)} values, fresh computation gives {len(ref)}")
                            for j, (a, b) in enumerate(zip(vals, ref)):
                                if not equal(a, b):
                                    err = ""
                                    if torch.is_tensor(a) and torch.is_tensor(b) and a.shape == b.shape and a.numel():
                                        err = f", max difference {(torch.nan_to_num(a).double() if not a.is_complex() else a).sub(torch.nan_to_num(b).double() if not b.is_complex() else b).abs().max().item():.3e}"
                                    raise Violation("stale", f"thread {ti}, call {n} {d['op']}: value {j} differs from a fresh computation{err}")
                            if d["scrib"]:
                                st["scrib"] += 1
                                if d["late"]:
                                    held.append((objs, d["scrib"]))
                                else:
                                    scribble(objs, d["scrib"])
                            if held and n % 3 == 2:
                                o, h = held.pop(0)
                                scribble(o, h)

                    return fn

                w = Threads([make(i, ops) for i, ops in enumerate(cfg["threads"])], random.Random("run:" + rs), style=cfg["style"], schedule=schedule)
                w.run()
                seen = set()
                rep = 0
                for t in cfg["threads"]:
                    for d in t:
                        k = json.dumps(d["op"], sort_keys=True)
                        rep += k in seen
                        seen.add(k)
                faults = {}
                if st["fail"]:
                    faults["failing-operation"] = st["fail"]
                if st["scrib"]:
                    faults["caller-modifies-returned-values"] = st["scrib"]
                if w.switches > len(w.ts):
                    faults["thread-switches"] = w.switches
                dg = zlib.crc32(json.dumps(cfg["threads"], sort_keys=True).encode() + "\n".join(w.trace).encode())
                return (
                    Result(steps=w.total, digest=f"{dg:08x}", faults=faults, ops={"calls": sum(map(len, cfg["threads"]))}, nontrivial=rep > 0, state=str(sorted({d["op"]["k"] for t in cfg["threads"] for d in t})) + str(len(cfg["threads"])), probes=[f"threads-{len(w.ts)}"]),
                    w.trace,
                )
            except Exception as e:  # noqa: BLE001
                v = search._classify(e)
                if v is None:
                    raise
                v.trace = w.trace if w is not None else []
                raise v from None

        return finish(self, isolated(child))

    def shrink(self, cfg):
        T = cfg["threads"]
        for i in range(len(T)):
            if len(T) > 1:
                yield dict(cfg, threads=T[:i] + T[i + 1 :])
        for i in range(len(T)):
            n = len(T[i])
            for m in (n // 2, n // 4):
                if m > 1:
                    for j in range(0, n, m):
                        yield dict(cfg, threads=T[:i] + [T[i][:j] + T[i][j + m :]] + T[i + 1 :])
            if n <= 12:
                for j in range(n):
                    if n > 1:
                        yield dict(cfg, threads=T[:i] + [T[i][:j] + T[i][j + 1 :]] + T[i + 1 :])
                for j, d in enumerate(T[i]):
                    for k in ("fail", "scrib"):
                        if d.get(k):
                            e = dict(d)
                            e.pop(k)
                            e.setdefault("scrib", None)
                            yield dict(cfg, threads=T[:i] + [T[i][:j] + [e] + T[i][j + 1 :]] + T[i + 1 :])


def finish(check, r):
    if r[0] == "ok":
        check.last_trace = r[2]
        return r[1]
    if r[0] == "violation":
        check.last_trace = r[3]
        raise Violation(r[1], r[2])
    if r[0] == "died":
        raise Violation("crash", f"the process died (wait status {r[1]})")
    raise HarnessError(r[1])


CHECK = C12()
