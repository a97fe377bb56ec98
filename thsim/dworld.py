"""Deployments: a simulated P x A process grid running torch_harmonics.distributed, plus independent reference helpers."""

import gc
import random

import torch
from torch.testing._internal.distributed.multi_threaded_pg import WorldData

from . import core, ranks
from .core import HarnessError, Violation

STYLES = ["uniform", "uniform", "pct", "lazy", "eager", "slow", "lifo"]


def ref_split(size, n):
    """Reference balanced split (independent of the code under test): sizes differ by <=1, larger chunks first."""
    out = []
    left = size
    for i in range(n):
        s = -(-left // (n - i))
        out.append(s)
        left -= s
    return out


def ref_slices(size, n):
    s, out = 0, []
    for k in ref_split(size, n):
        out.append(slice(s, s + k))
        s += k
    return out


def chunk(t, dim, n, i):
    sl = [slice(None)] * t.dim()
    sl[dim] = ref_slices(t.shape[dim], n)[i]
    return t[tuple(sl)]


def sample_net(rng, *, max_ranks=6, grids=None, allow_none=True, replicas=True):
    """Everything about the deployment and its schedule that a run varies."""
    if grids is None:
        grids = [(1, 1), (1, 2), (2, 1), (2, 2), (1, 3), (3, 1), (2, 3), (3, 2), (1, 4), (4, 1), (3, 3), (4, 2), (2, 4), (5, 1), (1, 5), (6, 1), (1, 6)]
    grids = [g for g in grids if g[0] * g[1] <= max_ranks]
    wts = [0.25 if p * a == 1 else (0.7 if p * a > 4 else 1.0) for p, a in grids]
    P, A = rng.choices(grids, wts)[0]
    net = dict(P=P, A=A)
    net["layout"] = rng.choices(["row", "col", "tab"], [4, 1, 2])[0]
    net["tab"] = rng.randrange(1000)
    net["D"] = 2 if replicas and P * A <= 3 and rng.random() < 0.12 else 1
    net["dlayout"] = rng.choice(["outer", "inner"])
    net["none1"] = bool(allow_none and rng.random() < 0.4)  # groups of size one are passed as None
    net["style"] = rng.choice(STYLES)
    net["coalescing"] = rng.random() < 0.6
    net["eager"] = rng.random() < 0.5
    net["debug"] = rng.random() < 0.25
    net["fill"] = rng.random() < 0.3  # uninitialised memory is poisoned
    net["inorder"] = rng.random() < 0.7  # collectives of one group complete in the order they were posted
    return net


def placement(net):
    """Process numbers of the grid: by rows, by columns, or irregular (groups then have no constant stride; they are ascending as torch orders them)."""
    P, A, kind = net["P"], net["A"], net.get("layout", "row")
    if kind != "tab":
        return {(p, a): p * A + a if kind == "row" else a * P + p for p in range(P) for a in range(A)}
    rng = random.Random(f"placement:{net.get('tab', 0)}")
    out = {}
    for k in range(P * A):
        free = [(p, a) for p in range(P) for a in range(A) if (p, a) not in out and (p == 0 or (p - 1, a) in out) and (a == 0 or (p, a - 1) in out)]
        out[rng.choice(free)] = k
    return out


def shrink_net(net):
    for k, v in (("D", 1), ("layout", "row"), ("none1", False), ("debug", False), ("fill", False), ("inorder", True), ("eager", True), ("coalescing", True), ("style", "uniform")):
        if net.get(k) != v:
            yield dict(net, **{k: v})
    P, A = net["P"], net["A"]
    if P > 1:
        yield dict(net, P=P - 1)
    if A > 1:
        yield dict(net, A=A - 1)


class Ctx:
    """What a rank program sees."""

    def __init__(self, r, dep, d, p, a):
        self.r, self.dep, self.d, self.p, self.a = r, dep, d, p, a
        self.P, self.A = dep.P, dep.A
        self.idx = r.idx
        self.out = r.out
        self.pol_group = None
        self.az_group = None

    @property
    def thd(self):
        return self.r.ns.pkg

    def init(self):
        thd = self.thd
        thd.init(self.pol_group, self.az_group)
        if self.dep.net.get("debug"):
            thd.config.debug = True

    def finalize(self):
        self.thd.finalize()

    def local(self, t, lat_dim=None, lon_dim=None):
        """This rank's shard of a global tensor (reference partition)."""
        if lat_dim is not None:
            t = chunk(t, lat_dim, self.P, self.p)
        if lon_dim is not None:
            t = chunk(t, lon_dim, self.A, self.a)
        return t.clone(memory_format=torch.contiguous_format)


class Deployment:
    _gc = 0

    def __init__(self, net, rng, schedule=None, *, epoch=0, max_steps=20000):
        self.net = net
        self.P, self.A, self.D = net["P"], net["A"], net.get("D", 1)
        P, A, D = self.P, self.A, self.D
        n = P * A * D
        self.world = w = core.World(
            n, rng, style=net.get("style", "uniform"), coalescing=net.get("coalescing", True), eager=net.get("eager", True), inorder=net.get("inorder", True), schedule=schedule, epoch=epoch, max_steps=max_steps
        )
        coords = {}
        ids = placement(net)
        for d in range(D):
            for p in range(P):
                for a in range(A):
                    m = ids[p, a]
                    g = d * P * A + m if net.get("dlayout", "outer") == "outer" else m * D + d
                    coords[g] = (d, p, a)
        self.coords = coords
        inv = {v: k for k, v in coords.items()}
        self.inv = inv
        wg = w.make_group("w", list(range(n)))
        self.ctx = []
        pol, az = {}, {}
        for d in range(D):
            for a in range(A):
                pol.update(w.make_group(f"p{d}.{a}", [inv[(d, p, a)] for p in range(P)]))
            for p in range(P):
                az.update(w.make_group(f"a{d}.{p}", [inv[(d, p, a)] for a in range(A)]))
        for r in w.ranks:
            c = Ctx(r, self, *coords[r.idx])
            r.ns = ranks.Namespace()
            r.wd = WorldData()
            w._register(r.wd, wg[r.idx], True)
            c.world_group = wg[r.idx]
            if not (net.get("none1") and P == 1):
                w._register(r.wd, pol[r.idx])
                c.pol_group = pol[r.idx]
            if not (net.get("none1") and A == 1):
                w._register(r.wd, az[r.idx])
                c.az_group = az[r.idx]
            self.ctx.append(c)

    def at(self, d, p, a):
        return self.ctx[self.inv[(d, p, a)]]

    def run(self, prog, must_finish=True):
        Deployment._gc += 1
        if Deployment._gc % 64 == 0:
            gc.collect()
        fill = self.net.get("fill")
        if fill:
            torch.use_deterministic_algorithms(True, warn_only=True)
        try:
            self.world.run(lambda r: prog(self.ctx[r.idx]))
        finally:
            if fill:
                torch.use_deterministic_algorithms(False)
        if must_finish:
            for c in self.ctx:
                if c.r.state != core.DONE:
                    check_not_harness(c.r)
                    raise Violation("exception", f"rank {c.idx} (polar {c.p}, azimuth {c.a}) raised {type(c.r.exc).__name__}: {c.r.exc}\n{c.r.tb}")
        return self

    def gather(self, key, lat_dim=None, lon_dim=None, d=0):
        """Assemble a global tensor from the per-rank shards stored under key."""
        rows = []
        for p in range(self.P):
            row = [self.at(d, p, a).out[key] for a in range(self.A)]
            if lon_dim is not None:
                rows.append(torch.cat(row, lon_dim))
            else:
                rows.append(row[0])
        if lat_dim is not None:
            return torch.cat(rows, lat_dim)
        return rows[0]


def check_not_harness(r):
    if isinstance(r.exc, HarnessError):
        raise r.exc


def sum_ranks(dep, key, d=0, over="pa"):
    """Sum a per-rank contribution over the grid (what a training loop does with replicated-parameter gradients)."""
    acc = None
    for p in range(dep.P):
        for a in range(dep.A):
            if "p" not in over and p > 0:
                continue
            if "a" not in over and a > 0:
                continue
            v = dep.at(d, p, a).out[key]
            acc = v.clone() if acc is None else acc + v
    return acc


def tol_for(dtype):
    return {torch.float64: 1e-9, torch.complex128: 1e-9, torch.float32: 3e-4, torch.complex64: 3e-4, torch.bfloat16: 3e-2, torch.float16: 4e-3}[dtype]


def compare(name, got, ref, tol=None, scale=None, slack=None):
    """Raise Violation unless got matches ref (shape, dtype, values); slack() is how far rounding alone can move the reference."""
    if (got is None) != (ref is None):
        raise Violation("wrong-result", f"{name}: got {'None' if got is None else 'a tensor'}, expected {'None' if ref is None else 'a tensor'}")
    if ref is None:
        return
    if tuple(got.shape) != tuple(ref.shape):
        raise Violation("wrong-shape", f"{name}: shape {tuple(got.shape)}, expected {tuple(ref.shape)}")
    if got.dtype != ref.dtype:
        raise Violation("wrong-dtype", f"{name}: dtype {got.dtype}, expected {ref.dtype}")
    if got.numel() == 0:
        return
    tol = tol_for(ref.dtype) if tol is None else tol
    if ref.dtype in (torch.bfloat16, torch.float16):
        got, ref = got.float(), ref.float()
    if not torch.isfinite(torch.view_as_real(ref.resolve_conj()) if ref.is_complex() else ref).all():
        return  # the reference itself overflowed: nothing to compare
    err = (got - ref).abs().max().item()
    s = max(ref.abs().max().item(), 0.0 if scale is None else scale, 1e-30)
    if not (err <= tol * s) and not (slack is not None and err <= slack()):
        raise Violation("wrong-result", f"{name}: max error {err:.3e} (relative {err / s:.3e}, tolerance {tol:.1e})")
