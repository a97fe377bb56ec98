"""Shared workload: run a distributed module on a simulated grid and compare with the serial module of the same repository."""

import contextlib
import functools
import inspect
import random
import zlib

import torch
import torch.distributed as dist
from torch.utils.checkpoint import checkpoint

from thsim import core, dworld
from thsim.core import Violation
from thsim.dworld import chunk, compare, ref_slices, ref_split
from thsim.search import Check, Result

DT = {"f64": torch.float64, "f32": torch.float32, "bf16": torch.bfloat16}


def seed_of(*xs):
    return zlib.crc32(":".join(map(str, xs)).encode())


def noncontig(t, how):
    """The same values behind another memory layout."""
    if how == "perm" and t.dim() >= 3:
        return t.transpose(0, -1).contiguous().transpose(0, -1)
    if how == "stride":
        b = torch.zeros(*t.shape[:-1], t.shape[-1] * 2, dtype=t.dtype)
        b[..., ::2] = t
        return b[..., ::2]
    if how == "offset":
        b = torch.zeros(t.numel() + 3, dtype=t.dtype)
        b[3:] = t.reshape(-1)
        return b[3:].view(t.shape)
    if how == "cl" and t.dim() >= 3:  # channels last
        return t.movedim(-3, -1).contiguous().movedim(-1, -3)
    if how == "conj" and t.is_complex():  # an unresolved conjugate view
        return t.conj().resolve_conj().conj()
    return t


LAYOUTS = ["plain", "plain", "perm", "stride", "offset", "cl", "conj"]
MODES = ["step", "joint", "inter", "nograd", "train", "twice", "ckpt", "reuse", "infer"]
QUIET = ("nograd", "reuse")  # modes without gradients
LOSSES = ["dot", "dot", "sum", "ncdot", "conj"]


def dtype_of(cfg, s):
    """Data type of step s: callers may alternate between precisions on one module."""
    return DT[cfg["dtype"]] if not cfg.get("mix") or s % 2 == 0 else DT["f32" if cfg["dtype"] == "f64" else "f64"]


def rough(cfg):
    """With 16-bit data only gross errors (and wrong types) can be told from rounding."""
    return dict(tol=0.3, floor=1.0) if cfg["dtype"] == "bf16" else {}


def loss_of(y, cot, how):
    if how == "sum":
        return y.real.sum() + 2.0 * y.imag.sum() if y.is_complex() else y.sum()
    if how == "ncdot":
        cot = noncontig(cot, "stride")
        if y.is_complex():
            return torch.view_as_real(y * cot.conj())[..., 0].sum()
        return (y * cot).sum()
    if y.is_complex():
        if how == "conj":  # the cotangent arrives as an unresolved conjugate view
            return (y.conj() * cot).real.sum()
        return (y * cot.conj()).real.sum()
    return (y * cot).sum()


CMASKS = [None, None, None, None, "zero-one", "only-one", "rows", "zero"]
IMASKS = [None, None, None, None, None, "zero-one", "only-one", "const"]


def extras(rng, amp=0.1):
    """Structure of the data relative to the partition: masked regions (land, missing observations, a loss over one region); mixed precision."""
    return dict(cmask=rng.choice(CMASKS), imask=rng.choice(IMASKS), where=rng.random(), amp=rng.choice(["cpu", "both"]) if rng.random() < amp else None)


@contextlib.contextmanager
def autocast(how):
    """Mixed precision as the caller switches it on; the flag of the device type the kernels were written for can be set without the device."""
    old = torch.is_autocast_enabled("cuda"), torch.get_autocast_dtype("cuda")
    if how != "cpu":
        torch.set_autocast_dtype("cuda", torch.bfloat16)
        torch.set_autocast_enabled("cuda", True)
    try:
        with torch.autocast("cpu", torch.bfloat16):
            yield
    finally:
        torch.set_autocast_enabled("cuda", old[0])
        torch.set_autocast_dtype("cuda", old[1])


def masked(t, how, where, P, A, la, lo):
    """t with its values restricted to (or removed from) the part that one rank owns."""
    if how is None or t.numel() == 0:
        return t
    if how == "zero":
        return torch.zeros_like(t)
    if how == "const":
        return t.flatten()[0].expand(t.shape).clone()
    k = int(where * P * A) % (P * A)
    m = torch.zeros(t.shape, dtype=torch.bool)
    v = m
    if la is not None:
        v = chunk_view(v, la, P, k // A)
    if lo is not None and how != "rows":
        v = chunk_view(v, lo, A, k % A)
    v.fill_(True)
    if how == "zero-one":
        m = ~m
    return torch.where(m, t, torch.zeros_like(t))


def chunk_view(t, dim, n, i):
    sl = ref_slices(t.shape[dim], n)[i]
    return t.narrow(dim, sl.start, sl.stop - sl.start)


def bare(cls, kw, rs):
    """In a third of the runs, leaves out the arguments that have the serial module's default value: the defaults must agree."""
    if seed_of("bare", rs) % 3:
        return kw
    par = inspect.signature(cls).parameters
    return {k: v for k, v in kw.items() if k not in par or type(par[k].default) is not type(v) or par[k].default != v}


SHARDS = dict(lat_shapes=("nlat", "P"), lon_shapes=("nlon", "A"), l_shapes=("lmax", "P"), m_shapes=("mmax", "A"), lat_in_shapes=("nlat_in", "P"), lon_in_shapes=("nlon_in", "A"), lat_out_shapes=("nlat_out", "P"), lon_out_shapes=("nlon_out", "A"))


def check_shards(ctx, module):
    """The shard sizes a module publishes are those of the balanced split."""
    for m in module.modules():
        for name, (size, n) in SHARDS.items():
            got, size = getattr(m, name, None), getattr(m, size, None)
            if got is not None and isinstance(size, int) and list(got) != ref_split(size, getattr(ctx, n)):
                raise Violation("wrong-shards", f"rank {ctx.idx} (polar {ctx.p}/{ctx.P}, azimuth {ctx.a}/{ctx.A}): {type(m).__name__}.{name} is {list(got)}, the balanced split of {size} is {ref_split(size, getattr(ctx, n))}")


class Initial:
    """Builds modules with the same random seed on every rank: replicated parameters must start as those of the serial module."""

    def __init__(self, rs):
        self.seed, self.ref, self.on = seed_of("init", rs) % 2**31, None, False

    def __call__(self, make, who=None):
        old = torch.get_rng_state()
        torch.manual_seed(self.seed)
        try:
            m = make()
        finally:
            torch.set_rng_state(old)
        if not self.on:
            return m
        got = {n: p.detach().clone() for n, p in m.named_parameters()}
        if who is None:
            self.ref = got
        elif self.ref is not None:
            for n, t in self.ref.items():
                if n not in got or got[n].shape != t.shape or not torch.equal(got[n], t):
                    raise Violation("wrong-result", f"rank {who.idx} (polar {who.p}/{who.P}, azimuth {who.a}/{who.A}): with the same random seed, the initial parameter {n} differs from the serial module's")
        return m


class Spec:
    """One module workload.

    make_dist(ctx) / make_ref(): the two modules, with equal parameters where they have any
    inputs[d][s]: list of dicts(t=global tensor, dims=(lat_dim, lon_dim), grad=bool)
    out_dims: (lat_dim, lon_dim) partition of the output
    params: {name: (over, lat_dim, lon_dim)}: over = grid directions over which the caller sums the gradient,
            lat_dim/lon_dim = how the parameter itself is sharded
    """

    def __init__(self, make_dist, make_ref, inputs, out_dims, params=None, call=None, load=None):
        self.make_dist, self.make_ref, self.inputs, self.out_dims = make_dist, make_ref, inputs, out_dims
        self.params = params or {}
        self.call = call or (lambda m, xs: m(*xs))
        self.finite = True  # set to False when the serial result itself is undefined somewhere
        self.refusable = False  # the documentation allows the module to refuse this configuration, on every rank


def drive(m, call, xs_steps, cots, mode, loss, params, reduce=None):
    """The same caller program on a rank and serially. Returns ys, per-step snapshots, input grads, param grads."""
    ys, snaps = [], []
    grad = mode not in QUIET
    leaves = []
    bufs = []
    losses = []
    acc = {}
    with torch.set_grad_enabled(grad):
        for s, xs in enumerate(xs_steps):
            lv = []
            args = []
            for x in xs:
                t = x["t"]
                if grad and x["grad"]:
                    t = t.requires_grad_(True)
                lv.append(t)
                args.append(noncontig(t, x.get("layout", "plain")) if x.get("layout", "plain") != "plain" else t)
            leaves.append(lv)
            if mode == "reuse":  # the caller refills the same buffers and overwrites the results
                key = [(a.shape, a.dtype) for a in args]
                old = next((b for b in bufs if [(a.shape, a.dtype) for a in b] == key), None)
                if old is None:
                    bufs.append([a.clone() for a in args])
                    old = bufs[-1]
                for b, a in zip(old, args):
                    b.copy_(a)
                y = call(m, old)
                snaps.append(y.detach().clone())
                if not all(torch.equal(b, a) for b, a in zip(old, args)):
                    lv[0].zero_()  # reported as a modified input
                y.fill_(float("nan"))
                continue
            if mode == "infer":
                with torch.inference_mode():
                    early = call(m, [a.detach().clone() for a in args]).clone()
                early = early.resolve_conj() + 0  # an ordinary tensor again
            if mode == "ckpt" and any(a.requires_grad for a in args):
                y = checkpoint(lambda *a: call(m, list(a)), *args, use_reentrant=False)
            else:
                y = call(m, args)
            ys.append(y)
            snaps.append(y.detach().clone())
            if mode == "infer" and (early - snaps[-1]).abs().max() > 1e-2 * snaps[-1].abs().max().clamp(min=1e-3):
                snaps[-1] = early.clone()
            if grad:
                if not y.requires_grad:
                    losses.append(None)
                    continue
                lo = loss_of(y, cots[s], loss)
                if mode in ("step", "train", "twice", "ckpt", "infer"):
                    lo.backward(retain_graph=mode == "twice")
                    if mode == "twice":
                        lo.backward()
                    if mode == "train":
                        train(m, params, acc, reduce)
                else:
                    losses.append(lo)
        if mode == "joint":
            ls = [x for x in losses if x is not None]
            if ls:
                sum(ls[1:], ls[0]).backward()
        elif mode == "inter":
            for lo in losses:
                if lo is not None:
                    lo.backward()
    pg = {}
    if params:
        named = dict(m.named_parameters())
        for n in params:
            if n in named:
                pg[n] = acc.get(n) if mode == "train" else named[n].grad
    return ys, snaps, leaves, pg


def train(m, params, acc, reduce):
    """A gradient step in place, as an optimizer does it, with the caller summing the gradients of replicated parameters."""
    for n, p in m.named_parameters():
        if n not in params or p.grad is None:
            continue
        g = p.grad.detach().clone()
        p.grad = None
        acc[n] = acc[n] + g if n in acc else g.clone()
        if reduce is not None:
            g = reduce(params[n][0], g)
        with torch.no_grad():
            p.sub_(0.2 * g / (1.0 + g.abs()))


def serial_reference(spec, D, mode, loss, rs, cfg, jitter=None, eps=None):
    """jitter: a generator for changes of inputs and parameters by a few units in the last place."""
    P, A = cfg["net"]["P"], cfg["net"]["A"]
    refs = []
    g = torch.Generator().manual_seed(seed_of("cot", rs))
    for d in range(D):
        m = spec.make_ref()
        xs = [[dict(x, t=x["t"].clone()) for x in step] for step in spec.inputs[d]]
        if jitter is not None:
            with torch.no_grad():
                for t in [x["t"] for step in xs for x in step] + [p for _, p in m.named_parameters()]:
                    t.mul_(1 + 8 * (eps or torch.finfo(t.dtype).eps) * (2 * torch.rand(t.shape, generator=jitter) - 1).to(t.real.dtype))
        # cotangents need output shapes: run once without gradients
        with torch.no_grad():
            shapes = [spec.call(m, [x["t"] for x in step]) for step in xs]
        cots = [masked(torch.randn(y.shape, dtype=y.dtype, generator=g), cfg.get("cmask"), cfg.get("where", 0), P, A, *spec.out_dims) for y in shapes]
        ys, snaps, leaves, pg = drive(m, spec.call, [[dict(x, layout="plain") for x in step] for step in xs], cots, mode, loss, spec.params)
        refs.append(dict(cots=cots, snaps=snaps, grads=[[t.grad for t in lv] for lv in leaves], pg=pg))
    return refs


def sum_over(ctx, over, g):
    for d, size, group in (("p", ctx.P, ctx.thd.polar_group()), ("a", ctx.A, ctx.thd.azimuth_group())):
        if d in over and size > 1:
            dist.all_reduce(g, group=group)
    return g


def run_spec(check, cfg, rs, schedule, spec, tol=None, floor=1e-3):
    """floor: size of the terms whose sum is compared (results can cancel to rounding noise)."""
    net = cfg["net"]
    rng = random.Random("run:" + rs)
    dep = dworld.Deployment(net, rng, schedule, epoch=seed_of(rs))
    check.last_trace = dep.world.trace
    D = dep.D
    mode, loss = cfg["mode"], cfg["loss"]
    amp = cfg.get("amp") if cfg.get("dtype", "f32") == "f32" and not cfg.get("mix") else None  # double precision data is not downcast
    if cfg.get("kind") == "fused":
        amp = None  # the fused operator takes no part in mixed precision, the serial path does
    if amp:
        tol, floor, plain = max(tol or 0, 0.1), max(floor, 1.0), spec.call

        def call(m, xs):
            with autocast(amp):
                return plain(m, xs)

        spec.call = call

    if cfg.get("imask"):
        for step in (st for d in spec.inputs for st in d):
            for x in step:
                x["t"] = masked(x["t"], cfg["imask"], cfg["where"], dep.P, dep.A, *x["dims"])

    # serial reference
    try:
        refs = serial_reference(spec, D, mode, loss, rs, cfg)
    except (Violation, core.HarnessError):
        raise
    except Exception as e:  # the serial module does not accept this configuration: there is nothing to compare with
        return Result(steps=0, digest="refused", nontrivial=False, probes=["serial-refused:" + type(e).__name__])

    if any(not torch.isfinite(torch.view_as_real(y.resolve_conj()) if y.is_complex() else y).all() for r in refs for y in r["snaps"]):
        return Result(steps=0, digest="undefined", nontrivial=False, probes=["serial-result-undefined"])

    la, lo = spec.out_dims

    def prog(ctx):
        ctx.init()
        if spec.refusable:
            try:
                m = spec.make_dist(ctx)
            except core.HarnessError:
                raise
            except Exception as e:  # noqa: BLE001
                ctx.out["refused"] = f"{type(e).__name__}: {e}"
                ctx.finalize()
                return
        else:
            m = spec.make_dist(ctx)
        check_shards(ctx, m)
        xs = [[dict(x, t=ctx.local(x["t"], *x["dims"])) for x in step] for step in spec.inputs[ctx.d]]
        orig = [[x["t"].clone() for x in step] for step in xs]
        cots = [ctx.local(c, la, lo) for c in refs[ctx.d]["cots"]]
        cots0 = [c.clone() for c in cots]
        ys, snaps, leaves, pg = drive(m, spec.call, xs, cots, mode, loss, spec.params, functools.partial(sum_over, ctx))
        ctx.out.update(snaps=snaps, grads=[[t.grad for t in lv] for lv in leaves], pg=pg)
        ctx.out["mut"] = [(s, i) for s, lv in enumerate(leaves) for i, t in enumerate(lv) if not torch.equal(t.detach(), orig[s][i])]
        ctx.out["mutc"] = [s for s, c in enumerate(cots) if not torch.equal(c, cots0[s])]
        ctx.out["alias"] = [s for s, y in enumerate(ys) if not same(y.detach(), snaps[s])]
        ctx.finalize()

    dep.run(prog)

    ref_n = [c for c in dep.ctx if "refused" in c.out]
    if ref_n:
        if len(ref_n) != len(dep.ctx):
            raise Violation("split-refusal", f"ranks {[c.idx for c in ref_n]} refuse the configuration ({ref_n[0].out['refused']}), the others accept it")
        return Result(steps=dep.world.steps, digest=dep.world.digest(), faults={"unservable-configuration": 1}, nontrivial=False, probes=["refused-on-all-ranks"])

    moved = []

    def slack(pick):
        """A bound for what rounding does to a value: how much tiny changes of the serial module's data move it."""

        def bound():
            if not moved:
                moved.extend(serial_reference(spec, D, mode, loss, rs, cfg, torch.Generator().manual_seed(j), 2**-11 if amp else None) for j in range(4))
            return 30 * max((pick(m) - pick(refs)).abs().max().item() for m in moved)

        return bound

    for c in dep.ctx:
        ref = refs[c.d]
        who = f"rank {c.idx} (polar {c.p}/{c.P}, azimuth {c.a}/{c.A})"
        if c.out["mut"]:
            raise Violation("input-modified", f"{who}: caller's input (step, argument) {c.out['mut']} was modified")
        if c.out["mutc"]:
            raise Violation("input-modified", f"{who}: caller's cotangent of step {c.out['mutc']} was modified")
        for s, y in enumerate(c.out["snaps"]):
            compare(f"{who} output of step {s}", y, local(ref["snaps"][s], c, la, lo), tol, scale=amax(ref["snaps"][s], floor), slack=slack(lambda r: r[c.d]["snaps"][s]))
        if c.out["alias"]:
            raise Violation("output-changed", f"{who}: output of step {c.out['alias']} changed after it was returned")
        if mode in QUIET:
            continue
        for s, gl in enumerate(c.out["grads"]):
            for i, gx in enumerate(gl):
                rg = ref["grads"][s][i]
                dims = spec.inputs[c.d][s][i]["dims"]
                compare(f"{who} input gradient, step {s}, argument {i}", gx, None if rg is None else local(rg, c, *dims), tol, scale=amax(rg, floor), slack=slack(lambda r: r[c.d]["grads"][s][i]))
    if mode not in QUIET:
        for n, (over, pl, pm) in spec.params.items():
            for d in range(D):
                rg = refs[d]["pg"].get(n)
                if rg is None:
                    continue
                for p in range(dep.P):
                    for a in range(dep.A):
                        # sum the rank-local contributions over the directions in which the parameter is replicated
                        acc = None
                        for pp in range(dep.P) if "p" in over else [p]:
                            for aa in range(dep.A) if "a" in over else [a]:
                                v = dep.at(d, pp, aa).out["pg"].get(n)
                                if v is None:
                                    raise Violation("wrong-result", f"parameter {n} has no gradient on rank ({pp},{aa})")
                                acc = v.clone() if acc is None else acc + v
                        r = rg
                        if pl is not None:
                            r = chunk(r, pl, dep.P, p)
                        if pm is not None:
                            r = chunk(r, pm, dep.A, a)
                        compare(f"gradient of parameter {n} at ({p},{a})", acc, r, tol, scale=amax(rg, floor), slack=slack(lambda m: m[d]["pg"][n]))
                        if over == "pa":
                            break
                    if over == "pa":
                        break
    w = dep.world
    probes = []
    if D > 1:
        probes.append("two-replicas")
    for k, v in (("cmask", cfg.get("cmask")), ("imask", cfg.get("imask")), ("amp", amp)):
        if v:
            probes.append(f"{k}-{v}")
    if net["debug"]:
        probes.append("debug-mode")
    if net["style"] == "slow":
        w._count_fault("slow-rank")
    if net["style"] == "lazy":
        w._count_fault("late-delivery")
    if net["style"] == "eager":
        w._count_fault("early-delivery")
    if net["fill"]:
        w._count_fault("poisoned-uninitialised-memory")
    if not net["eager"]:
        w._count_fault("rendezvous-sends")
    return Result(steps=w.steps, digest=w.digest(), faults=w.faults, ops=w.ops, nontrivial=dep.P * dep.A > 1, probes=probes)


def amax(t, floor):
    return floor if t is None or t.numel() == 0 else max(t.abs().max().item(), floor)


def same(a, b):
    """Bitwise-ish equality that treats NaN as equal to NaN."""
    if a.is_complex():
        a, b = torch.view_as_real(a.resolve_conj()), torch.view_as_real(b.resolve_conj())
    return a.shape == b.shape and torch.equal(torch.nan_to_num(a), torch.nan_to_num(b)) and torch.equal(torch.isnan(a), torch.isnan(b))


def local(t, c, la, lo):
    if la is not None:
        t = chunk(t, la, c.P, c.p)
    if lo is not None:
        t = chunk(t, lo, c.A, c.a)
    return t


REAL_VS_STUB = {
    "real code": ["torch_harmonics (serial modules, CPU kernels)", "torch_harmonics.distributed (all Python, one private instance per rank)", "torch.distributed front end", "PyTorch autograd"],
    "stub": ["process group / interconnect (NCCL semantics, scheduler-controlled)", "process launch (threads under one baton)"],
}


class DistCheck(Check):
    components = REAL_VS_STUB
    rule = (
        "a run is one simulated deployment (grid, module configuration, data, schedule); non-trivial when more than one rank takes part; "
        "runs are distinct when the hash of their full event sequence (scheduler labels) differs"
    )
    assumptions = [
        "collectives follow NCCL semantics (in-order per communicator, uneven all_gather/all_to_all allowed, reductions identical on all ranks)",
        "serial modules of the same tree are the reference for values; the partition reference is independent",
        "rank-local computation is single threaded; CPU kernels stand in for CUDA kernels",
    ]

    def shrink(self, cfg):
        for n in dworld.shrink_net(cfg["net"]):
            yield dict(cfg, net=n)
        if cfg.get("mode") not in ("step", "nograd", None):
            yield dict(cfg, mode="step")
        if cfg.get("loss") not in ("dot", None):
            yield dict(cfg, loss="dot")
        for k in ("cmask", "imask", "amp"):
            if cfg.get(k):
                yield dict(cfg, **{k: None})
        for s in self.shrink_cfg(cfg):
            yield s

    def shrink_cfg(self, cfg):
        return iter(())
