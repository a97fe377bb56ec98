"""C06: the communication primitives against an executable model of their documentation."""

import math
import random

import torch

from props.common import DistCheck, noncontig, same, seed_of
from thsim import core, dworld
from thsim.core import Violation
from thsim.dworld import chunk, ref_split
from thsim.search import Result

DTYPES = {"f64": torch.float64, "f32": torch.float32, "bf16": torch.bfloat16, "f16": torch.float16, "c64": torch.complex64, "c128": torch.complex128, "i64": torch.int64}

# name -> (group, kind)
OPS = {
    "distributed_transpose_polar": ("p", "transpose"),
    "distributed_transpose_azimuth": ("a", "transpose"),
    "copy_to_polar_region": ("p", "copy"),
    "copy_to_azimuth_region": ("a", "copy"),
    "reduce_from_polar_region": ("p", "reduce"),
    "reduce_from_azimuth_region": ("a", "reduce"),
    "scatter_to_polar_region": ("p", "scatter"),
    "gather_from_polar_region": ("p", "gather"),
    "gather_from_copy_to_polar_region": ("p", "gathercopy"),
    "reduce_from_scatter_to_polar_region": ("p", "rscatter"),
    "reduce_from_scatter_to_azimuth_region": ("a", "rscatter"),
    "polar_halo_exchange": ("p", "halo"),
}
ALIAS = {"copy", "scatter"}


def values(shape, dtype, g, big):
    """Values whose sums over a few ranks are exact in their dtype, yet need all of its bits."""
    if dtype == torch.int64:
        return torch.randint(-(2**40), 2**40, shape, generator=g)
    if dtype in (torch.complex64, torch.complex128):
        r = torch.float32 if dtype == torch.complex64 else torch.float64
        return torch.complex(values(shape, r, g, big), values(shape, r, g, big))
    if dtype in (torch.bfloat16, torch.float16):
        hi = 256 if big else 12
        return torch.randint(-hi, hi + 1, shape, generator=g).to(dtype)
    if dtype == torch.float32:
        hi = 2**20 if big else 2**10
        return torch.randint(-hi, hi + 1, shape, generator=g).to(dtype)
    hi = 2**46 if big else 2**20
    return torch.randint(-hi, hi + 1, shape, generator=g).to(dtype)


def total(ts):
    """Exact sum, rounded once."""
    dt = ts[0].dtype
    if dt in (torch.bfloat16, torch.float16):
        return sum(t.double() for t in ts).to(dt)
    acc = ts[0].clone()
    for t in ts[1:]:
        acc = acc + t
    return acc


def ref_forward(kind, xs, o):
    n = len(xs)
    if kind == "transpose":
        full = torch.cat(xs, o["d1"])
        return [chunk(full, o["d0"], n, i) for i in range(n)]
    if kind == "copy":
        return [x.clone() for x in xs]
    if kind == "reduce":
        return [total(xs)] * n
    if kind == "scatter":
        return [chunk(x, o["dim"], n, i) for i, x in enumerate(xs)]
    if kind in ("gather", "gathercopy"):
        return [torch.cat(xs, o["dim"])] * n
    if kind == "rscatter":
        t = total(xs)
        return [chunk(t, o["dim"], n, i) for i in range(n)]
    if kind == "halo":
        if n == 1:
            return [xs[0].clone()]
        r = o["r"]
        out = []
        for i, x in enumerate(xs):
            z = torch.zeros_like(x[:, :, :1]).expand(-1, -1, r, -1)
            top = xs[i - 1][:, :, xs[i - 1].shape[2] - r :] if i > 0 else z
            bot = xs[i + 1][:, :, :r] if i < n - 1 else z
            out.append(torch.cat([top, x, bot], 2))
        return out
    raise KeyError(kind)


def ref_backward(kind, gs, xs, o):
    n = len(gs)
    if kind == "transpose":
        full = torch.cat(gs, o["d0"])
        return [chunk(full, o["d1"], n, i) for i in range(n)]
    if kind == "copy":
        return [total(gs)] * n
    if kind == "reduce":
        return [g.clone() for g in gs]
    if kind in ("scatter", "rscatter"):
        return [torch.cat(gs, o["dim"])] * n
    if kind == "gather":
        return [chunk(g, o["dim"], n, i) for i, g in enumerate(gs)]
    if kind == "gathercopy":
        t = total(gs)
        return [chunk(t, o["dim"], n, i) for i in range(n)]
    if kind == "halo":
        if n == 1:
            return [gs[0].clone()]
        r = o["r"]
        out = []
        for i, g in enumerate(gs):
            H = xs[i].shape[2]
            dx = g[:, :, r : r + H].clone()
            if i > 0:  # my first rows were the bottom halo of the previous rank
                dx[:, :, :r] += gs[i - 1][:, :, r + xs[i - 1].shape[2] :]
            if i < n - 1:
                dx[:, :, H - r :] += gs[i + 1][:, :, :r]
            out.append(dx)
        return out
    raise KeyError(kind)


class C06(DistCheck):
    id = "C06"
    quick_runs, quick_wall = 9000, 45
    thorough_runs, thorough_wall = 600000, 1500
    assumptions = DistCheck.assumptions[:1] + ["splits are the balanced ones that every module of the library uses", "values are integers whose sums are exact, so results are compared bit for bit"]

    def sample(self, rng):
        net = dworld.sample_net(rng, max_ranks=9 if rng.random() < 0.2 else 6)
        n = {"p": net["P"], "a": net["A"]}
        ops = []
        for _ in range(rng.choice([1, 2, 3, 4])):
            name = rng.choice(list(OPS))
            grp, kind = OPS[name]
            k = n[grp]
            nd = 4 if kind == "halo" else rng.randint(2 if kind == "transpose" else 1, 5)
            shape = [rng.randint(1, 3) for _ in range(nd)]
            o = dict(name=name, shape=shape, dtype=rng.choices(list(DTYPES), [4, 3, 2, 2, 2, 3, 1])[0], big=rng.random() < 0.5)
            if kind == "transpose":
                d0, d1 = rng.sample(range(nd), 2)
                shape[d0] = rng.randint(k, k + rng.choice([1, 3, 7]))
                shape[d1] = rng.randint(k, k + rng.choice([1, 3, 7]))
                o.update(d0=d0, d1=d1)
            elif kind in ("scatter", "rscatter", "gather", "gathercopy"):
                d = rng.randrange(nd)
                shape[d] = rng.randint(k, k + rng.choice([1, 3, 7]))
                o.update(dim=d)
            elif kind == "halo":
                shape[2] = rng.randint(k, k * rng.choice([1, 2, 4]) + 1)
                o.update(r=rng.randint(0 if rng.random() < 0.2 else 1, min(ref_split(shape[2], k))))
            if rng.random() < 0.04 and nd > 1:  # long messages
                j = rng.randrange(nd)
                if kind != "halo" or j != 2:
                    shape[j] = max(1, rng.randint(2000, 70000) * shape[j] // math.prod(shape)) + k
            o["neg"] = rng.random() < 0.4  # address dimensions from the end
            o["layout"] = rng.choice(["plain", "plain", "perm", "stride", "offset", "cl", "conj"])
            o["cot"] = rng.choice(["plain", "plain", "perm", "stride", "expand", "conj"])
            o["noshapes"] = kind in ("gather", "gathercopy") and rng.random() < 0.15
            o["grad"] = rng.random() < 0.85
            ops.append(o)
        mode = rng.choice(["step", "joint", "inter", "nograd"])
        bad = None
        if rng.random() < 0.2:
            cand = [i for i, o in enumerate(ops) if OPS[o["name"]][1] in ("transpose", "gather", "gathercopy") and n[OPS[o["name"]][0]] > 1]
            if cand:
                bad = dict(op=rng.choice(cand), how=rng.choice(["swap", "shift", "grow"]), at=rng.random())
                net["debug"] = True
        return dict(net=net, ops=ops, mode=mode, bad=bad)

    def run(self, cfg, rs, schedule=None):
        net = cfg["net"]
        rng = random.Random("run:" + rs)
        dep = dworld.Deployment(net, rng, schedule, epoch=seed_of(rs))
        self.last_trace = dep.world.trace
        size = {"p": dep.P, "a": dep.A}
        g = torch.Generator().manual_seed(seed_of("in", rs))
        ops = []
        for o in cfg["ops"]:
            grp, kind = OPS[o["name"]]
            n = size[grp]
            if "r" in o:
                o = dict(o, r=min(o["r"], min(ref_split(o["shape"][2], n))))
            dt = DTYPES[o["dtype"]]
            if o["dtype"] == "i64":
                o = dict(o, grad=False)
            sd = {"transpose": "d1", "gather": "dim", "gathercopy": "dim"}.get(kind)
            sd = o[sd] if sd else (2 if kind == "halo" else None)
            e = dict(o, grp=grp, kind=kind, n=n, sd=sd, x={}, c={}, y={}, gx={})
            e["shapes"] = ref_split(o["shape"][sd], n) if sd is not None else None
            for c in dep.ctx:
                i = c.p if grp == "p" else c.a
                shp = list(o["shape"])
                if sd is not None:
                    shp[sd] = e["shapes"][i]
                e["x"][c.idx] = values(shp, dt, g, o["big"])
            # reference, group by group
            for ranks in self.groups(dep, grp):
                xs = [e["x"][r] for r in ranks]
                ys = ref_forward(kind, xs, o)
                cs = [values(y.shape, dt, g, o["big"]) for y in ys]
                if o["cot"] == "expand":
                    cs = [cc.flatten()[:1].reshape([1] * cc.dim()).expand(cc.shape) for cc in cs]
                gx = ref_backward(kind, cs, xs, o)
                for r, y, cc, gg in zip(ranks, ys, cs, gx):
                    e["y"][r], e["c"][r], e["gx"][r] = y, cc, gg
            ops.append(e)
        bad = cfg["bad"]
        if bad is not None and size[OPS[cfg["ops"][bad["op"]]["name"]][0]] < 2:
            bad = None
        wrong = None
        if bad is not None:
            e = ops[bad["op"]]
            wrong = self.corrupt(list(e["shapes"]), bad)
            if wrong == e["shapes"]:
                bad = None
        mode = cfg["mode"]

        def prog(ctx):
            ctx.init()
            thd = ctx.thd
            if bad is not None:
                thd.config.debug = True
            out = ctx.out
            out.update(y=[], gx=[], mut=[], refused=None, local=self.local_queries(ctx))
            ys, cs, leaves = [], [], []
            for i, e in enumerate(ops):
                nd = len(e["shape"])
                neg = lambda d: d - nd if e["neg"] else d
                x = noncontig(e["x"][ctx.idx].clone(), e["layout"])
                x0 = x.clone()
                want = mode != "nograd" and e["grad"]
                if want:
                    x.requires_grad_(True)
                f = getattr(thd, e["name"])
                shapes = list(e["shapes"]) if e["shapes"] is not None else None
                if bad is not None and i == bad["op"]:
                    shapes = list(wrong)
                if e["kind"] == "transpose":
                    a = (x, (neg(e["d0"]), neg(e["d1"])), shapes)
                elif e["kind"] in ("gather", "gathercopy"):
                    a = (x, neg(e["dim"]), None if e["noshapes"] and bad is None else shapes)
                elif e["kind"] in ("scatter", "rscatter"):
                    a = (x, neg(e["dim"]))
                elif e["kind"] == "halo":
                    a = (x, e["r"])
                else:
                    a = (x,)
                with torch.set_grad_enabled(mode != "nograd"):
                    if bad is not None and i == bad["op"]:
                        try:
                            f(*a)
                            out["refused"] = "accepted"
                        except (core.CommAborted, core.HarnessError):
                            raise
                        except Exception as ex:  # noqa: BLE001
                            out["refused"] = type(ex).__name__
                        ys.append(None)
                        leaves.append(None)
                        continue
                    y = f(*a)
                out["y"].append((i, y.detach().clone()))
                if not same(x.detach(), x0):
                    out["mut"].append((i, "forward"))
                if mode == "nograd" and e["kind"] not in ALIAS and e["n"] > 1:
                    # the call has returned, so the caller may reuse its buffer
                    keep = y.clone()
                    x.fill_(7)
                    if not same(y, keep):
                        out["mut"].append((i, "output aliases the caller's buffer"))
                if want and e["kind"] == "halo" and e["n"] == 1:
                    want = False
                if want:
                    c = noncontig(e["c"][ctx.idx].clone(), e["cot"]) if e["cot"] != "expand" else e["c"][ctx.idx]
                    if mode == "step":
                        y.backward(c)
                    else:
                        ys.append(y)
                        cs.append(c)
                    leaves.append((i, x, x0, c, c.clone()))
            if mode == "joint" and cs:
                torch.autograd.backward([y for y in ys if y is not None], cs)
            elif mode == "inter":
                for y, c in zip([y for y in ys if y is not None], cs):
                    y.backward(c)
            for t in leaves:
                if t is None:
                    continue
                i, x, x0, c, c0 = t
                out["gx"].append((i, None if x.grad is None else x.grad.clone()))
                if not same(x.detach(), x0):
                    out["mut"].append((i, "backward"))
                if not same(c, c0):
                    out["mut"].append((i, "cotangent"))
            ctx.finalize()

        dep.run(prog)
        for c in dep.ctx:
            who = f"rank {c.idx} (polar {c.p}/{c.P}, azimuth {c.a}/{c.A})"
            if c.out["local"]:
                raise Violation("wrong-result", f"{who}: {c.out['local']}")
            if bad is not None and c.out["refused"] in (None, "accepted"):
                raise Violation("bad-shapes-accepted", f"{who}: {ops[bad['op']]['name']} accepted sizes {wrong} where the ranks hold {ops[bad['op']]['shapes']} although debug checks are on")
            if c.out["mut"]:
                i, how = c.out["mut"][0]
                raise Violation("input-modified", f"{who}: {ops[i]['name']}: {how}")
            for i, y in c.out["y"]:
                if ops[i]["kind"] == "halo" and ops[i]["n"] == 1:
                    continue  # one rank: padding with an empty halo and returning the input are both documented
                self.exact(f"{who} {ops[i]['name']} [{ops[i]['dtype']}]", y, ops[i]["y"][c.idx])
            for i, gx in c.out["gx"]:
                if ops[i]["kind"] == "halo" and ops[i]["n"] == 1:
                    continue
                self.exact(f"{who} gradient of {ops[i]['name']} [{ops[i]['dtype']}]", gx, ops[i]["gx"][c.idx])
        w = dep.world
        if net["style"] in ("slow", "lazy", "eager"):
            w._count_fault({"slow": "slow-rank", "lazy": "late-delivery", "eager": "early-delivery"}[net["style"]])
        if net["fill"]:
            w._count_fault("poisoned-uninitialised-memory")
        if not net["eager"]:
            w._count_fault("rendezvous-sends")
        if bad is not None:
            w._count_fault("misdeclared-shapes")
        state = f"{dep.P}x{dep.A}:" + ",".join(f"{e['name']}{e['shape']}{e['dtype']}" for e in ops)
        return Result(steps=w.steps, digest=w.digest(), faults=w.faults, ops=w.ops, nontrivial=dep.P * dep.A > 1, state=state, probes=["bad-shapes"] if bad is not None else [])

    @staticmethod
    def exact(name, got, want):
        if got is None or tuple(got.shape) != tuple(want.shape):
            raise Violation("wrong-shape", f"{name}: shape {None if got is None else tuple(got.shape)}, expected {tuple(want.shape)}")
        if got.dtype != want.dtype:
            raise Violation("wrong-dtype", f"{name}: dtype {got.dtype}, expected {want.dtype}")
        if not same(got, want):
            err = (got.to(torch.complex128) - want.to(torch.complex128)).abs().max().item()
            raise Violation("wrong-result", f"{name}: differs from the documented redistribution/sum by up to {err:.3e}")

    @staticmethod
    def groups(dep, grp):
        if grp == "p":
            return [[dep.inv[(d, p, a)] for p in range(dep.P)] for d in range(dep.D) for a in range(dep.A)]
        return [[dep.inv[(d, p, a)] for a in range(dep.A)] for d in range(dep.D) for p in range(dep.P)]

    @staticmethod
    def corrupt(s, bad):
        i = int(bad["at"] * len(s)) % len(s)
        j = (i + 1) % len(s)
        if bad["how"] == "swap":
            s[i], s[j] = s[j], s[i]
        elif bad["how"] == "shift" and s[i] > 1:
            s[i], s[j] = s[i] - 1, s[j] + 1
        else:
            s[i] += 1
        return s

    @staticmethod
    def local_queries(ctx):
        """The helpers that describe the partition, seen from this rank."""
        thd = ctx.thd
        for size, n in ((7, 3), (12, 4), (5, 5), (11, max(ctx.P, 1)), (13, max(ctx.A, 1))):
            if list(thd.compute_split_shapes(size, n)) != ref_split(size, n):
                return f"compute_split_shapes({size}, {n}) = {thd.compute_split_shapes(size, n)}"
        for pg, n, i, dirn in ((ctx.pol_group, ctx.P, ctx.p, "p"), (ctx.az_group, ctx.A, ctx.a, "a")):
            if pg is None:
                continue
            at = (lambda k: ctx.dep.inv[(ctx.d, k, ctx.a)]) if dirn == "p" else (lambda k: ctx.dep.inv[(ctx.d, ctx.p, k)])
            want = (at((i - 1) % n), at((i + 1) % n))
            if tuple(thd.get_group_neighbors(pg)) != want:
                return f"get_group_neighbors = {thd.get_group_neighbors(pg)}, expected {want}"
        n = max(ctx.P, ctx.A)
        t = torch.arange(2 * 3 * 4.0).reshape(1, 2, 3, 4) + ctx.idx
        f, lead, m = thd.flatten_and_pad_leading_dims(t, n)
        if f.shape[0] < n or not torch.equal(f[:2], t[0]) or f[2:].abs().sum() != 0:
            return "flatten_and_pad_leading_dims"
        if not torch.equal(thd.unpad_and_unflatten_leading_dims(f, lead, m), t):
            return "unpad_and_unflatten_leading_dims"
        parts = thd.split_tensor_along_dim(torch.arange(11), 0, n)
        if [p.numel() for p in parts] != ref_split(11, n) or not torch.equal(torch.cat(list(parts)), torch.arange(11)):
            return "split_tensor_along_dim"
        return None

    def shrink_cfg(self, cfg):
        ops = cfg["ops"]
        if len(ops) > 1:
            for i in range(len(ops)):
                if cfg["bad"] is not None and cfg["bad"]["op"] == i:
                    continue
                b = cfg["bad"]
                if b is not None and b["op"] > i:
                    b = dict(b, op=b["op"] - 1)
                yield dict(cfg, ops=ops[:i] + ops[i + 1 :], bad=b)
        if cfg["bad"] is not None:
            yield dict(cfg, bad=None)
        for i, o in enumerate(ops):
            for k, v in (("layout", "plain"), ("cot", "plain"), ("neg", False), ("noshapes", False), ("big", False), ("dtype", "f64")):
                if o[k] != v:
                    yield dict(cfg, ops=ops[:i] + [dict(o, **{k: v})] + ops[i + 1 :])


CHECK = C06()
