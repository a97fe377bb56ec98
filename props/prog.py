"""Programs over several distributed modules and primitives at once: the workload of C07, C08 and C09.

A program is a list of actions that every rank performs in the same order:
    f i s     call part i on its s-th input            (k = the call is activation-checkpointed)
    b i s     backward through that call               (skipped when nothing needs a gradient)
    j         backward through everything still pending
    u         a collective of the caller's own on the world group (data-parallel style)
"""

import functools

import torch
import torch.distributed as dist
import torch.utils.checkpoint

from props import c01, c02, c03, c04, c05
from props.common import Spec, loss_of, noncontig, seed_of
from thsim import ringstub
from thsim.dworld import ref_split

PARTS = {"C01": c01.C01(), "C02": c02.C02(), "C03": c03.C03(), "C04": c04.C04(), "C05": c05.C05()}
PDT = {"f64": torch.float64, "f32": torch.float32, "bf16": torch.bfloat16, "f16": torch.float16}
LINKS = ["tp", "ta", "gather", "gathercopy", "reducep", "reducea", "copyp", "copya", "rsp", "rsa", "halo"]


class Chain:
    """A module made of primitives, as a user would write one."""

    def __init__(self, ctx, cfg):
        self.ctx, self.cfg = ctx, cfg

    def named_parameters(self):
        return iter(())

    def state_dict(self):
        return {}

    def __call__(self, x):
        thd, P, A = self.ctx.thd, self.ctx.P, self.ctx.A
        B, C, H, W = self.cfg["shape"]
        lat, lon, ch_a, ch_p = ref_split(H, P), ref_split(W, A), ref_split(C, A), ref_split(C, P)
        for link in self.cfg["links"]:
            if link == "tp":
                y = thd.distributed_transpose_polar(x, (1, -2), lat)
                x = thd.distributed_transpose_polar(torch.tanh(y), (-2, 1), ch_p)
            elif link == "ta":
                y = thd.distributed_transpose_azimuth(x, (1, -1), lon)
                x = thd.distributed_transpose_azimuth(torch.tanh(y), (-1, 1), ch_a)
            elif link == "gather":
                x = thd.scatter_to_polar_region(torch.tanh(thd.gather_from_polar_region(x, -2, lat)), -2)
            elif link == "gathercopy":
                y = thd.gather_from_copy_to_polar_region(x, -2, lat)
                x = x + y.mean(-2, keepdim=True)
            elif link == "reducep":
                x = x + thd.reduce_from_polar_region(x.sum(-2, keepdim=True))
            elif link == "reducea":
                x = x - thd.reduce_from_azimuth_region(x.mean(-1, keepdim=True))
            elif link == "copyp":
                x = x + 0.5 * thd.copy_to_polar_region(x.mean((-2, -1), keepdim=True))
            elif link == "copya":
                x = x + 0.5 * thd.copy_to_azimuth_region(x.mean((-2, -1), keepdim=True))
            elif link == "rsp":
                x = x + thd.reduce_from_scatter_to_polar_region(x.mean(-2, keepdim=True).expand(-1, -1, H, -1).contiguous(), -2)
            elif link == "rsa":
                x = x + thd.reduce_from_scatter_to_azimuth_region(x.mean(-1, keepdim=True).expand(-1, -1, -1, W).contiguous(), -1)
            elif link == "halo":
                r = min(lat) if P > 1 else 1
                y = thd.polar_halo_exchange(x, r)
                if y.shape[-2] == x.shape[-2] + 2 * r:
                    x = x + 0.25 * (y[:, :, r - 1 : r - 1 + x.shape[-2]] + y[:, :, r + 1 : r + 1 + x.shape[-2]])
                else:
                    x = x + y
            else:
                raise KeyError(link)
        return x


def sample_part(rng, net):
    k = rng.choices(["C01", "C02", "C03", "C04", "C05", "prim"], [3, 3, 2, 2, 3, 3])[0]
    if k == "prim":
        P, A = net["P"], net["A"]
        c = max(P, A) + rng.randint(0, 2)
        return dict(
            id="prim", cfg=dict(net=net, shape=[rng.randint(1, 2), c, rng.randint(P, 2 * P + 2), rng.randint(A, 2 * A + 2)], links=[rng.choice(LINKS) for _ in range(rng.randint(1, 4))], steps=rng.choice([1, 1, 2]), dtype=rng.choice(["f64", "f32", "f32", "bf16", "f16"]))
        )
    while True:
        cfg = PARTS[k].sample(rng, net)
        if k == "C05" and not c05.servable(cfg):
            continue
        if k == "C02" and cfg["kind"] == "fused":
            pass
        return dict(id=k, cfg=cfg)


def prepare():
    ringstub.install()


def spec_of(part, rs, i):
    if part["id"] != "prim":
        return PARTS[part["id"]].spec(part["cfg"], f"{rs}/{i}")
    c = part["cfg"]
    g = torch.Generator().manual_seed(seed_of("prim", rs, i))
    dt = PDT[c["dtype"]]
    inputs = [[[dict(t=torch.randn(*c["shape"], dtype=dt, generator=g), dims=(-2, -1), grad=True, layout="plain")] for _ in range(c["steps"])] for _ in range(c["net"]["D"])]
    spec = Spec(lambda ctx: Chain(ctx, c), None, inputs, (-2, -1))
    spec.finite = c["dtype"] != "f16"  # long chains can overflow
    return spec


def with_net(part, net):
    return dict(part, cfg=dict(part["cfg"], net=net))


def sample_program(rng, parts, nsteps):
    """Random but common order of calls and backward passes."""
    todo = [(i, s) for i, n in enumerate(nsteps) for s in range(n)]
    pend, acts = [], []
    nxt = {i: 0 for i in range(len(parts))}
    while todo or pend:
        r = rng.random()
        if todo and (not pend or r < 0.55):
            i = rng.choice(sorted({i for i, _ in todo}))
            s = nxt[i]
            nxt[i] += 1
            todo.remove((i, s))
            acts.append(["f", i, s, int(rng.random() < 0.12), int(rng.random() < 0.12)])  # checkpointed?, without gradient?
            if not acts[-1][4]:
                pend.append((i, s))
        elif pend and r < 0.9:
            i, s = rng.choice(pend)
            pend.remove((i, s))
            acts.append(["b", i, s])
        elif pend and r < 0.95:
            pend = []
            acts.append(["j"])
        else:
            acts.append(["u"])
    return acts


def steps_of(part):
    c = part["cfg"]
    return c["steps"] if part["id"] == "prim" else len(c["leads"] if "leads" in c else c["batches"])


def serial_refuses(specs):
    """A configuration that the serial modules do not accept is nobody's workload."""
    for s in specs:
        if s.make_ref is None:
            continue
        try:
            m = s.make_ref()
            s.finite = True
            with torch.no_grad():
                for st in s.inputs[0]:
                    y = s.call(m, [x["t"] for x in st])
                    s.finite = s.finite and bool(torch.isfinite(torch.view_as_real(y.resolve_conj()) if y.is_complex() else y).all())
        except Exception as e:  # noqa: BLE001
            return type(e).__name__
    return None


def _call(spec, mod, *z):
    return spec.call(mod, list(z))


def execute(ctx, specs, acts, data=None, record=True, rec=None, mods=None, leaves=None, quiet=False):
    """One rank's execution of the program. Returns {key: tensor}, modules. What a failing program did so far is left in rec, mods and leaves."""
    rec = {} if rec is None else rec
    mods = [] if mods is None else mods
    leaves = {} if leaves is None else leaves
    for s in specs[len(mods) :]:
        mods.append(s.make_dist(ctx))
    pend = {}
    for n, a in enumerate(acts):
        if a[0] == "f":
            _, i, s, ck, ng = a
            spec = specs[i]
            xs = []
            for x in spec.inputs[ctx.d][s]:
                t = ctx.local(x["t"], *x["dims"])
                if data is not None:
                    t = data(ctx, i, s, t)
                if x["grad"] and not ng:
                    t.requires_grad_(True)
                xs.append((t, noncontig(t, x["layout"]) if x.get("layout", "plain") != "plain" else t))
            with torch.set_grad_enabled(not ng):
                args = [v for _, v in xs]
                if ck:
                    y = torch.utils.checkpoint.checkpoint(functools.partial(_call, spec, mods[i]), *args, use_reentrant=False, preserve_rng_state=False)
                else:
                    y = spec.call(mods[i], args)
            if record:
                rec[f"y{i}.{s}"] = y.detach().clone()
            pend[(i, s)] = y
            leaves[(i, s)] = [t for t, _ in xs]
        elif a[0] == "b":
            y = pend.pop((a[1], a[2]))
            if y.requires_grad:
                loss(y, a[1], a[2], ctx, quiet).backward()
        elif a[0] == "j":
            ls = [loss(y, i, s, ctx, quiet) for (i, s), y in pend.items() if y.requires_grad]
            pend.clear()
            if ls:
                torch.autograd.backward(ls)
        elif a[0] == "u":
            t = torch.full((3,), float(ctx.idx + n), dtype=torch.float64)
            dist.all_reduce(t)
            if record:
                rec[f"u{n}"] = t.clone()
        else:
            raise KeyError(a[0])
    if record:
        for (i, s), ls in leaves.items():
            for j, t in enumerate(ls):
                if t.grad is not None:
                    rec[f"g{i}.{s}.{j}"] = t.grad.clone()
        for i, m in enumerate(mods):
            for n, p in m.named_parameters():
                if p.grad is not None:
                    rec[f"p{i}.{n}"] = p.grad.clone()
    return rec, mods


def loss(y, i, s, ctx, quiet=False):
    if quiet:  # a loss whose gradient vanishes on this rank (masked region)
        return loss_of(y, torch.zeros(y.shape, dtype=y.dtype), "dot")
    g = torch.Generator().manual_seed(seed_of("cot", i, s, ctx.idx))
    c = torch.randn(y.shape, generator=g, dtype=torch.float64)
    return loss_of(y, c.to(y.dtype), "dot")
