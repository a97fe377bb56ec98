"""C08: results do not depend on when messages are read or delivered."""

import random

import torch

from props import prog
from props.common import REAL_VS_STUB, DistCheck, same, seed_of
from thsim import dworld
from thsim.core import Violation
from thsim.search import Result

STYLES = ["eager", "lazy", "uniform", "pct", "slow", "lifo"]


class C08(DistCheck):
    id = "C08"
    quick_runs, quick_wall = 3000, 50
    thorough_runs, thorough_wall = 200000, 1500
    components = {"real code": REAL_VS_STUB["real code"], "stub": REAL_VS_STUB["stub"] + ["ring-step attention kernels (CUDA only in the repository; executable model on CPU)"]}
    assumptions = DistCheck.assumptions[:1] + [
        "the order in which the interconnect sums contributions is fixed per operation (it is varied between runs, not between the deliveries that are compared)",
        "rank-local kernels are deterministic for a given memory content",
    ]

    def prepare(self):
        prog.prepare()

    def sample(self, rng):
        net = dworld.sample_net(rng, max_ranks=6)
        while net["P"] * net["A"] == 1:
            net = dworld.sample_net(rng, max_ranks=6)
        parts = [prog.sample_part(rng, net) for _ in range(rng.choice([1, 1, 2]))]
        acts = prog.sample_program(rng, parts, [prog.steps_of(p) for p in parts])
        a, b = rng.sample(STYLES, 2)
        variants = [dict(style=s, eager=rng.random() < 0.5, coalescing=rng.random() < 0.5, inorder=rng.random() < 0.7) for s in (a, b)]
        if rng.random() < 0.5:
            variants.append(dict(style=rng.choice(STYLES), eager=rng.random() < 0.5, coalescing=rng.random() < 0.5, fill=True))
        net["fill"] = False
        return dict(net=net, parts=parts, acts=acts, variants=variants)

    def run(self, cfg, rs, schedule=None):
        traces, recs = [], []
        self.last_trace = traces
        specs = [prog.spec_of(prog.with_net(p, cfg["net"]), rs, i) for i, p in enumerate(cfg["parts"])]
        no = prog.serial_refuses(specs)
        if no:
            return Result(digest="refused", nontrivial=False, probes=["serial-refused:" + no])
        # a recorded schedule is the concatenation of the schedules of the variants
        scheds = [None] * len(cfg["variants"])
        if schedule is not None:
            scheds = [[] for _ in cfg["variants"]]
            v = -1
            for lab in schedule:
                if lab.startswith("variant "):
                    v = int(lab.split()[1])
                elif 0 <= v < len(scheds):
                    scheds[v].append(lab)
        steps, faults, ops, dig = 0, {}, {}, ""
        for v, var in enumerate(cfg["variants"]):
            net = dict(cfg["net"], **var)
            dep = dworld.Deployment(net, random.Random(f"run:{rs}:{v}"), scheds[v], epoch=seed_of(rs), max_steps=200000)
            dep.world.trace = traces
            traces.append(f"variant {v}")

            def body(ctx):
                ctx.init()
                rec, mods = prog.execute(ctx, specs, cfg["acts"])
                for i, m in enumerate(mods):
                    for n, t in m.state_dict().items():
                        rec[f"s{i}.{n}"] = t.detach().clone()
                ctx.out["rec"] = rec
                ctx.finalize()

            dep.run(body)
            recs.append([c.out["rec"] for c in dep.ctx])
            w = dep.world
            steps += w.steps
            dig += w.digest()
            k = {"slow": "slow-rank", "lazy": "late-delivery", "eager": "early-delivery"}.get(net["style"])
            if k:
                w._count_fault(k)
            if net["fill"]:
                w._count_fault("poisoned-uninitialised-memory")
            if not net["eager"]:
                w._count_fault("rendezvous-sends")
            for d, s in ((faults, w.faults), (ops, w.ops)):
                for kk, vv in s.items():
                    d[kk] = d.get(kk, 0) + vv
        for v, rr in enumerate(recs):
            for c, a in enumerate(rr):
                for k, t in a.items():
                    if k[0] == "y" and specs[int(k[1:].split(".")[0])].finite and torch.isnan(torch.view_as_real(t.resolve_conj()) if t.is_complex() else t).any():
                        raise Violation("garbage-read", f"rank {c}: output {k} holds undefined values under delivery {v} {cfg['variants'][v]}")
        base = recs[0]
        for v in range(1, len(recs)):
            exact = not cfg["variants"][v].get("fill")
            for c, (a, b) in enumerate(zip(base, recs[v])):
                if a.keys() != b.keys():
                    raise Violation("timing-dependent", f"rank {c}: delivery {v} produced {sorted(b.keys() ^ a.keys())[:3]} differently")
                for k in a:
                    if exact:
                        ok = same(a[k], b[k])
                    else:
                        ok = close(a[k], b[k])
                    if not ok:
                        d = (torch.nan_to_num(a[k]) - torch.nan_to_num(b[k])).abs().max().item() if a[k].shape == b[k].shape else -1
                        what = {"y": "output", "g": "input gradient", "p": "parameter gradient", "u": "caller's own reduction", "s": "parameter or buffer"}[k[0]]
                        raise Violation("timing-dependent", f"rank {c}: {what} {k} differs between delivery 0 {cfg['variants'][0]} and delivery {v} {cfg['variants'][v]} by {d:.3e} (NaN: {int(torch.isnan(torch.view_as_real(b[k].resolve_conj()) if b[k].is_complex() else b[k]).sum())})")
        return Result(steps=steps, digest=dig, faults=faults, ops=ops, nontrivial=True, state=f"{cfg['net']['P']}x{cfg['net']['A']}:" + ",".join(sorted(p["id"] for p in cfg["parts"])) + str(len(cfg["acts"])), probes=[p["id"] for p in cfg["parts"]])

    def shrink_cfg(self, cfg):
        from props.c07 import CHECK as c7

        if len(cfg["variants"]) > 2:
            for i in range(1, len(cfg["variants"])):
                yield dict(cfg, variants=cfg["variants"][:i] + cfg["variants"][i + 1 :])
        for s in c7.shrink_cfg(dict(cfg, data="randn")):
            s.pop("data", None)
            yield s

    def shrink(self, cfg):
        for s in super().shrink(cfg):
            n = s["net"]
            if n["P"] * n["A"] > 1 and not n.get("fill"):
                yield s


def close(a, b):
    if a.shape != b.shape:
        return False
    if a.is_complex():
        a, b = torch.view_as_real(a.resolve_conj()), torch.view_as_real(b.resolve_conj())
    if not torch.equal(torch.isnan(a), torch.isnan(b)):
        return False
    a, b = torch.nan_to_num(a), torch.nan_to_num(b)
    if a.numel() == 0:
        return True
    tol = {torch.float64: 1e-9, torch.float32: 3e-3}.get(a.dtype, 0.1)
    a, b = a.double(), b.double()
    return (a - b).abs().max().item() <= tol * max(a.abs().max().item(), 1.0)


CHECK = C08()
