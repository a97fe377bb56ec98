"""C07: every rank makes progress; no deadlock, no mismatched communication."""

import random

import torch

from props import prog
from props.common import REAL_VS_STUB, DistCheck, seed_of
from thsim import dworld
from thsim.core import Violation
from thsim.search import Result


class C07(DistCheck):
    id = "C07"
    quick_runs, quick_wall = 4000, 50
    thorough_runs, thorough_wall = 300000, 1500
    components = {"real code": REAL_VS_STUB["real code"], "stub": REAL_VS_STUB["stub"] + ["ring-step attention kernels (CUDA only in the repository; executable model on CPU)"]}
    assumptions = DistCheck.assumptions[:1] + ["liveness bound: a program must finish within 400 scheduler steps per communication operation it posts"]

    def prepare(self):
        prog.prepare()

    def sample(self, rng):
        net = dworld.sample_net(rng, max_ranks=9 if rng.random() < 0.15 else 6)
        parts = [prog.sample_part(rng, net) for _ in range(rng.choice([1, 2, 2, 3]))]
        acts = prog.sample_program(rng, parts, [prog.steps_of(p) for p in parts])
        return dict(net=net, parts=parts, acts=acts, data=rng.choice(["randn", "randn", "zeros", "nan-one-rank", "inf-one-rank", "zero-one-rank", "zero-cot", "zero-cot-one-rank", "zero-cot-but-one-rank"]), victim=rng.random())

    def run(self, cfg, rs, schedule=None):
        rng = random.Random("run:" + rs)
        dep = dworld.Deployment(cfg["net"], rng, schedule, epoch=seed_of(rs), max_steps=200000)
        self.last_trace = dep.world.trace
        specs = [prog.spec_of(prog.with_net(p, cfg["net"]), rs, i) for i, p in enumerate(cfg["parts"])]
        no = prog.serial_refuses(specs)
        if no:
            return Result(digest="refused", nontrivial=False, probes=["serial-refused:" + no])
        victim = int(cfg["victim"] * len(dep.ctx)) % len(dep.ctx)

        def data(ctx, i, s, t):
            how = cfg["data"]
            if how == "zeros" or (how == "zero-one-rank" and ctx.idx == victim):
                return torch.zeros_like(t)
            if how == "nan-one-rank" and ctx.idx == victim:
                return torch.full_like(t, float("nan"))
            if how == "inf-one-rank" and ctx.idx == victim:
                return torch.full_like(t, float("inf"))
            return t

        def body(ctx):
            ctx.init()
            quiet = {"zero-cot": True, "zero-cot-one-rank": ctx.idx == victim, "zero-cot-but-one-rank": ctx.idx != victim}.get(cfg["data"], False)
            prog.execute(ctx, specs, cfg["acts"], data, record=False, quiet=quiet)
            ctx.finalize()

        dep.run(body)
        w = dep.world
        left = [str(k) for k, q in w.queues.items() if q]
        if left:
            raise Violation("unfinished-communication", f"operations still outstanding after every rank returned: {left[:4]}")
        posts = sum(r.posts for r in w.ranks)
        if w.steps > 400 * (posts + len(w.ranks)):
            raise Violation("no-progress", f"{w.steps} scheduler steps for {posts} operations")
        st = cfg["net"]["style"]
        if st in ("slow", "lazy", "eager"):
            w._count_fault({"slow": "slow-rank", "lazy": "late-delivery", "eager": "early-delivery"}[st])
        if not cfg["net"]["eager"]:
            w._count_fault("rendezvous-sends")
        if cfg["data"] != "randn":
            w._count_fault("data-" + cfg["data"])
        probes = [p["id"] for p in cfg["parts"]] + (["checkpointed"] if any(a[0] == "f" and a[3] for a in cfg["acts"]) else [])
        return Result(steps=w.steps, digest=w.digest(), faults=w.faults, ops=w.ops, nontrivial=dep.P * dep.A > 1, state=f"{dep.P}x{dep.A}:" + ",".join(sorted(p["id"] for p in cfg["parts"])) + str(len(cfg["acts"])), probes=probes)

    def shrink_cfg(self, cfg):
        for i in range(len(cfg["parts"])):
            if len(cfg["parts"]) > 1:
                acts = [a for a in cfg["acts"] if a[0] in "ju" or a[1] != i]
                acts = [[a[0], a[1] - 1, *a[2:]] if a[0] in "fb" and a[1] > i else a for a in acts]
                yield dict(cfg, parts=cfg["parts"][:i] + cfg["parts"][i + 1 :], acts=acts)
        for n, a in enumerate(cfg["acts"]):
            if a[0] in "bju":
                yield dict(cfg, acts=cfg["acts"][:n] + cfg["acts"][n + 1 :])
            elif not any(b[0] == "b" and b[1:3] == a[1:3] for b in cfg["acts"]):
                yield dict(cfg, acts=cfg["acts"][:n] + cfg["acts"][n + 1 :])
            elif a[3]:
                yield dict(cfg, acts=cfg["acts"][:n] + [[*a[:3], 0, a[4]]] + cfg["acts"][n + 1 :])
        if cfg["data"] != "randn":
            yield dict(cfg, data="randn")


CHECK = C07()
