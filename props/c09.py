"""C09: a failed or crashed step leaves nothing behind; restart resumes exactly."""

import random

import torch

from props import c05, prog
from props.common import REAL_VS_STUB, DistCheck, same, seed_of
from thsim import core, dworld
from thsim.core import Violation
from thsim.dworld import chunk
from thsim.faults import FailingOps
from thsim.search import Result


def close(a, b):
    if a.shape != b.shape or a.dtype != b.dtype:
        return False
    if a.is_complex():
        a, b = torch.view_as_real(a.resolve_conj()), torch.view_as_real(b.resolve_conj())
    if a.numel() == 0:
        return True
    dt = a.dtype
    fin = torch.isfinite(a)
    if not torch.equal(fin, torch.isfinite(b)):
        return False
    a, b = a.double()[fin], b.double()[fin]
    if a.numel() == 0:
        return True
    tol = {torch.float64: 1e-9, torch.float32: 3e-3}.get(dt, 0.1)
    return (a - b).abs().max().item() <= tol * max(a.abs().max().item(), 1e-3)


WHAT = {"y": "output", "g": "input gradient", "p": "parameter gradient", "u": "caller's own reduction", "s": "parameter or buffer"}


class C09(DistCheck):
    id = "C09"
    quick_runs, quick_wall = 3000, 50
    thorough_runs, thorough_wall = 200000, 1500
    components = {"real code": REAL_VS_STUB["real code"], "stub": REAL_VS_STUB["stub"] + ["ring-step attention kernels (CUDA only in the repository; executable model on CPU)"]}
    assumptions = DistCheck.assumptions[:1] + [
        "a rank that fails tears its communicators down; ranks blocked on them get an error from the transport",
        "gradients accumulated by a backward pass that failed are discarded by the caller (zero_grad) before retrying",
        "the parameters are saved by the caller before the failing step; reloading uses load_state_dict",
    ]

    def prepare(self):
        prog.prepare()

    def sample(self, rng):
        big = dworld.sample_net(rng, max_ranks=6)
        while big["P"] * big["A"] == 1:
            big = dworld.sample_net(rng, max_ranks=6)
        parts = [prog.sample_part(rng, big) for _ in range(rng.choice([1, 1, 2]))]
        acts = prog.sample_program(rng, parts, [prog.steps_of(p) for p in parts])
        nets = [big]
        for _ in range(12):
            n = dict(big, P=rng.randint(1, big["P"]), A=rng.randint(1, big["A"]), layout=rng.choice(["row", "col"]), none1=rng.random() < 0.4)
            if all(p["id"] != "C05" or c05.servable(dict(p["cfg"], net=n)) for p in parts):
                nets.append(n)
        other = rng.choice(nets)
        first, second = (big, other) if rng.random() < 0.7 else (other, big)
        if first["P"] * first["A"] == 1:
            first, second = second, first
        if rng.random() < 0.5:
            second = dict(first)
        same_grid = (first["P"], first["A"], first["layout"], first["none1"]) == (second["P"], second["A"], second["layout"], second["none1"])
        n = first["P"] * first["A"] * first["D"]
        faults = []
        for _ in range(rng.choice([1, 1, 1, 2])):
            k = rng.choice(["crash", "crash", "op", "op", "op", "post"])
            faults.append(dict(kind=k, rank=rng.randrange(n), at=rng.random() ** rng.choice([1, 1, 3]), after=rng.random() < 0.3))
        return dict(net=first, net2=second, parts=parts, acts=acts, faults=faults, reuse=bool(same_grid and rng.random() < 0.75), seed2=rng.randrange(1 << 30))

    # --------------------------------------------------------------------------------------------------------------
    def deploy(self, net, rs, tag, schedule, traces):
        traces.append(f"phase {tag}")
        dep = dworld.Deployment(net, random.Random(f"run:{rs}:{tag}"), schedule, epoch=seed_of(rs), max_steps=200000)
        dep.world.order_mode = "fixed"
        dep.world.trace = traces
        return dep

    def run(self, cfg, rs, schedule=None):
        traces = self.last_trace = []
        scheds = {}
        if schedule is not None:
            cur = scheds.setdefault("?", [])
            for lab in schedule:
                if lab.startswith("phase "):
                    cur = scheds.setdefault(lab.split()[1], [])
                else:
                    cur.append(lab)
        get = lambda tag: scheds.get(tag, []) if schedule is not None else None
        n1, n2 = cfg["net"], cfg["net2"]
        sp1 = [prog.spec_of(prog.with_net(p, n1), rs, i) for i, p in enumerate(cfg["parts"])]
        no = prog.serial_refuses(sp1)
        if no:
            return Result(digest="refused", nontrivial=False, probes=["serial-refused:" + no])
        sp2 = [prog.spec_of(prog.with_net(p, n2), rs, i) for i, p in enumerate(cfg["parts"])]
        tot = dict(steps=0, dig="", faults={}, ops={})

        def account(dep):
            w = dep.world
            tot["steps"] += w.steps
            tot["dig"] += w.digest()
            for d, s in ((tot["faults"], w.faults), (tot["ops"], w.ops)):
                for k, v in s.items():
                    d[k] = d.get(k, 0) + v

        def shift(mods):
            with torch.no_grad():
                for m in mods:
                    for _, p in m.named_parameters():
                        p.mul_(1.25)

        def build(ctx, specs, mods):
            for s in specs:
                mods.append(s.make_dist(ctx))
            shift(mods)

        # never-failed run(s)
        def clean(net, specs, tag):
            dep = self.deploy(net, rs, tag, get(tag), traces)

            def body(ctx):
                ctx.init()
                mods = []
                build(ctx, specs, mods)
                counter = FailingOps(-1)
                p0 = ctx.r.posts
                with counter:
                    rec, _ = prog.execute(ctx, specs, cfg["acts"], mods=mods)
                ctx.out.update(rec=rec, nops=counter.n, nposts=ctx.r.posts - p0)
                ctx.finalize()

            dep.run(body)
            account(dep)
            return dep

        ref1 = clean(n1, sp1, "ref1")
        ref2 = ref1 if cfg["net2"] == cfg["net"] else clean(n2, sp2, "ref2")

        # the run that fails
        dep = self.deploy(n1, rs, "fail", get("fail"), traces)
        w = dep.world
        N = len(dep.ctx)
        plans = {}
        for f in cfg["faults"]:
            plans.setdefault(f["rank"] % N, f)
        fired = {}

        def failing(ctx):
            o = ctx.out
            o.update(rec={}, mods=[], leaves={}, err=None)
            ctx.init()
            build(ctx, sp1, o["mods"])
            o["saved"] = [{n: t.detach().clone() for n, t in m.state_dict().items()} for m in o["mods"]]
            o["bufs"] = [{n: (t.detach().clone(), t) for n, t in (m.named_buffers() if hasattr(m, "named_buffers") else ())} for m in o["mods"]]
            f = plans.get(ctx.idx)
            rr = ref1.ctx[ctx.idx].out
            mode = FailingOps(-1)
            if f is not None:
                if f["kind"] == "op":
                    mode = FailingOps(int(f["at"] * rr["nops"]), f["after"])
                elif f["kind"] == "crash":
                    ctx.r.crash_at = ctx.r.posts + int(f["at"] * rr["nposts"]) if rr["nposts"] else None
                else:
                    ctx.r.fail_post = ctx.r.posts + int(f["at"] * rr["nposts"]) if rr["nposts"] else None
            try:
                with mode:
                    prog.execute(ctx, sp1, cfg["acts"], rec=o["rec"], mods=o["mods"], leaves=o["leaves"])
            except (core.HarnessError, Violation):
                raise
            except Exception as e:  # noqa: BLE001
                o["err"] = f"{type(e).__name__}: {e}"[:300]
                w._on_crash(ctx.r)  # this process leaves the computation: its communicators go away
            if mode.fired:
                fired["op"] = fired.get("op", 0) + 1
                o["opfired"] = mode.fired
            ctx.r.crash_at = ctx.r.fail_post = None
            ctx.finalize()
            o["down"] = not ctx.thd.is_initialized()

        dep.run(failing, must_finish=False)
        account(dep)
        for k, v in fired.items():
            tot["faults"]["failing-" + k] = v
        for c in dep.ctx:
            who = f"rank {c.idx} (polar {c.p}/{c.P}, azimuth {c.a}/{c.A})"
            if c.r.state == core.FAILED:
                dworld.check_not_harness(c.r)
                raise Violation("exception", f"{who} could not shut down after a failed step: {type(c.r.exc).__name__}: {c.r.exc}\n{c.r.tb}")
            if c.r.state == core.CRASHED:
                continue
            o = c.out
            if not o["down"]:
                raise Violation("not-shut-down", f"{who}: still initialised after finalize")
            # what was returned before (or in spite of) the failure is right
            rr = ref1.ctx[c.idx].out["rec"]
            for k, t in o["rec"].items():
                if k not in rr or not close(t, rr[k]):
                    raise Violation("wrong-after-fault", f"{who}: {WHAT[k[0]]} {k} returned in a run with faults {cfg['faults']} differs from the run without (error reported: {o['err']})")
            self.intact(who, c, o, sp1)
        failed = [c for c in dep.ctx if c.r.state == core.CRASHED or c.out["err"]]

        # saved state, assembled
        saved = None
        if all("saved" in c.out for c in dep.ctx):
            saved = [self.assemble(dep, i, s) for i, s in enumerate(sp1)]

        # recovery
        dep2 = self.deploy(n2, rs, "again", get("again"), traces)
        if cfg["reuse"]:
            for c, c2 in zip(dep.ctx, dep2.ctx):
                if c.r.state != core.CRASHED:
                    c2.r.ns = c.r.ns

        def again(ctx):
            ctx.init()
            mods = []
            old = dep.ctx[ctx.idx].out if cfg["reuse"] and dep.ctx[ctx.idx].r.state != core.CRASHED else None
            if old is not None:
                mods = old["mods"]
                for m in mods:
                    for _, p in m.named_parameters():
                        p.grad = None
            else:
                build(ctx, sp2, mods)
                if saved is not None:
                    for m, s, sd in zip(mods, sp2, saved):
                        with torch.no_grad():
                            for _, p in m.named_parameters():
                                p.fill_(0.5)
                        if sd:
                            m.load_state_dict({n: self.shard(ctx, s, n, t) for n, t in sd.items()})
            rec, _ = prog.execute(ctx, sp2, cfg["acts"], mods=mods)
            ctx.out["rec"] = rec
            ctx.finalize()

        dep2.run(again)
        account(dep2)
        for c in dep2.ctx:
            rr = ref2.ctx[c.idx].out["rec"]
            who = f"rank {c.idx} (polar {c.p}/{c.P}, azimuth {c.a}/{c.A})"
            if rr.keys() != c.out["rec"].keys():
                raise Violation("wrong-after-restart", f"{who}: results {sorted(rr.keys() ^ c.out['rec'].keys())[:3]} differ in presence after the restart")
            for k, t in c.out["rec"].items():
                if not close(t, rr[k]):
                    d = (torch.nan_to_num(t) - torch.nan_to_num(rr[k])).abs().max().item() if t.shape == rr[k].shape else -1
                    raise Violation("wrong-after-restart", f"{who}: {WHAT[k[0]]} {k} after the restart ({'same objects' if cfg['reuse'] else 'rebuilt'}) differs from a run that never failed by {d:.3e}; errors reported: {[x.out.get('err') for x in dep.ctx][:6]}")
        return Result(
            steps=tot["steps"], digest=tot["dig"], faults=tot["faults"], ops=tot["ops"], nontrivial=bool(failed),
            state=f"{n1['P']}x{n1['A']}>{n2['P']}x{n2['A']}:" + ",".join(sorted(p["id"] for p in cfg["parts"])) + ":" + ",".join(sorted({f["kind"] for f in cfg["faults"]})),
            probes=[p["id"] for p in cfg["parts"]] + [("reused-objects" if cfg["reuse"] else "restart-same-grid" if n1 == n2 else "restart-other-grid"), "fault-hit" if failed else "fault-missed"],
        )

    def intact(self, who, c, o, specs):
        for i, m in enumerate(o["mods"]):
            now = m.state_dict()
            if now.keys() != o["saved"][i].keys():
                raise Violation("corrupted", f"{who}: state of module {i} has other entries after the failure: {sorted(now.keys() ^ o['saved'][i].keys())}")
            for n, t in now.items():
                if not same(t.detach(), o["saved"][i][n]):
                    raise Violation("corrupted", f"{who}: parameter {n} of module {i} changed by a failed step ({o['err']})")
            for n, (t0, t) in o["bufs"][i].items():
                if not same(t.detach(), t0):
                    raise Violation("corrupted", f"{who}: buffer {n} of module {i} changed by a failed step ({o['err']})")
        for (i, s), ls in o["leaves"].items():
            for j, t in enumerate(ls):
                x = specs[i].inputs[c.d][s][j]
                if not same(t.detach(), c.local(x["t"], *x["dims"])):
                    raise Violation("corrupted", f"{who}: caller's input {j} of call {s} of module {i} was modified ({o['err']})")

    def assemble(self, dep, i, spec):
        """The global state of module i from the shards saved on the ranks of replica 0."""
        keys = [set(c.out["saved"][i]) for c in dep.ctx]
        if any(k != keys[0] for k in keys):
            raise Violation("state-differs", f"module {i}: ranks save different sets of parameters {[sorted(k ^ keys[0]) for k in keys]}")
        out = {}
        for n in keys[0]:
            _, pl, pm = spec.params.get(n, ("pa", None, None))
            rows = []
            for p in range(dep.P):
                row = [dep.at(0, p, a).out["saved"][i][n] for a in range(dep.A)]
                rows.append(torch.cat(row, pm) if pm is not None else row[0])
            out[n] = torch.cat(rows, pl) if pl is not None else rows[0]
        return out

    def shard(self, ctx, spec, n, t):
        _, pl, pm = spec.params.get(n, ("pa", None, None))
        if pl is not None:
            t = chunk(t, pl, ctx.P, ctx.p)
        if pm is not None:
            t = chunk(t, pm, ctx.A, ctx.a)
        return t.contiguous()

    def shrink(self, cfg):
        from props.c07 import CHECK as c7

        F = cfg["faults"]
        if len(F) > 1:
            for i in range(len(F)):
                yield dict(cfg, faults=F[:i] + F[i + 1 :])
        if cfg["net2"] != cfg["net"]:
            yield dict(cfg, net2=cfg["net"])
        for s in c7.shrink_cfg(dict(cfg, data="randn")):
            s.pop("data", None)
            yield s
        for k, v in (("D", 1), ("layout", "row"), ("none1", False), ("debug", False), ("fill", False), ("inorder", True), ("eager", True), ("coalescing", True), ("style", "uniform")):
            if cfg["net"].get(k) != v:
                yield dict(cfg, net=dict(cfg["net"], **{k: v}), net2=dict(cfg["net2"], **{k: v}))
        if cfg["reuse"]:
            yield dict(cfg, reuse=False)


CHECK = C09()
