"""C10: the initialise / finalise / query life cycle against a small state machine."""

import os
import random

import torch
import torch.distributed as dist
from torch.testing._internal.distributed.multi_threaded_pg import WorldData

from props import c05, prog as program
from props.c06 import OPS, ref_backward, ref_forward, values
from props.common import REAL_VS_STUB, DistCheck, amax, local, loss_of, same, seed_of
from thsim import core, dworld, ranks
from thsim.core import HarnessError, Violation
from thsim.dworld import chunk, ref_split
from thsim.search import Result

DEBUG_ENV = "TORCH_HARMONICS_DISTRIBUTED_DEBUG"
SIZES = [1, 2, 2, 3, 4, 4, 6]


def sample_grid(rng, n):
    """One way of registering groups over n ranks."""
    fac = [(p, n // p) for p in range(1, n + 1) if n % p == 0]
    P, A = rng.choice(fac)
    g = dict(P=P, A=A, layout=rng.choice(["row", "col"]), pnone=False, anone=False, share=None)
    r = rng.random()
    if r < 0.12:
        # the default group is one of the directions
        if rng.random() < 0.5:
            g.update(P=n, A=1, share="world-p", anone=rng.random() < 0.5)
        else:
            g.update(P=1, A=n, share="world-a", pnone=rng.random() < 0.5)
    elif r < 0.2:
        g.update(P=n, A=n, share="same")  # one group for both directions (diagonal decompositions)
    else:
        if P == 1 and rng.random() < 0.5:
            g["pnone"] = True
        if A == 1 and rng.random() < 0.5:
            g["anone"] = True
    return g


MODS = ["C01", "C02", "C03", "C04", "C05"]


def sample_mod(rng, P, A):
    """A module that fits every grid of the history."""
    k = rng.choice(MODS)
    net = dict(P=P, A=A, D=1, debug=False, fill=False)
    for _ in range(20):
        c = dict(program.PARTS[k].sample(rng, net), amp=None, imask=None, cmask=None, mix=False)
        if c.get("dtype") == "bf16":
            c["dtype"] = "f32"
        for b in ("leads", "batches"):
            if b in c:
                c[b] = c[b][:1]
        if max(c.get("cin", 1), c.get("cout", 1)) <= 12 and max(c.get("ish", [c.get("nlat", 0), c.get("nlon", 0)])) <= 40:
            break
    return dict(id=k, cfg=c)


def plan_mod(part, P, A, rs):
    """The serial module's output and input gradients."""
    part = program.with_net(part, dict(part["cfg"]["net"], P=P, A=A))
    if part["id"] == "C05" and not c05.servable(part["cfg"]):
        return None
    spec = program.spec_of(part, rs, 0)
    try:
        m = spec.make_ref()
        xs = [x["t"].clone().requires_grad_(x["grad"]) for x in spec.inputs[0][0]]
        y = spec.call(m, xs)
        g = torch.Generator().manual_seed(seed_of("modcot", rs))
        cot = torch.randn(y.shape, dtype=y.dtype, generator=g)
        if y.requires_grad:
            loss_of(y, cot, "dot").backward()
        y = y.detach()
    except Exception:  # noqa: BLE001 - the serial module does not take this configuration
        return None
    ts = [y, *(x.grad for x in xs if x.grad is not None)]
    if not all(torch.isfinite(torch.view_as_real(t.resolve_conj()) if t.is_complex() else t).all() for t in ts):
        return None
    return dict(spec=spec, y=y, grads=[x.grad for x in xs], cot=cot, P=P, A=A, id=part["id"])


class ModCtx:
    """The grid as one rank sees it in the middle of a history."""

    def __init__(self, r, thd, P, A, p, a):
        self.r, self.thd, self.P, self.A, self.p, self.a, self.d, self.idx = r, thd, P, A, p, a, 0, r.idx


def use_mod(r, thd, t, model, where):
    pg, ag = model[:2]
    ctx = ModCtx(r, thd, t["P"], t["A"], pg.grank if pg is not None else 0, ag.grank if ag is not None else 0)
    spec = t["spec"]
    before = r.posts
    m = spec.make_dist(ctx)
    xs = [local(x["t"], ctx, *x["dims"]).clone(memory_format=torch.contiguous_format).requires_grad_(x["grad"]) for x in spec.inputs[0][0]]
    y = spec.call(m, xs)
    la, lo = spec.out_dims
    tol, floor = (1e-2, 1.0) if t["id"] == "C05" else (2e-3, 0.1)  # C01 to C05 look at the precision
    dworld.compare(f"rank {r.idx} {where}: output", y.detach(), local(t["y"], ctx, la, lo), tol, scale=amax(t["y"], floor))
    if y.requires_grad:
        loss_of(y, local(t["cot"], ctx, la, lo), "dot").backward()
        for i, x in enumerate(xs):
            g = t["grads"][i]
            dworld.compare(f"rank {r.idx} {where}: gradient of input {i}", x.grad, None if g is None else local(g, ctx, *spec.inputs[0][0][i]["dims"]), tol, scale=amax(g, floor))
    if t["P"] * t["A"] == 1 and r.posts != before:
        raise Violation("needless-communication", f"rank {r.idx} {where}: a module on one rank communicates")


class C10(DistCheck):
    id = "C10"
    quick_runs, quick_wall = 6000, 40
    thorough_runs, thorough_wall = 300000, 900
    components = REAL_VS_STUB
    assumptions = DistCheck.assumptions[:1] + [
        "process groups are created before the history starts; a group is never registered again once the library destroyed it",
        "after a failed finalise either keeping or dropping the group whose shutdown failed is acceptable; reporting a destroyed group is not",
    ]

    def prepare(self):
        program.prepare()

    def redeployed(self, rng):
        """The same few modules are built anew under one grid after the other, in the same processes."""
        n = rng.choice([2, 3, 4, 4, 6, 6])
        grids = [g for g in (sample_grid(rng, n) for _ in range(12)) if not g["share"]][: rng.randint(2, 4)]
        mods = [sample_mod(rng, max(g["P"] for g in grids), max(g["A"] for g in grids)) for _ in range(rng.choice([1, 1, 2]))]
        acts = []
        for i in range(len(grids)):
            acts.append(["init", i])
            for _ in range(rng.randint(1, 2)):
                acts.append(["mod", rng.randrange(len(mods))])
            acts.append(["fin"])
            if rng.random() < 0.2:
                acts.append(["mod", rng.randrange(len(mods))])
        return n, grids, acts, mods

    def sample(self, rng):
        net = dict(A=1, style=rng.choice(dworld.STYLES), coalescing=rng.random() < 0.6, eager=rng.random() < 0.5, fill=rng.random() < 0.3)
        if rng.random() < 0.3:
            n, grids, acts, mods = self.redeployed(rng)
            return dict(n=n, grids=grids, acts=acts, mods=mods, net=dict(net, P=n))
        n = rng.choice(SIZES)
        acts = []
        ngr = 0
        grids = []
        reg = None
        L = rng.randint(3, 14)
        for _ in range(L):
            r = rng.random()
            if r < 0.28 and ngr < 6:
                if reg is not None and rng.random() < 0.2:
                    acts.append(["init", reg])
                else:
                    grids.append(sample_grid(rng, n))
                    reg = ngr
                    acts.append(["init", ngr])
                    ngr += 1
            elif r < 0.45:
                if reg is not None and rng.random() < 0.25 and not (grids[reg]["share"] or "").startswith("world"):
                    acts.append(["ffail", rng.choice(["p", "a"]), rng.choice(["all", "one"]), rng.randrange(n), rng.randint(1, 2)])
                else:
                    acts.append(["fin"])
                last = grids[reg]["share"] if reg is not None else None
                reg = None
                if (last or "").startswith("world"):
                    break
            elif r < 0.6:
                acts.append(["world"])
            elif r < 0.65:
                acts.append(["fin2"])
                last = grids[reg]["share"] if reg is not None else None
                reg = None
                if (last or "").startswith("world"):
                    break
            elif r < 0.68:
                acts.append(["debug", rng.random() < 0.5])
                if rng.random() < 0.5:
                    acts.append(["env", rng.choice(["0", "1", ""])])
            elif r < 0.71:
                acts.append(["env", rng.choice(["0", "1", ""])])
            elif r < 0.78:
                acts.append(["sht", rng.randint(0, 99)])
            else:
                acts.append(["use", rng.choice(sorted(OPS)), rng.randint(0, 10**6)])
        if rng.random() < 0.15:  # the caller has shut down torch.distributed first
            acts.append(["down"])
            for _ in range(rng.randint(0, 2)):
                acts.append(rng.choice([["sht", rng.randint(0, 99)], ["use", rng.choice(sorted(OPS)), rng.randint(0, 10**6)], ["fin"]]))
        acts.append(["fin"])
        return dict(n=n, grids=grids, acts=acts, mods=[], net=dict(net, P=n))

    def run(self, cfg, rs, schedule=None):
        n, net = cfg["n"], cfg["net"]
        rng = random.Random("run:" + rs)
        w = core.World(n, rng, style=net["style"], coalescing=net["coalescing"], eager=net["eager"], schedule=schedule, epoch=seed_of(rs), max_steps=100000)
        self.last_trace = w.trace
        wg = w.make_group("w", list(range(n)))
        for r in w.ranks:
            r.ns = ranks.Namespace()
            r.wd = WorldData()
            w._register(r.wd, wg[r.idx], True)
        # the groups of every grid
        regs = []
        for i, g in enumerate(cfg["grids"]):
            P, A = g["P"], g["A"]
            per = {}
            if g["share"] == "same":
                grp = w.make_group(f"g{i}", list(range(n)))
                for r in range(n):
                    w._register(w.ranks[r].wd, grp[r])
                    per[r] = (grp[r], grp[r])
            elif g["share"] in ("world-p", "world-a"):
                for r in range(n):
                    single = None
                    if not (g["anone"] if g["share"] == "world-p" else g["pnone"]):
                        single = w.make_group(f"g{i}.{r}", [r])[r]
                        w._register(w.ranks[r].wd, single)
                    per[r] = (wg[r], single) if g["share"] == "world-p" else (single, wg[r])
            else:
                rk = (lambda p, a: p * A + a) if g["layout"] == "row" else (lambda p, a: a * P + p)
                pg, ag = {}, {}
                if not g["pnone"]:
                    for a in range(A):
                        pg.update(w.make_group(f"g{i}.p{a}", [rk(p, a) for p in range(P)]))
                if not g["anone"]:
                    for p in range(P):
                        ag.update(w.make_group(f"g{i}.a{p}", [rk(p, a) for a in range(A)]))
                for r in range(n):
                    for d in (pg, ag):
                        if r in d:
                            w._register(w.ranks[r].wd, d[r])
                    per[r] = (pg.get(r), ag.get(r))
            regs.append(per)

        import torch_harmonics as th

        counts = {"history-steps": 0}
        probes = set()
        # what a use of a primitive must return is computed from all ranks' inputs
        table = {}
        cur = None
        plans = {}
        for k, a in enumerate(cfg["acts"]):
            if a[0] == "init":
                cur = a[1]
            elif a[0] in ("fin", "fin2", "ffail", "down"):
                cur = None
            elif a[0] == "use":
                table[k] = plan_use(cfg, a, cur, regs, rs, k, n)
            elif a[0] == "mod":
                P, A = (cfg["grids"][cur]["P"], cfg["grids"][cur]["A"]) if cur is not None else (1, 1)
                if (a[1], P, A) not in plans:
                    plans[a[1], P, A] = plan_mod(cfg["mods"][a[1]], P, A, f"{rs}/{a[1]}")
                table[k] = plans[a[1], P, A]
            elif a[0] == "sht":
                g = torch.Generator().manual_seed(seed_of("sht", rs, k))
                gr = cfg["grids"][cur] if cur is not None else None
                P, A = (gr["P"], gr["A"]) if gr else (1, 1)
                nlat, nlon = 2 * max(P, A) + 2 + a[1] % 3, 2 * max(P, A) + 3 + a[1] % 4
                table[k] = (torch.randn(max(P, A), nlat, nlon, dtype=torch.float64, generator=g), P, A)

        def queries(me, thd, model, where):
            pg, ag, init = model
            got = dict(
                is_initialized=thd.is_initialized(),
                is_distributed_polar=thd.is_distributed_polar(),
                is_distributed_azimuth=thd.is_distributed_azimuth(),
                polar_group_size=thd.polar_group_size(),
                azimuth_group_size=thd.azimuth_group_size(),
                polar_group_rank=thd.polar_group_rank(),
                azimuth_group_rank=thd.azimuth_group_rank(),
            )
            exp = dict(
                is_initialized=init,
                is_distributed_polar=pg is not None,
                is_distributed_azimuth=ag is not None,
                polar_group_size=pg.size() if pg is not None else 1,
                azimuth_group_size=ag.size() if ag is not None else 1,
                polar_group_rank=pg.grank if pg is not None else 0,
                azimuth_group_rank=ag.grank if ag is not None else 0,
            )
            for q in exp:
                if got[q] != exp[q]:
                    raise Violation("wrong-query", f"rank {me.idx} {where}: {q}() is {got[q]}, expected {exp[q]}")
            if thd.polar_group() is not pg:
                raise Violation("wrong-query", f"rank {me.idx} {where}: polar_group() is {thd.polar_group()}, expected {pg}")
            if thd.azimuth_group() is not ag:
                raise Violation("wrong-query", f"rank {me.idx} {where}: azimuth_group() is {thd.azimuth_group()}, expected {ag}")

        def prog(r):
            thd = r.ns.pkg
            model = (None, None, False)
            alive = True  # default group
            overridden = None
            where = "before the first call"
            queries(r, thd, model, where)
            expect_down = {}
            for k, a in enumerate(cfg["acts"]):
                counts["history-steps"] += 1
                where = f"after step {k} {a}"
                if a[0] == "init":
                    pg, ag = regs[a[1]][r.idx]
                    thd.init(pg, ag)
                    model = (pg, ag, True)
                elif a[0] in ("fin", "fin2", "ffail", "down"):
                    targets = {g for g in model[:2] if g is not None}
                    if a[0] == "down" and alive:
                        targets = set(r.wd.pg_names)
                        alive = False
                        dist.destroy_process_group()
                        probes.add("torch.distributed-shut-down-first")
                    elif wg[r.idx] in targets:
                        targets = set(r.wd.pg_names)
                        alive = False
                    if a[0] == "ffail":
                        bad = model[0] if a[1] == "p" else model[1]
                        if bad is not None and (a[2] == "all" or a[3] == r.idx):
                            bad.fail_shutdown = a[4]
                            for _ in range(a[4]):
                                try:
                                    thd.finalize()
                                except core.InjectedFault:
                                    probes.add("finalize-failed")
                                # whatever is reported now must be alive
                                for d, grp in (("polar", thd.polar_group()), ("azimuth", thd.azimuth_group())):
                                    if grp is not None and grp not in r.wd.pg_map:
                                        raise Violation("wrong-query", f"rank {r.idx}: {d}_group() reports a destroyed group after a failed finalize")
                                    if grp is not None and grp not in targets:
                                        raise Violation("wrong-query", f"rank {r.idx}: {d}_group() reports {grp}, which is not registered")
                                if thd.is_distributed_polar() != (thd.polar_group() is not None) or thd.is_distributed_azimuth() != (thd.azimuth_group() is not None):
                                    raise Violation("wrong-query", f"rank {r.idx}: is_distributed_* contradicts the registered group after a failed finalize")
                                for d, grp in (("polar", thd.polar_group()), ("azimuth", thd.azimuth_group())):
                                    sz, rk = getattr(thd, d + "_group_size")(), getattr(thd, d + "_group_rank")()
                                    if (sz, rk) != ((grp.size(), grp.grank) if grp is not None else (1, 0)):
                                        raise Violation("wrong-query", f"rank {r.idx}: {d} size/rank {sz}/{rk} contradict the registered group {grp} after a failed finalize")
                    thd.finalize()
                    model = (None, None, False)
                    if a[0] == "fin2":
                        thd.finalize()
                    for g in targets:
                        # a group whose shutdown failed may have been dropped without a second attempt
                        expect_down[g] = (0, 1) if getattr(g, "failed_once", False) else (1, 1)
                    for (gid, rr), g in w.groups.items():
                        if rr != r.idx:
                            continue
                        lo, hi = expect_down.get(g, (0, 0))
                        if not lo <= g.downs <= hi:
                            raise Violation("group-teardown", f"rank {r.idx} {where}: group {gid} was shut down {g.downs} times, expected {hi}")
                elif a[0] == "world":
                    if alive:
                        t = torch.full((2,), float(r.idx + k), dtype=torch.float64)
                        dist.all_reduce(t)
                        if t[0].item() != sum(float(i + k) for i in range(n)):
                            raise Violation("wrong-result", f"rank {r.idx} {where}: the default group no longer works")
                elif a[0] == "debug":
                    overridden = a[1]
                    thd.config.debug = a[1]
                    if thd.config.debug is not a[1]:
                        raise Violation("wrong-query", f"rank {r.idx}: config.debug is {thd.config.debug} after it was set to {a[1]}")
                elif a[0] == "env":
                    old = os.environ.get(DEBUG_ENV)
                    os.environ[DEBUG_ENV] = a[1]
                    got = thd.config.debug
                    if old is None:
                        del os.environ[DEBUG_ENV]
                    else:
                        os.environ[DEBUG_ENV] = old
                    if overridden is None and got is not (a[1] == "1"):
                        raise Violation("wrong-query", f"rank {r.idx} {where}: config.debug is {got}, and the environment says {a[1]!r}")
                    if overridden is not None and got is not overridden:
                        raise Violation("wrong-query", f"rank {r.idx} {where}: config.debug is {got} though it was set to {overridden} (environment {a[1]!r})")
                elif a[0] == "use":
                    use(r, thd, table[k], model, where, probes)
                elif a[0] == "mod":
                    if table[k] is not None:
                        use_mod(r, thd, table[k], model, where)
                        probes.add("module:" + table[k]["id"])
                elif a[0] == "sht":
                    x, P, A = table[k]
                    p = model[0].grank if model[0] is not None else 0
                    q = model[1].grank if model[1] is not None else 0
                    if model[0] is not None and model[0] is model[1]:
                        continue  # not a process grid
                    ref = th.RealSHT(x.shape[-2], x.shape[-1]).to(torch.float64)(x)
                    m = thd.DistributedRealSHT(x.shape[-2], x.shape[-1]).to(torch.float64)
                    before = r.posts
                    y = m(chunk(chunk(x, -2, P, p), -1, A, q).contiguous())
                    exp = chunk(chunk(ref, -2, P, p), -1, A, q)
                    dworld.compare(f"rank {r.idx} {where}: transform", y, exp, 1e-9, scale=1e-2)
                    if P * A == 1 and r.posts != before:
                        raise Violation("needless-communication", f"rank {r.idx} {where}: a transform on one rank communicates")
                queries(r, thd, model, where)

        fill = net["fill"]
        if fill:
            torch.use_deterministic_algorithms(True, warn_only=True)
        try:
            w.run(prog)
        finally:
            if fill:
                torch.use_deterministic_algorithms(False)
        for r in w.ranks:
            if r.state != core.DONE:
                if isinstance(r.exc, HarnessError):
                    raise r.exc
                if isinstance(r.exc, Violation):
                    raise r.exc
                raise Violation("exception", f"rank {r.idx} raised {type(r.exc).__name__}: {r.exc}\n{r.tb}")
        for g in w.groups.values():
            if getattr(g, "failed_once", False):
                w._count_fault("shutdown-fails")
        kinds = sorted({a[0] for a in cfg["acts"]})
        state = "|".join(f"{cfg['grids'][a[1]]['P']}x{cfg['grids'][a[1]]['A']}{cfg['grids'][a[1]]['share'] or ''}" if a[0] == "init" else a[0] for a in cfg["acts"] if a[0] in ("init", "fin", "fin2", "ffail"))
        shares = {cfg["grids"][a[1]]["share"] for a in cfg["acts"] if a[0] == "init"}
        return Result(steps=w.steps + counts["history-steps"], digest=w.digest() + str(seed_of(state)), faults=w.faults, ops=w.ops, nontrivial=any(k == "init" for k in kinds), state=state, probes=sorted(probes) + [f"registered:{s or 'grid'}" for s in sorted(map(str, shares))])

    def shrink(self, cfg):
        acts = cfg["acts"]
        for i in range(len(acts) - 1):
            yield dict(cfg, acts=acts[:i] + acts[i + 1 :])
        for k, v in (("fill", False), ("eager", True), ("coalescing", True), ("style", "uniform")):
            if cfg["net"][k] != v:
                yield dict(cfg, net=dict(cfg["net"], **{k: v}))
        if cfg["n"] > 1 and not any(g["P"] * g["A"] not in (cfg["n"], cfg["n"] ** 2) for g in cfg["grids"]):
            m = 1 if cfg["n"] <= 3 else 2
            gs = []
            for g in cfg["grids"]:
                if g["share"] == "same":
                    gs.append(dict(g, P=m, A=m))
                elif g["P"] >= g["A"]:
                    gs.append(dict(g, P=m, A=1))
                else:
                    gs.append(dict(g, P=1, A=m))
            yield dict(cfg, n=m, grids=gs)


def plan_use(cfg, a, cur, regs, rs, k, n):
    """Inputs of all ranks for one use of a primitive, and what every rank must get."""
    op = a[1]
    dirn, kind = OPS[op]
    g = torch.Generator().manual_seed(seed_of("use", rs, k))
    prng = random.Random(a[2])
    # the subgroup each rank talks to
    sub = {}
    for r in range(n):
        grp = regs[cur][r][0 if dirn == "p" else 1] if cur is not None else None
        sub[r] = tuple(grp.ranks) if grp is not None else (r,)
    gsz = len(sub[0])
    dt = prng.choice([torch.float64, torch.float32])
    out = {}
    o = dict(dim=prng.choice([-1, -2, 1]), d0=1, d1=prng.choice([-1, -2]), r=prng.randint(1, 2))
    if kind == "transpose" and prng.random() < 0.5:
        o["d0"], o["d1"] = o["d1"], o["d0"]
    base = [prng.randint(1, 2), gsz + 1, 2 * gsz + prng.randint(0, 2), gsz + prng.randint(0, 2)]
    for members in sorted(set(sub.values())):
        shapes = []
        if kind == "transpose":
            full = values(base, dt, g, False)
            xs = [chunk(full, o["d1"], gsz, i).contiguous() for i in range(gsz)]
            shapes = ref_split(base[o["d1"]], gsz)
        elif kind in ("gather", "gathercopy"):
            full = values(base, dt, g, False)
            xs = [chunk(full, o["dim"], gsz, i).contiguous() for i in range(gsz)]
            shapes = ref_split(base[o["dim"]], gsz)
        elif kind == "halo":
            full = values(base, dt, g, False)
            xs = [chunk(full, 2, gsz, i).contiguous() for i in range(gsz)]
        else:
            xs = [values(base, dt, g, False) for _ in range(gsz)]
        ys = ref_forward(kind, xs, o)
        gs = [values(y.shape, dt, g, False) for y in ys]
        ds = ref_backward(kind, gs, xs, o)
        for i, r in enumerate(members):
            out[r] = (xs[i], ys[i], gs[i], ds[i])
    return dict(op=op, kind=kind, o=o, shapes=shapes, per=out, gsz=gsz)


def call(thd, t, x):
    f = getattr(thd, t["op"])
    o, kind = t["o"], t["kind"]
    if kind == "transpose":
        return f(x, (o["d0"], o["d1"]), t["shapes"])
    if kind in ("copy", "reduce"):
        return f(x)
    if kind in ("scatter", "rscatter"):
        return f(x, o["dim"])
    if kind in ("gather", "gathercopy"):
        return f(x, o["dim"], t["shapes"])
    return f(x, o["r"])


def use(r, thd, t, model, where, probes):
    x, y, gy, dx = t["per"][r.idx]
    x = x.clone().requires_grad_(True)
    x0 = x.detach().clone()
    before = r.posts
    z = call(thd, t, x)
    local = t["gsz"] == 1
    if t["kind"] == "halo" and local:
        y = None
    if y is not None and not same(z.detach(), y):
        raise Violation("wrong-result", f"rank {r.idx} {where}: {t['op']} over {t['gsz']} ranks returns something else than documented")
    if y is not None:
        z.backward(gy)
        if x.grad is None or not same(x.grad, dx):
            raise Violation("wrong-result", f"rank {r.idx} {where}: {t['op']} over {t['gsz']} ranks has a wrong backward pass")
    if not same(x.detach(), x0):
        raise Violation("input-modified", f"rank {r.idx} {where}: {t['op']} modified its input")
    if local:
        probes.add("local-identity")
        if r.posts != before:
            raise Violation("needless-communication", f"rank {r.idx} {where}: {t['op']} communicates although its group has one rank or none")


CHECK = C10()
