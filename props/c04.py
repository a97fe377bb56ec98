"""C04: distributed quadrature and spectral convolution equal the serial ones."""

import random

import torch

import torch_harmonics as th
from props.common import DT, LAYOUTS, LOSSES, MODES, DistCheck, Spec, bare, dtype_of, extras, run_spec, seed_of
from thsim import dworld
from thsim.core import Violation
from thsim.dworld import chunk
from thsim.search import Result

GRIDS = ["equiangular", "legendre-gauss", "lobatto"]


class C04(DistCheck):
    id = "C04"
    quick_runs, quick_wall = 6000, 45
    thorough_runs, thorough_wall = 400000, 1500

    def sample(self, rng, net=None):
        alone = net is None
        net = net or dworld.sample_net(rng, max_ranks=9 if rng.random() < 0.15 else 6)
        P, A = net["P"], net["A"]
        kind = rng.choice(["quad", "spec", "spec"])
        lo = max(P, A)

        def shape():
            h = rng.randint(max(3, lo), max(3, lo) + (rng.choice([3, 8, 12]) if rng.random() < 0.96 else 40))
            return [h, rng.choice([2 * h, 2 * (h - 1), rng.randint(max(3, 2 * A), 24)])]

        while True:
            ish, osh = shape(), shape()
            if rng.random() < 0.5:
                osh = list(ish)
            gi, go = rng.choice(GRIDS), rng.choice(GRIDS)
            L = min(*th.truncate_sht(*ish, grid=gi), *th.truncate_sht(*osh, grid=go))
            if L >= lo and ish[1] >= A and osh[1] >= A:
                break
        if alone and rng.random() < 0.03:
            kind = "init"
        elif kind == "quad" and rng.random() < 0.25:
            gi = "equiangular-trapezoidal"
        groups = rng.choice([1, 1, 2, 3])
        cin, cout = (groups * rng.randint(1, 3 if rng.random() < 0.95 else rng.choice([9, 40])) for _ in range(2))
        return dict(
            net=net, kind=kind, ish=ish, osh=osh, gi=gi, go=go, groups=groups, cin=cin, cout=cout, bias=rng.random() < 0.5, normalize=rng.random() < 0.5,
            batches=[rng.randint(1, 3) if rng.random() < 0.95 else rng.choice([0, 4, 5, 7, 9, 19, 40]) for _ in range(rng.choice([1, 1, 2, 3]) if rng.random() < 0.97 else 6)], dtype=rng.choices(["f64", "f32", "bf16"], [2, 1, 0.3 if kind == "quad" else 0])[0], mix=rng.random() < 0.12, **extras(rng), mode=rng.choice(MODES), loss=rng.choice(LOSSES),
            layout=rng.choice(LAYOUTS), xgrad=rng.random() < 0.85, cast=rng.random() < 0.7, zero_bias=False, lead=rng.choice([None, None, None, 0, 1, 3]), cplx=rng.random() < 0.15,
        )

    def spec(self, cfg, rs):
        dt = DT[cfg["dtype"]]
        g = torch.Generator().manual_seed(seed_of("in", rs))
        D = cfg["net"]["D"]
        inputs = [
            [[dict(t=torch.randn(b, cfg["cin"], *cfg["ish"], dtype=dtype_of(cfg, s), generator=g) + 0.3, dims=(-2, -1), grad=cfg["xgrad"] or cfg["kind"] == "quad", layout=cfg["layout"])] for s, b in enumerate(cfg["batches"])]
            for _ in range(D)
        ]
        if cfg["kind"] == "quad":
            for steps in inputs:
                for s, st in enumerate(steps):
                    for i in st:
                        if cfg["cplx"] and i["t"].dtype != torch.bfloat16:
                            i["t"] = torch.complex(i["t"], torch.randn(i["t"].shape, dtype=i["t"].dtype, generator=g))
                        if cfg["lead"] == 0 and i["t"].shape[0]:
                            i["t"] = i["t"][0, 0].clone()
                        elif cfg["lead"] == 1:
                            i["t"] = i["t"][:, 0].clone()
                        elif cfg["lead"] == 3:
                            i["t"] = i["t"].unsqueeze(1)
            args = (tuple(cfg["ish"]),)
            kw = bare(th.QuadratureS2, dict(grid=cfg["gi"], normalize=cfg["normalize"]), rs)

            def cast(m):
                return m.to(dt) if cfg["cast"] else m

            return Spec(lambda ctx: cast(ctx.thd.DistributedQuadratureS2(*args, **kw)), lambda: cast(th.QuadratureS2(*args, **kw)), inputs, (None, None))
        else:
            args = (tuple(cfg["ish"]), tuple(cfg["osh"]), cfg["cin"], cfg["cout"])
            kw = bare(th.SpectralConvS2, dict(num_groups=cfg["groups"], grid_in=cfg["gi"], grid_out=cfg["go"], bias=cfg["bias"]), rs)
            ref = th.SpectralConvS2(*args, **kw)
            W = {n: torch.randn(p.shape, dtype=p.dtype, generator=g) for n, p in ref.named_parameters()}
            shard = {"weight": (3, None), "spectral_bias": (2, 3)}

            def make_ref():
                m = th.SpectralConvS2(*args, **kw)
                m.load_state_dict(W, strict=False)
                return m

            def make_dist(ctx):
                m = ctx.thd.DistributedSpectralConvS2(*args, **kw)
                sd = {}
                for n, t in W.items():
                    pl, pm = shard[n]
                    t = chunk(t, pl, ctx.P, ctx.p)
                    if pm is not None:
                        t = chunk(t, pm, ctx.A, ctx.a)
                    sd[n] = t.contiguous()
                m.load_state_dict(sd, strict=False)
                return m

            params = {"weight": ("a", 3, None)}
            if cfg["bias"]:
                params["spectral_bias"] = ("", 2, 3)
            return Spec(make_dist, make_ref, inputs, (-2, -1), params=params)

    def run_init(self, cfg, rs, schedule):
        """The initial weights of the shards are on the scale of the serial ones, degree by degree."""
        args = (tuple(cfg["ish"]), tuple(cfg["osh"]), 40 * cfg["groups"], 40 * cfg["groups"])
        kw = bare(th.SpectralConvS2, dict(num_groups=cfg["groups"], grid_in=cfg["gi"], grid_out=cfg["go"], bias=cfg["bias"]), rs)
        dep = dworld.Deployment(cfg["net"], random.Random("run:" + rs), schedule, epoch=seed_of(rs))
        self.last_trace = dep.world.trace
        torch.manual_seed(seed_of("init", rs) % 2**31)
        ref = th.SpectralConvS2(*args, **kw).weight.detach().abs().square().mean((0, 1, 2))

        def prog(ctx):
            ctx.init()
            w = ctx.thd.DistributedSpectralConvS2(*args, **kw).weight.detach()
            ctx.out["scale"] = w.abs().square().mean((0, 1, 2))
            ctx.finalize()

        dep.run(prog)
        for c in dep.ctx:
            q = c.out["scale"] / chunk(ref, 0, c.P, c.p)
            if q.min() < 0.7 or q.max() > 1.43:  # more than eight standard deviations
                raise Violation("wrong-result", f"rank {c.idx} (polar {c.p}/{c.P}): initial weights have {q.min().item():.2f} to {q.max().item():.2f} times the variance of the serial ones, by degree {[round(v, 2) for v in q.tolist()]}")
        return Result(steps=dep.world.steps, digest=dep.world.digest(), faults=dep.world.faults, ops=dep.world.ops, nontrivial=dep.P > 1, probes=["initial-weights"])

    def run(self, cfg, rs, schedule=None):
        if cfg["kind"] == "init":
            return self.run_init(cfg, rs, schedule)
        res = run_spec(self, cfg, rs, schedule, self.spec(cfg, rs), tol=None if cfg["kind"] == "quad" else 1e-4)
        res.state = f"{cfg['net']['P']}x{cfg['net']['A']}:{cfg['kind']}:{cfg['ish']}:{cfg['osh']}:{cfg['gi']}:{cfg['go']}:{cfg['groups']}"
        return res

    def shrink_cfg(self, cfg):
        B = cfg["batches"]
        if len(B) > 1:
            for i in range(len(B)):
                yield dict(cfg, batches=B[:i] + B[i + 1 :])
        if B[0] > 1:
            yield dict(cfg, batches=[B[0] - 1] + B[1:])
        for k, v in (("layout", "plain"), ("mix", False), ("dtype", "f32"), ("mode", "nograd"), ("bias", False), ("gi", "equiangular"), ("go", "equiangular"), ("normalize", False), ("xgrad", True)):
            if cfg[k] != v:
                yield dict(cfg, **{k: v})
        if cfg["groups"] > 1:
            yield dict(cfg, groups=1)
        elif cfg["cin"] > 1:
            yield dict(cfg, cin=cfg["cin"] - 1)
        elif cfg["cout"] > 1:
            yield dict(cfg, cout=cfg["cout"] - 1)


CHECK = C04()
