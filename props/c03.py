"""C03: distributed resampling equals serial resampling."""

import torch

import torch_harmonics as th
from props.common import DT, LAYOUTS, LOSSES, MODES, DistCheck, Spec, bare, dtype_of, extras, rough, run_spec, seed_of
from thsim import dworld

GRIDS = ["equiangular", "legendre-gauss", "lobatto", "equiangular-trapezoidal"]


class C03(DistCheck):
    id = "C03"
    quick_runs, quick_wall = 6000, 45
    thorough_runs, thorough_wall = 400000, 1500

    def sample(self, rng, net=None):
        net = net or dworld.sample_net(rng, max_ranks=9 if rng.random() < 0.15 else 6)
        P, A = net["P"], net["A"]

        def size():
            return rng.randint(max(3, P), max(3, P) + rng.choice([2, 5, 12] if rng.random() < 0.97 else [50])), rng.randint(max(2, A), max(3, A) + rng.choice([2, 6, 16] if rng.random() < 0.97 else [80]))

        (hi, wi), (ho, wo) = size(), size()
        r = rng.random()
        if r < 0.25:
            ho, wo = hi * 2, wi * 2
        elif r < 0.35:
            ho = hi
        elif r < 0.45:
            wo = wi
        elif r < 0.5:
            ho, wo = hi, wi
        gi = rng.choice(GRIDS)
        go = gi if rng.random() < 0.4 else rng.choice(GRIDS)
        imode = rng.choice(["bilinear", "bilinear", "bilinear-spherical"])
        nsteps = rng.choice([1, 1, 2, 3]) if rng.random() < 0.97 else 6
        cmin = max(P, A)
        leads = []
        for _ in range(nsteps):
            lead = [rng.randint(1, 3) if rng.random() < 0.98 else 0 for _ in range(rng.choice([0, 1, 1, 2]))]
            leads.append(lead + [rng.randint(cmin, cmin + (3 if rng.random() < 0.95 else rng.choice([30, 30, 200])))])
        return dict(
            net=net, hi=hi, wi=wi, ho=ho, wo=wo, gi=gi, go=go, imode=imode, leads=leads, scale=0.2,
            dtype=rng.choices(["f64", "f32", "bf16"], [3, 1, 0 if imode != "bilinear" else 0.3])[0], mix=rng.random() < 0.12, **extras(rng), mode=rng.choice(MODES), loss=rng.choice(LOSSES), layout=rng.choice(LAYOUTS), cast=rng.random() < 0.7,
        )

    def spec(self, cfg, rs):
        dt = DT[cfg["dtype"]]
        args = (cfg["hi"], cfg["wi"], cfg["ho"], cfg["wo"])
        kw = bare(th.ResampleS2, dict(grid_in=cfg["gi"], grid_out=cfg["go"], mode=cfg["imode"]), rs)

        def cast(m):
            return m.to(dt) if cfg["cast"] else m

        g = torch.Generator().manual_seed(seed_of("in", rs))
        inputs = [
            [[dict(t=cfg["scale"] * torch.randn(*lead, cfg["hi"], cfg["wi"], dtype=dtype_of(cfg, s), generator=g), dims=(-2, -1), grad=True, layout=cfg["layout"])] for s, lead in enumerate(cfg["leads"])]
            for _ in range(cfg["net"]["D"])
        ]
        return Spec(lambda ctx: cast(ctx.thd.DistributedResampleS2(*args, **kw)), lambda: cast(th.ResampleS2(*args, **kw)), inputs, (-2, -1))

    def run(self, cfg, rs, schedule=None):
        res = run_spec(self, cfg, rs, schedule, self.spec(cfg, rs), **rough(cfg))
        args = (cfg["hi"], cfg["wi"], cfg["ho"], cfg["wo"])
        res.state = f"{cfg['net']['P']}x{cfg['net']['A']}:{args}:{cfg['gi']}:{cfg['go']}:{cfg['imode']}"
        return res

    def shrink_cfg(self, cfg):
        L = cfg["leads"]
        if len(L) > 1:
            for i in range(len(L)):
                yield dict(cfg, leads=L[:i] + L[i + 1 :])
        for i, lead in enumerate(L):
            if len(lead) > 1:
                yield dict(cfg, leads=L[:i] + [lead[1:]] + L[i + 1 :])
            elif lead[0] > max(cfg["net"]["P"], cfg["net"]["A"]):
                yield dict(cfg, leads=L[:i] + [[lead[0] - 1]] + L[i + 1 :])
        for k, v in (("layout", "plain"), ("mix", False), ("imode", "bilinear"), ("dtype", "f64"), ("mode", "nograd"), ("gi", "equiangular"), ("go", "equiangular")):
            if cfg[k] != v:
                yield dict(cfg, **{k: v})
        P, A = cfg["net"]["P"], cfg["net"]["A"]
        for k, m in (("hi", max(3, P)), ("ho", max(3, P)), ("wi", max(2, A)), ("wo", max(2, A))):
            if cfg[k] > m:
                yield dict(cfg, **{k: cfg[k] - 1})


CHECK = C03()
