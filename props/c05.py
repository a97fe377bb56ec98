"""C05: distributed neighborhood attention equals the serial one (rank-local ring kernels simulated)."""

import math

import torch

import torch_harmonics as th
from props.common import LAYOUTS, LOSSES, MODES, REAL_VS_STUB, DistCheck, Initial, Spec, bare, extras, run_spec, seed_of
from thsim import dworld, ringstub
from thsim.dworld import ref_slices, ref_split

GRIDS = ["equiangular", "legendre-gauss", "lobatto", "equiangular-trapezoidal"]
PNAMES = ["q_weights", "k_weights", "v_weights", "proj_weights", "q_bias", "k_bias", "v_bias", "proj_bias", "q_norm_weights", "k_norm_weights"]


def halo_rows(cfg, P):
    """How many rows beyond its own latitude shard a rank needs (independent of the code under test)."""
    if P == 1:
        return 0
    (hi_n, wi_n), (ho_n, wo_n) = cfg["ish"], cfg["osh"]
    cut = cfg["cutoff"]
    if cut is None:
        up = wo_n % wi_n == 0 and wi_n % wo_n != 0
        cut = math.pi / ((hi_n if up else ho_n) - 1)
    ti = th.quadrature.precompute_latitudes(hi_n, grid=cfg["gi"])[0].double()
    to = th.quadrature.precompute_latitudes(ho_n, grid=cfg["go"])[0].double()
    near = (to[:, None] - ti[None, :]).abs() <= cut * 1.005 + 1e-4
    need = 0
    for so, si in zip(ref_slices(ho_n, P), ref_slices(hi_n, P)):
        rows = near[so].any(0).nonzero().flatten()
        if rows.numel():
            need = max(need, si.start - int(rows.min()), int(rows.max()) - (si.stop - 1))
    return need


def servable(cfg):
    P, A = cfg["net"]["P"], cfg["net"]["A"]
    a, b = ref_split(cfg["ish"][1], A), ref_split(cfg["osh"][1], A)
    ratio_ok = all(x * cfg["osh"][1] == y * cfg["ish"][1] for x, y in zip(a, b))
    return ratio_ok and halo_rows(cfg, P) <= min(ref_split(cfg["ish"][0], P))


class C05(DistCheck):
    id = "C05"
    quick_runs, quick_wall = 6000, 50
    thorough_runs, thorough_wall = 400000, 1500
    components = {
        "real code": REAL_VS_STUB["real code"],
        "stub": REAL_VS_STUB["stub"] + ["ring-step attention kernels (CUDA only in the repository; executable model on CPU)"],
    }
    assumptions = DistCheck.assumptions + ["the CUDA ring kernels compute what their operator documentation says"]

    def prepare(self):
        ringstub.install()

    def sample(self, rng, net=None):
        net = net or dworld.sample_net(rng, max_ranks=8 if rng.random() < 0.15 else 6)
        P, A = net["P"], net["A"]
        kind = rng.choice(["self", "self", "down", "up"])
        rows = lambda: rng.randint(max(3, 2 * P if rng.random() < 0.8 else P), max(3, 2 * P) + rng.choice([2, 4, 8]))
        h1 = rows()
        h2 = h1 if kind == "self" and rng.random() < 0.8 else rows()
        base = rng.randint(max(A, 2), max(A, 2) + rng.choice([2, 4, 8] if rng.random() < 0.97 else [30]))
        if kind != "self" and rng.random() < 0.8:
            base = -(-base // A) * A  # an azimuth split the scheme supports
        mul = 1 if kind == "self" else rng.choice([2, 2, 3])
        ish, osh = [h1, base * mul], [h2, base]
        if kind == "up":
            ish, osh = osh, ish
        heads = rng.choice([1, 1, 2, 3])
        hmin = min(h1, h2)
        cutoff = rng.choice([None, None, rng.uniform(1.01, 2.5) * math.pi / (hmin - 1), rng.uniform(1.0, 1.5) * math.pi / (max(h1, h2) - 1)])
        if kind == "up" and rng.random() < 0.9:  # every output point needs a neighbour on the coarse grid
            cutoff = rng.uniform(1.01, 1.6) * max(math.pi / (hmin - 1), math.pi / base)
        return dict(
            net=net, kind=kind, ish=ish, osh=osh, heads=heads, cin=rng.choice([1, 2, 3, 4]) if rng.random() < 0.95 else 9, ck=heads * (rng.randint(1, 3) if rng.random() < 0.95 else rng.choice([4, 6, 8, 12, 17, 33])), cout=heads * (rng.randint(1, 3) if rng.random() < 0.95 else rng.choice([4, 6, 8, 12, 17, 33])), gi=rng.choice(GRIDS), go=rng.choice(GRIDS),
            bias=rng.random() < 0.6, qkn=rng.random() < 0.4, scale=rng.choice([None, None, 0.7, "tensor"]), cutoff=cutoff, batches=[rng.randint(1, 2) if rng.random() < 0.94 else rng.choice([3, 4, 5, 11]) for _ in range(rng.choice([1, 1, 2]) if rng.random() < 0.97 else 5)],
            **extras(rng), mode=rng.choice(MODES), loss=rng.choice(LOSSES), layout=rng.choice(LAYOUTS), grads=[rng.random() < 0.75 for _ in range(3)], frozen=rng.choice(["", "", "", "q", "k", "v", "kv", "qkv", "all"]),
            share=kind == "self" and h1 == h2 and rng.random() < 0.5,
        )

    def spec(self, cfg, rs):
        dt = torch.float32
        g = torch.Generator().manual_seed(seed_of("in", rs))
        grids = [cfg["osh"]] if cfg["share"] else [cfg["osh"], cfg["ish"], cfg["ish"]]
        inputs = [
            [
                [dict(t=torch.randn(b, cfg["cin"], *sh, dtype=dt, generator=g), dims=(-2, -1), grad=cfg["grads"][i], layout=cfg["layout"]) for i, sh in enumerate(grids)]
                for b in cfg["batches"]
            ]
            for _ in range(cfg["net"]["D"])
        ]
        args = (cfg["cin"], tuple(cfg["ish"]), tuple(cfg["osh"]))
        scale = torch.tensor(1.3) if cfg["scale"] == "tensor" else cfg["scale"]
        kw = dict(
            grid_in=cfg["gi"], grid_out=cfg["go"], num_heads=cfg["heads"], scale=scale, use_qknorm=cfg["qkn"], bias=cfg["bias"], theta_cutoff=cfg["cutoff"], k_channels=cfg["ck"], out_channels=cfg["cout"]
        )
        kw = bare(th.NeighborhoodAttentionS2, kw, rs)
        W = {}
        initial = Initial(rs)

        def load(m):
            for n, p in sorted(m.named_parameters()):
                if n not in W:
                    W[n] = torch.randn(p.shape, dtype=p.dtype, generator=g) * (0.3 if "norm" in n else 0.5)
            m.load_state_dict(W, strict=False)
            for n, p in m.named_parameters():
                if cfg["frozen"] == "all" or (cfg["frozen"] and n[0] in cfg["frozen"] and n[1] == "_"):
                    p.requires_grad_(False)
            return m

        spec = Spec(
            lambda ctx: load(initial(lambda: ctx.thd.DistributedNeighborhoodAttentionS2(*args, **kw), ctx)), lambda: load(initial(lambda: th.NeighborhoodAttentionS2(*args, **kw))), inputs, (-2, -1),
            params={n: ("pa", None, None) for n in PNAMES},
        )
        spec.refusable = not servable(cfg)
        spec.initial = initial
        return spec

    def run(self, cfg, rs, schedule=None):
        spec = self.spec(cfg, rs)
        spec.initial.on = True
        res = run_spec(self, cfg, rs, schedule, spec, tol=3e-3, floor=1.0)
        res.state = f"{cfg['net']['P']}x{cfg['net']['A']}:{cfg['ish']}:{cfg['osh']}:{cfg['heads']}:{cfg['qkn']}:{cfg['frozen']}"
        return res

    def shrink_cfg(self, cfg):
        B = cfg["batches"]
        if len(B) > 1:
            for i in range(len(B)):
                yield dict(cfg, batches=B[:i] + B[i + 1 :])
        if B[0] > 1:
            yield dict(cfg, batches=[B[0] - 1] + B[1:])
        for k, v in (("layout", "plain"), ("mode", "nograd"), ("bias", False), ("qkn", False), ("gi", "equiangular"), ("go", "equiangular"), ("frozen", ""), ("grads", [True] * 3), ("scale", None)):
            if cfg[k] != v:
                yield dict(cfg, **{k: v})
        if cfg["heads"] > 1:
            yield dict(cfg, heads=1, ck=1, cout=1)
        for k in ("cin", "ck", "cout"):
            if cfg[k] > cfg["heads"] and k != "cin":
                yield dict(cfg, **{k: cfg["heads"]})
        if cfg["cin"] > 1:
            yield dict(cfg, cin=1)


CHECK = C05()
