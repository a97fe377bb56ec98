"""C02: distributed DISCO convolutions equal the serial ones."""

import contextlib
import math
from unittest import mock

import torch

import torch_harmonics as th
from props.common import DT, LAYOUTS, LOSSES, MODES, DistCheck, Initial, Spec, bare, extras, rough, run_spec, seed_of
from thsim import dworld

GRIDS = ["equiangular", "legendre-gauss", "lobatto", "equiangular-trapezoidal"]
BASES = [
    ("piecewise linear", (1,)), ("piecewise linear", (2,)), ("piecewise linear", (3,)), ("piecewise linear", (2, 2)), ("piecewise linear", (3, 3)),
    ("harmonic", (2, 2)), ("harmonic", (2, 3)), ("morlet", (2, 2)), ("zernike", (2,)), ("zernike", (3,)), ("fourier-bessel", (2,)),
]
NORMS = ["nodal", "mean", "modal", "support", "geometric", "none"]


@contextlib.contextmanager
def as_if_cuda(on):
    """Construct the path that is reserved for CUDA with the CPU kernels standing in for the CUDA ones."""
    if not on:
        yield
        return
    with mock.patch.object(torch.cuda, "is_available", lambda: True):
        yield


class C02(DistCheck):
    id = "C02"
    quick_runs, quick_wall = 6000, 50
    thorough_runs, thorough_wall = 400000, 1500

    def sample(self, rng, net=None):
        net = net or dworld.sample_net(rng, max_ranks=9 if rng.random() < 0.1 else 6)
        P, A = net["P"], net["A"]
        kind = rng.choice(["conv", "conv", "fused", "transpose", "transpose"])
        basis, ks = rng.choice(BASES)
        large = rng.random() < 0.04
        h1, h2 = (rng.randint(max(3, P), max(3, P) + rng.choice([2, 4, 8] if not large else [16, 24])) for _ in range(2))
        if rng.random() < 0.5:
            h2 = h1
        base = rng.randint(max(A, 2), max(A, 2) + rng.choice([2, 4, 8] if rng.random() < 0.97 else [40]))
        mul = rng.choice([1, 1, 2, 3])
        big, small = [max(h1, h2) if rng.random() < 0.7 else min(h1, h2), base * mul], [min(h1, h2), base]
        ish, osh = (small, big) if kind == "transpose" else (big, small)
        opt = kind == "fused" or rng.random() < 0.7
        if not opt:  # the serial reference implementation wants at least as many longitudes as latitudes
            while base < max(ish[0], osh[0]):
                base += 1
            small[1], big[1] = base, base * mul
        groups = rng.choice([1, 1, 2, 3])
        # the standard paths exchange longitudes against channels, so they need at least one channel per azimuth rank
        cin, cout = (groups * rng.randint(1, 9 if large else 3 if rng.random() < 0.97 else 40) for _ in range(2))
        if kind == "transpose":
            while cout < A:
                cout += groups
        else:
            while cin < A:
                cin += groups
        hmin = min(ish[0], osh[0])
        cutoff = rng.choice([None, None, rng.uniform(0.3, 0.9), rng.uniform(1.0, 3.5) * math.pi / (hmin - 1), 0.3 * math.pi / hmin])
        return dict(
            net=net, kind=kind, basis=basis, ks=list(ks), norm=rng.choice(NORMS[:3]) if rng.random() < 0.7 else rng.choice(NORMS), ish=ish, osh=osh, groups=groups, cin=cin, cout=cout,
            gi=rng.choice(GRIDS), go=rng.choice(GRIDS), bias=rng.random() < 0.6, cutoff=cutoff, opt=opt,
            batches=[rng.randint(1, 2) if rng.random() < 0.9 else rng.choice([0, 3, 4, 5, 6, 17]) for _ in range(rng.choice([1, 1, 2, 3]) if rng.random() < 0.97 else 6)], dtype=rng.choices(["f64", "f32", "bf16"], [3, 1, 0.3])[0], **extras(rng), mode=rng.choice(MODES), loss=rng.choice(LOSSES),
            layout=rng.choice(LAYOUTS), xgrad=rng.random() < 0.85,
        )

    def spec(self, cfg, rs):
        dt = DT[cfg["dtype"]]
        g = torch.Generator().manual_seed(seed_of("in", rs))
        fused = cfg["kind"] == "fused"
        inputs = [
            [[dict(t=torch.randn(b, cfg["cin"], *cfg["ish"], dtype=dt, generator=g), dims=(-2, -1), grad=cfg["xgrad"], layout=cfg["layout"])] for b in cfg["batches"]]
            for _ in range(cfg["net"]["D"])
        ]
        args = (cfg["cin"], cfg["cout"], tuple(cfg["ish"]), tuple(cfg["osh"]), tuple(cfg["ks"]))
        kw = dict(basis_type=cfg["basis"], basis_norm_mode=cfg["norm"], groups=cfg["groups"], grid_in=cfg["gi"], grid_out=cfg["go"], bias=cfg["bias"], theta_cutoff=cfg["cutoff"], optimized_kernel=cfg["opt"])
        name = "DiscreteContinuousConvTransposeS2" if cfg["kind"] == "transpose" else "DiscreteContinuousConvS2"
        kw = bare(getattr(th, name), kw, rs)
        dkw = dict(kw, fused=True) if fused else kw
        W = {}
        initial = Initial(rs)

        def load(m):
            for n, p in m.named_parameters():
                if n not in W:
                    W[n] = torch.randn(p.shape, dtype=p.dtype, generator=g)
            m.load_state_dict(W, strict=False)
            return m.to(dt)

        def make_ref():
            return load(initial(lambda: getattr(th, name)(*args, **kw)))

        def make_dist(ctx):
            with as_if_cuda(fused):
                m = initial(lambda: getattr(ctx.thd, "Distributed" + name)(*args, **dkw), ctx)
            return load(m)

        params = {"weight": ("pa", None, None)}
        if cfg["bias"]:
            params["bias"] = ("pa", None, None)
        spec = Spec(make_dist, make_ref, inputs, (-2, -1), params=params)
        spec.initial = initial
        return spec

    def run(self, cfg, rs, schedule=None):
        spec = self.spec(cfg, rs)
        spec.initial.on = True
        res = run_spec(self, cfg, rs, schedule, spec, **(rough(cfg) or dict(floor=0.1)))
        res.state = f"{cfg['net']['P']}x{cfg['net']['A']}:{cfg['kind']}:{cfg['ish']}:{cfg['osh']}:{cfg['basis']}:{cfg['ks']}:{cfg['groups']}:{cfg['opt']}"
        return res

    def shrink_cfg(self, cfg):
        B = cfg["batches"]
        if len(B) > 1:
            for i in range(len(B)):
                yield dict(cfg, batches=B[:i] + B[i + 1 :])
        if B[0] > 1:
            yield dict(cfg, batches=[B[0] - 1] + B[1:])
        for k, v in (
            ("layout", "plain"), ("dtype", "f64"), ("mode", "nograd"), ("bias", False), ("gi", "equiangular"), ("go", "equiangular"), ("norm", "mean"), ("xgrad", True), ("cutoff", None),
        ):
            if cfg[k] != v:
                yield dict(cfg, **{k: v})
        if cfg["kind"] != "fused" and cfg["opt"]:
            yield dict(cfg, opt=False)
        if cfg["basis"] != "piecewise linear" or cfg["ks"] != [1]:
            yield dict(cfg, basis="piecewise linear", ks=[1])
        A = cfg["net"]["A"]
        if cfg["groups"] > 1:
            yield dict(cfg, groups=1)
        else:
            if cfg["cin"] > (1 if cfg["kind"] == "transpose" else A):
                yield dict(cfg, cin=cfg["cin"] - 1)
            if cfg["cout"] > (A if cfg["kind"] == "transpose" else 1):
                yield dict(cfg, cout=cfg["cout"] - 1)
        if cfg["ish"] != cfg["osh"]:
            m = [min(cfg["ish"][0], cfg["osh"][0]), min(cfg["ish"][1], cfg["osh"][1])]
            yield dict(cfg, ish=m, osh=list(m))


CHECK = C02()
