"""C01: distributed scalar and vector spherical harmonic transforms equal the serial ones."""

import torch

import torch_harmonics as th
from props.common import DT, LAYOUTS, LOSSES, MODES, DistCheck, Spec, bare, dtype_of, extras, run_spec, seed_of
from thsim import dworld


class C01(DistCheck):
    id = "C01"
    quick_runs, quick_wall = 6000, 45
    thorough_runs, thorough_wall = 400000, 1500

    def sample(self, rng, net=None):
        net = net or dworld.sample_net(rng, max_ranks=9 if rng.random() < 0.15 else 6)
        P, A = net["P"], net["A"]
        kind = rng.choice(["sht", "isht", "vsht", "ivsht"])
        lo = max(P, A, 2)
        large = rng.random() < 0.04
        while True:
            nlat = rng.randint(max(3, lo), max(3, lo) + rng.choice([3, 6, 12] if not large else [20, 60]))
            nlon = rng.choice([nlat, 2 * nlat, 2 * (nlat - 1), rng.randint(max(3, A, lo), 24), 2 * rng.randint(max(2, lo // 2 + 1), 14)])
            grid = rng.choice(["equiangular", "legendre-gauss", "lobatto"])
            more = rng.choice([0, 0, 0, 0, 4])  # more degrees and orders than the grid resolves
            lmax = rng.choice([None, None, rng.randint(1, nlat + more)])
            mmax = rng.choice([None, None, rng.randint(1, nlon // 2 + 1 + more)])
            L, M = th.truncate_sht(nlat, nlon, lmax, mmax, grid)
            if L >= P and M >= A and nlon >= A and nlat >= P and L >= 1:
                break
        nd = rng.choice([1, 1, 2, 2, 3])
        nsteps = rng.choice([1, 1, 2, 3]) if rng.random() < 0.97 else 6
        leads = []
        for _ in range(nsteps):
            big = rng.random() < 0.3
            leads.append([rng.randint(1, (12 if large else 5) if big and j == 0 else 3) for j in range(nd if rng.random() < 0.7 else rng.choice([1, 2]))])
        if not large and rng.random() < 0.03:  # many channels
            leads[rng.randrange(nsteps)][0] = rng.choice([17, 33, 65, rng.randint(20, 300)])
        if rng.random() < 0.02:  # no channel at all
            leads[rng.randrange(nsteps)][0] = 0
        return dict(
            net=net, kind=kind, nlat=nlat, nlon=nlon, lmax=lmax, mmax=mmax, grid=grid, norm=rng.choice(["ortho", "schmidt", "unnorm"]), csphase=rng.random() < 0.5,
            leads=leads, dtype=rng.choices(["f64", "f32"], [3, 1])[0], mix=rng.random() < 0.12, **extras(rng, amp=0), mode=rng.choice(MODES), loss=rng.choice(LOSSES), layout=rng.choice(LAYOUTS), cast=rng.random() < 0.7,
        )

    def spec(self, cfg, rs):
        kind = cfg["kind"]
        dt = DT[cfg["dtype"]]
        args = (cfg["nlat"], cfg["nlon"])
        kw = {k: cfg[k] for k in ("lmax", "mmax", "grid", "norm", "csphase")}
        serial = dict(sht=th.RealSHT, isht=th.InverseRealSHT, vsht=th.RealVectorSHT, ivsht=th.InverseRealVectorSHT)[kind]
        dist = dict(sht="DistributedRealSHT", isht="DistributedInverseRealSHT", vsht="DistributedRealVectorSHT", ivsht="DistributedInverseRealVectorSHT")[kind]
        L, M = th.truncate_sht(*args, kw["lmax"], kw["mmax"], kw["grid"])

        def cast(m):
            return m.to(dt) if cfg["cast"] else m

        g = torch.Generator().manual_seed(seed_of("in", rs))
        inputs = []
        for _ in range(cfg["net"]["D"]):
            steps = []
            for s, lead in enumerate(cfg["leads"]):
                sdt = dtype_of(cfg, s)
                vec = [2] if kind.startswith("v") or kind == "ivsht" else []
                if kind in ("sht", "vsht"):
                    t = torch.randn(*lead, *vec, *args, dtype=sdt, generator=g)
                else:
                    t = torch.randn(*lead, *vec, L, M, dtype=torch.complex128 if sdt == torch.float64 else torch.complex64, generator=g)
                steps.append([dict(t=t, dims=(-2, -1), grad=True, layout=cfg["layout"])])
            inputs.append(steps)
        kw = bare(serial, kw, rs)
        return Spec(lambda ctx: cast(getattr(ctx.thd, dist)(*args, **kw)), lambda: cast(serial(*args, **kw)), inputs, (-2, -1))

    def run(self, cfg, rs, schedule=None):
        res = run_spec(self, cfg, rs, schedule, self.spec(cfg, rs))
        L, M = th.truncate_sht(cfg["nlat"], cfg["nlon"], cfg["lmax"], cfg["mmax"], cfg["grid"])
        res.state = f"{cfg['net']['P']}x{cfg['net']['A']}:{cfg['kind']}:{cfg['nlat']}x{cfg['nlon']}:{L}:{cfg['grid']}"
        P, A = cfg["net"]["P"], cfg["net"]["A"]
        if M % A or L % P or cfg["nlat"] % P or cfg["nlon"] % A:
            res.probes.append("uneven-split")
        if any(torch.Size(lead).numel() < max(P, A) for lead in cfg["leads"]):
            res.probes.append("leading-dim-padded")
        return res

    def shrink_cfg(self, cfg):
        if len(cfg["leads"]) > 1:
            for i in range(len(cfg["leads"])):
                yield dict(cfg, leads=cfg["leads"][:i] + cfg["leads"][i + 1 :])
        for i, lead in enumerate(cfg["leads"]):
            if len(lead) > 1:
                yield dict(cfg, leads=cfg["leads"][:i] + [lead[1:]] + cfg["leads"][i + 1 :])
            elif lead[0] > 1:
                yield dict(cfg, leads=cfg["leads"][:i] + [[lead[0] - 1]] + cfg["leads"][i + 1 :])
        for k, v in (("layout", "plain"), ("lmax", None), ("mmax", None), ("csphase", True), ("norm", "ortho"), ("grid", "equiangular"), ("dtype", "f64"), ("mode", "nograd"), ("cast", True), ("mix", False)):
            if cfg[k] != v:
                yield self._ok(dict(cfg, **{k: v}))
        if cfg["nlat"] > 3:
            yield self._ok(dict(cfg, nlat=cfg["nlat"] - 1))
        if cfg["nlon"] > 3:
            yield self._ok(dict(cfg, nlon=cfg["nlon"] - 1))

    def _ok(self, cfg):
        L, M = th.truncate_sht(cfg["nlat"], cfg["nlon"], cfg["lmax"], cfg["mmax"], cfg["grid"])
        P, A = cfg["net"]["P"], cfg["net"]["A"]
        if L < max(1, P) or M < max(1, A) or cfg["nlat"] < P or cfg["nlon"] < A:
            return dict(cfg, nlat=cfg["nlat"] + 1, _skip=True)
        return cfg


CHECK = C01()
