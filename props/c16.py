"""C16: the models, losses, metrics and solvers that ship with the library are re-entrant and independent of call history."""

import re

import torch

from props import c13
from props.c12 import rnd
from thsim.search import load_known


class Method(torch.nn.Module):
    """Several entry points of one object, one of them chosen by each call."""

    def __init__(self, obj, fs):
        super().__init__()
        self.obj, self.fs = obj, fs

    def forward(self, which, *a):
        return FUNCS[self.fs[int(which) % len(self.fs)]](self.obj, *a)


FUNCS = {
    "step1": lambda s, u, g, v: s.timestep(u, 1),
    "step3": lambda s, u, g, v: s.timestep(u, 3),
    "dudt": lambda s, u, g, v: s.dudtspec(u),
    "pv": lambda s, u, g, v: s.potential_vorticity(u),
    "huv": lambda s, u, g, v: s.gethuv(u),
    "int": lambda s, u, g, v: s.integrate_grid(g),
    "int1": lambda s, u, g, v: s.integrate_grid(g, dimensionless=True, polar_opt=1),
    "vrtdiv": lambda s, u, g, v: s.vrtdivspec(v),
    "galewsky": lambda s, u, g, v: s.galewsky_initial_condition() + 0.0 * u.sum(),
    "allen": lambda s, u: s.dudtspec(u, pde="allen-cahn"),
    "ginzburg": lambda s, u: s.dudtspec(u, pde="ginzburg-landau"),
}


class Sample(torch.nn.Module):
    """Samples of the shallow water data set; the noise is given by the seed."""

    def __init__(self, ds):
        super().__init__()
        self.ds, self.solver = ds, ds.solver

    def forward(self, seed):
        state = torch.get_rng_state()
        torch.manual_seed(int(seed))
        try:
            inp, tar = self.ds[0]
        finally:
            torch.set_rng_state(state)
        return torch.cat([inp, tar])


def grids(rng):
    return dict(g1=rng.choice(["equiangular", "legendre-gauss"]), g2=rng.choice(["equiangular", "legendre-gauss"]), h=rng.choice([8, 9, 12]), f64=False)


def new_model(rng, c):
    d = grids(rng)
    d.update(w=2 * d["h"] if d["h"] != 9 else 24, norm=rng.choice(["none", "layer_norm", "instance_norm"]), pos=rng.choice(["none", "sequence", "spectral", "learnable lat", "learnable latlon"]), res=rng.random() < 0.5, up=rng.random() < 0.5, bias=rng.random() < 0.5, mlp=rng.random() < 0.7, att=rng.choice(["neighborhood", "global"]), conv=rng.choice(["bilinear", "conv"]), sf=rng.choice([1, 2]), basis=rng.choice(["morlet", "zernike", "piecewise linear"]))
    return d


def model(c):
    from torch_harmonics.examples import models as M

    ks = {"morlet": (2, 2), "zernike": (3,), "piecewise linear": (2, 3)}[c["basis"]]
    kw = dict(img_size=(c["h"], c["w"]), grid=c["g1"], grid_internal=c["g2"], in_chans=2, out_chans=2)
    flat = dict(kw, scale_factor=c["sf"], embed_dim=4, num_layers=2, normalization_layer=c["norm"], residual_prediction=c["res"], bias=c["bias"], use_mlp=c["mlp"])
    deep = dict(kw, embed_dims=[4, 4], depths=[1, 1], kernel_shape=ks, filter_basis_type=c["basis"])
    k = c["k"]
    if k == "sfno":
        m = M.SphericalFourierNeuralOperator(pos_embed=c["pos"], **flat)
    elif k == "lsno":
        m = M.LocalSphericalNeuralOperator(pos_embed=c["pos"], kernel_shape=ks, encoder_kernel_shape=ks, filter_basis_type=c["basis"], upsample_sht=c["up"], **flat)
    elif k == "s2trf":
        m = M.SphericalTransformer(pos_embed=c["pos"], encoder_kernel_shape=ks, filter_basis_type=c["basis"], upsample_sht=c["up"], attention_mode=c["att"], **flat)
    elif k == "s2seg":
        m = M.SphericalSegformer(heads=[1, 2], attention_mode=c["att"], upsampling_method=c["conv"], **deep)
    else:
        m = M.SphericalUNet(upsampling_mode=c["conv"], downsampling_mode=c["conv"], transform_skip=c["res"], **deep)
    return m.eval()


def image(c, m, call, dt):
    return [rnd(call["b"], 2, c["h"], c["w"], seed=call["seed"]).to(dt)]


LOSSES = ["DiceLossS2", "CrossEntropyLossS2", "FocalLossS2", "SquaredL2LossS2", "L1LossS2", "L2LossS2", "W11LossS2", "NormalLossS2", "IntersectionOverUnionS2", "AccuracyS2"]


def new_loss(rng, c):
    return dict(cls=rng.choice(LOSSES[-2:] if c["k"] == "metric" else LOSSES[:-2]), mode=rng.choice(["micro", "macro"]), wt=rng.random() < 0.5, smooth=rng.choice([0, 0.1]), f64=False)


def labelled(c):
    return c["cls"] in ("DiceLossS2", "CrossEntropyLossS2", "FocalLossS2", "IntersectionOverUnionS2", "AccuracyS2")


def loss(c):
    from torch_harmonics.examples import losses, metrics

    f = getattr(losses, c["cls"], None) or getattr(metrics, c["cls"])
    kw = {}
    if labelled(c):
        if c["wt"]:
            kw["weight"] = torch.tensor([0.2, 0.3, 0.5])
        if c["cls"] not in ("CrossEntropyLossS2", "FocalLossS2"):
            kw["mode"] = c["mode"]
        if c["cls"].endswith("LossS2"):
            kw["smooth"] = c["smooth"]
    return f(c["h"], c["w"], grid=c["g1"], **kw)


def pair(c, m, call, dt):
    b, s = call["b"], call["seed"]
    if labelled(c):
        tar = (rnd(b, c["h"], c["w"], seed=s + 1).abs() * 1.5).long().clamp(max=2)
        if call["lead"]:
            tar[..., 0] = -100
        return [rnd(b, 3, c["h"], c["w"], seed=s).to(dt), tar]
    x = [rnd(b, c["h"], c["w"], seed=s).to(dt), rnd(b, c["h"], c["w"], seed=s + 1).to(dt)]
    if call["lead"]:
        x.append((rnd(b, c["h"], c["w"], seed=s + 2) > 0).to(dt))
    return x


def swe(c):
    from torch_harmonics.examples import ShallowWaterSolver

    s = ShallowWaterSolver(c["h"], c["w"], 1e-3, grid=c["g1"], radius=1.0, omega=1.0, gravity=1.0, havg=10.0, hamp=1.0)
    return Method(s if c["dbl"] else s.float(), ["step1", "step3", "dudt", "pv", "huv", "int", "int1", "vrtdiv", "galewsky"])


def pde(c):
    from torch_harmonics.examples import SphereSolver

    return Method(SphereSolver(c["h"], c["w"], 1e-3, grid=c["g1"]).float(), ["allen", "ginzburg"])


def state(c, m, call, dt):
    s, o = call["seed"], m.obj
    which = torch.tensor(call["b"] * 2 + call["lead"] + len(call["layout"]))
    if call.get("bad"):
        which = which.reshape(1)
    u = rnd(3, o.lmax, o.mmax, seed=s, cplx=True).to(torch.complex64)
    if c["k"] == "pde":
        u = u[0]
    else:
        u[0, 0, 0] += 40.0
    return [which, u, rnd(3, c["h"], c["w"], seed=s + 1), rnd(2, c["h"], c["w"], seed=s + 2)][: 4 if c["k"] == "swe" else 2]


def dataset(c):
    from torch_harmonics.examples import PdeDataset

    rng = torch.get_rng_state()
    torch.manual_seed(5)
    try:
        return Sample(PdeDataset(600.0, 2, dims=(8, 16), grid=c["g1"], initial_condition=c["ic"], normalize=c["nrm"]))
    finally:
        torch.set_rng_state(rng)


for _k in ("sfno", "lsno", "s2trf", "s2seg", "unet"):
    c13.EXTRA[_k] = (new_model, model, image)
c13.EXTRA["loss"] = c13.EXTRA["metric"] = (new_loss, loss, pair)
c13.EXTRA["swe"] = (lambda rng, c: dict(h=8, w=16, g1=rng.choice(c13.GRIDS), f64=False, dbl=rng.random() < 0.4), swe, state)
c13.EXTRA["pde"] = (lambda rng, c: dict(h=8, w=16, g1=rng.choice(c13.GRIDS), f64=False), pde, state)
c13.EXTRA["sample"] = (lambda rng, c: dict(ic=rng.choice(["random", "random", "galewsky"]), nrm=rng.random() < 0.6, g1=rng.choice(c13.GRIDS), f64=False), dataset, lambda c, m, call, dt: [torch.tensor(call["seed"])])


class C16(c13.C13):
    id = "C16"
    kinds = ["sfno", "lsno", "s2trf", "s2seg", "unet", "loss", "loss", "loss", "metric", "swe", "swe", "pde", "sample"]
    tag = "16"
    alone = ("sample",)
    components = {"real code": ["torch_harmonics.examples: models, losses, metrics, shallow water and reaction-diffusion solvers, the shallow water data set; the serial modules and CPU kernels under them", "PyTorch CPU operators and autograd, real threads"], "stub": ["thread scheduling (one baton, switches at executed lines of repository code)", "locks created by repository code"]}
    assumptions = c13.C13.assumptions + ["models are in evaluation mode (in training mode dropout and batch statistics depend on history by design)"]

    def prepare(self):
        super().prepare()
        import torch_harmonics.examples.losses
        import torch_harmonics.examples.metrics
        import torch_harmonics.examples.models  # noqa: F401

    def known(self, cfg, v):
        """Saved states that cannot be loaded because a buffer of the module is an expanded view."""
        if v.kind != "not-copyable" or "restart failed with RuntimeError" not in v.msg or "more than one element of the written-to tensor" not in v.msg:
            return None
        names = set(re.findall(r'While copying the parameter named "([^"]*)"', v.msg))
        for e in load_known(self.id):
            if f"'{e['field']}': '{e['value']}'" in v.msg and names and names <= set(e["buffers"]):
                return e["finding"]
        return None


CHECK = C16()
