"""C13: serial modules are re-entrant and independent of call history and failures."""

import copy
import io
import json
import os
import random
import zlib

import torch
import torch.utils.checkpoint

from props.c12 import det_params, det_values, equal, finish, rnd
from props.common import noncontig
from thsim import search, threads
from thsim.core import HarnessError, Violation
from thsim.faults import FailingOps, InjectedOOM
from thsim.search import Check, Result
from thsim.threads import Threads, isolated

EXTRA = {}  # kind -> (new(rng), build(c), inputs(c, m, call, dtype)): kinds of modules other checks add
GRIDS = ["equiangular", "legendre-gauss", "lobatto"]


def new_module(rng, k):
    h = rng.randint(4, 8)
    w = rng.choice([2 * h, 2 * h, rng.choice([6, 8, 9, 12])])
    g1, g2 = rng.choice(GRIDS), rng.choice(GRIDS)
    c = dict(k=k, h=h, w=w, g1=g1, g2=g2, f64=rng.random() < 0.3)
    if k in EXTRA:
        c.update(EXTRA[k][0](rng, c))
        return c
    if k in ("sht", "isht", "vsht", "ivsht"):
        c.update(norm=rng.choice(["ortho", "four-pi", "schmidt"]), cs=rng.random() < 0.5)
    elif k in ("disco", "discot"):
        b = rng.choice(["piecewise linear", "harmonic", "zernike"])
        c.update(b=b, ks={"piecewise linear": [2, 3], "harmonic": [2, 2], "zernike": [3]}[b], opt=rng.random() < 0.6, bias=rng.random() < 0.5, groups=rng.choice([1, 2]), fused=rng.random() < 0.3, h2=rng.choice([h, max(3, h - 2)]), half=rng.random() < 0.4 and w % 2 == 0, cut=rng.choice([None, 0.9]), f64=c["f64"])
        if k == "discot":
            c["fused"] = False
    elif k == "resample":
        c.update(h2=rng.randint(3, 10), w2=rng.randint(4, 12), mode=rng.choice(["bilinear", "bilinear-spherical"]))
    elif k == "quad":
        c.update(nrm=rng.random() < 0.5)
    elif k == "spectral":
        c.update(bias=rng.random() < 0.5, groups=rng.choice([1, 2]), w=2 * h, f64=False)
    elif k in ("att", "natt"):
        c.update(heads=rng.choice([1, 2]), bias=rng.random() < 0.5, qkn=rng.random() < 0.5, opt=rng.random() < 0.7, dir=rng.choice(["self", "self", "down", "up"] if k == "natt" else ["self", "down"]), w=8 if h < 6 else 12, f64=False)
        if k == "natt" and not c["opt"]:  # the reference kernels are loops of tensor operations
            c.update(h=4, w=6)
    elif k == "grf":
        c.update(w=2 * h)
    elif k in ("rfft", "irfft"):
        c.update(n=rng.choice([None, w // 2, w // 2 + 1, w // 2 + 3, w]), dim=rng.choice([-1, -1, -2]), norm=rng.choice(["ortho", "forward", "backward"]), f64=False)
    return c


class Fourier(torch.nn.Module):
    """The library's Fourier transforms are functions; a module around them takes part like the others."""

    def __init__(self, c):
        super().__init__()
        self.c = c

    def forward(self, x):
        from torch_harmonics import fft

        c = self.c
        if c["k"] == "rfft":
            return fft.rfft(x, nmodes=c["n"], dim=c["dim"], norm=c["norm"])
        return fft.irfft(x, n=c["n"], dim=c["dim"], norm=c["norm"])


def build(c, ver=0):
    import torch_harmonics as th
    from torch_harmonics.random_fields import GaussianRandomFieldS2

    k, h, w = c["k"], c["h"], c["w"]
    if k in EXTRA:
        m = EXTRA[k][1](c)
    elif k in ("sht", "vsht"):
        m = (th.RealSHT if k == "sht" else th.RealVectorSHT)(h, w, grid=c["g1"], norm=c["norm"], csphase=c["cs"])
    elif k in ("isht", "ivsht"):
        m = (th.InverseRealSHT if k == "isht" else th.InverseRealVectorSHT)(h, w, grid=c["g1"], norm=c["norm"], csphase=c["cs"])
    elif k in ("disco", "discot"):
        big, small = (max(h, c["h2"]), w), (min(h, c["h2"]), w // 2 if c["half"] else w)
        kw = dict(kernel_shape=tuple(c["ks"]), basis_type=c["b"], groups=c["groups"], grid_in=c["g1"], grid_out=c["g2"], bias=c["bias"], theta_cutoff=c["cut"], optimized_kernel=c["opt"])
        if k == "disco":
            m = th.DiscreteContinuousConvS2(2, 4, big, small, fused=c["fused"], **kw)
        else:
            m = th.DiscreteContinuousConvTransposeS2(2, 4, small, big, **kw)
    elif k == "resample":
        m = th.ResampleS2(h, w, c["h2"], c["w2"], grid_in=c["g1"], grid_out=c["g2"], mode=c["mode"])
    elif k == "quad":
        m = th.QuadratureS2((h, w), grid=c["g1"], normalize=c["nrm"])
    elif k == "spectral":
        m = th.SpectralConvS2((h, w), (h, w), 2, 4, num_groups=c["groups"], grid_in=c["g1"], grid_out=c["g2"], bias=c["bias"])
    elif k in ("att", "natt"):
        a, b = (h, w), (h, w)
        if c["dir"] == "down":
            b = (max(3, h - 2), w // 2)
        elif c["dir"] == "up":
            a = (max(3, h - 2), w // 2)
        kw = dict(grid_in=c["g1"], grid_out=c["g2"], num_heads=c["heads"], bias=c["bias"], use_qknorm=c["qkn"])
        if k == "att":
            m = th.AttentionS2(2, in_shape=a, out_shape=b, **kw)
        else:
            m = th.NeighborhoodAttentionS2(2, a, b, optimized_kernel=c["opt"], **kw)
        m.sim_shapes = (a, b)
    elif k in ("rfft", "irfft"):
        m = Fourier(c)
    else:
        m = GaussianRandomFieldS2(h, grid=c["g1"])
    det_params(m, ver)
    if c["f64"] and k != "grf":
        m = m.to(torch.float64)
    return m


def inputs_of(c, m, call):
    """The arguments of a call; None when this kind of call is not made on such a module."""
    import torch_harmonics as th

    k, h, w, b = c["k"], c["h"], c["w"], call["b"]
    s = call["seed"]
    dt = torch.float64 if c["f64"] and call["dt"] != "f32" else torch.float32
    if call["dt"] == "bf16":
        dt = torch.bfloat16
    if call["dt"] == "f64":
        dt = torch.float64
    cd = torch.complex128 if dt == torch.float64 else torch.complex64
    if k in EXTRA:
        x = EXTRA[k][2](c, m, call, dt)
    elif k in ("sht", "vsht", "quad"):
        lead = (b,) if call["lead"] == 0 else (b, 3)
        if k == "vsht":
            lead += (2,)
        elif k == "quad":
            lead = (b, 3)
        x = [rnd(*lead, h, w, seed=s).to(dt)]
    elif k in ("isht", "ivsht", "grf"):
        mm = m.isht if k == "grf" else m
        lead = (b,) if call["lead"] == 0 and k != "grf" else (b, 3)
        if k == "grf":
            lead = (b,)
            cd = torch.complex64
        if k == "ivsht":
            lead += (2,)
        x = [rnd(*lead, mm.lmax, mm.mmax, seed=s, cplx=True).to(cd)]
    elif k in ("disco", "discot"):
        big, small = (max(h, c["h2"]), w), (min(h, c["h2"]), w // 2 if c["half"] else w)
        x = [rnd(b, 2, *(big if k == "disco" else small), seed=s).to(dt)]
    elif k == "irfft":
        x = [rnd(b, 2, h // 2 + 2, w // 2 + 1, seed=s, cplx=True).to(cd)]
    elif k in ("resample", "spectral", "rfft"):
        x = [rnd(b, 2, h, w, seed=s).to(dt)]
    else:
        a, o = m.sim_shapes
        q, kk, v = rnd(b, 2, *o, seed=s), rnd(b, 2, *a, seed=s + 1), rnd(b, 2, *a, seed=s + 2)
        x = [t.to(dt) for t in ((q,) if a == o and call["lead"] == 0 else (q, kk, v))]
        if call.get("alias") and len(x) == 3:  # one tensor as key and value
            x = [x[0], x[1], x[1]]
    if call.get("bad"):
        x = [t[..., :-1] if t.dim() else t for t in x]
    if call["layout"] != "plain":
        y = [noncontig(t, call["layout"]) if t.dim() > 1 else t for t in x]
        x = [y[next(j for j, u in enumerate(x) if u is t)] for t in x]
    return x


def refill(pool, key, xs):
    """The tensors the caller used for an earlier call like this one, with the new values in them."""
    old = pool.get(key)
    if old is None:
        pool[key] = xs
        return xs
    with torch.no_grad():
        for a, b in zip(old, xs):
            a.copy_(b)
    return old


def new_call(rng):
    return dict(
        b=rng.choice([1, 1, 2, 3]) if rng.random() < 0.95 else rng.choice([7, 17, 40]), seed=rng.randrange(1000), lead=rng.randrange(2), dt=rng.choices(["mod", "f32", "f64", "bf16"], [7, 1, 1, 1])[0], grad=rng.choice(["none", "infer", "all", "all", "all", "in", "ckpt", "twice"]),
        amp=rng.random() < 0.1, layout=rng.choice(["plain", "plain", "plain", "perm", "stride", "offset", "cl", "conj"]), alias=rng.random() < 0.1, bad=rng.random() < 0.06, copy=rng.choices([None, "deep", "pickle", "restart"], [86, 6, 4, 4])[0],
        draw=rng.random() < 0.4, ver=0,
    )


def update(m, ver, how):
    """Give the module the parameters of another version, in one of the ways training loops and checkpoints do."""
    new = det_values(m, ver)
    if how == "load":
        m.load_state_dict(new, strict=False)
        return
    with torch.no_grad():
        for n, p in m.named_parameters():
            v = new[n].to(p.dtype)
            if how == "copy":
                p.copy_(v)
            elif how == "add":
                p.add_(v - p)
                p.copy_(v)
            elif how == "data":
                p.data = v
            else:  # a new parameter object
                mod = m
                *path, last = n.split(".")
                for a in path:
                    mod = getattr(mod, a)
                setattr(mod, last, torch.nn.Parameter(v, requires_grad=p.requires_grad))


def duplicate(c, m, call, who):
    """A copy of the module, or what a restart makes of its saved state."""
    how = call["copy"]
    try:
        if how == "deep":
            new = copy.deepcopy(m)
        elif how == "pickle":
            f = io.BytesIO()
            torch.save(m, f)
            f.seek(0)
            new = torch.load(f, weights_only=False)
        else:
            f = io.BytesIO()
            torch.save(m.state_dict(), f)
            f.seek(0)
            new = build(c, call["ver"] + 7)
            new.load_state_dict(torch.load(f, weights_only=False))
    except Exception as e:  # noqa: BLE001
        raise Violation("not-copyable", f"{who}: {how} failed with {type(e).__name__}: {e}") from e
    shared = {t.untyped_storage().data_ptr() for t in m.parameters() if t.numel()} & {t.untyped_storage().data_ptr() for t in new.parameters() if t.numel()}
    if shared:
        raise Violation("not-copyable", f"{who}: a {how} copy shares parameter storage with the module")
    return new


def start(c, m, call, pool=None, key=None):
    """The forward part of a call. Returns (the rest of it, which gives the values; inputs; originals of inputs)."""
    xs = inputs_of(c, m, call)
    if pool is not None:
        xs = refill(pool, key, xs)
    orig = [x.detach().clone() for x in xs]
    g = call["grad"]
    need = g in ("all", "in", "ckpt", "twice")
    leaves = []
    for x in xs:
        if x.is_floating_point() or x.is_complex():
            x.requires_grad_(need)
    if need:
        leaves = [x for x in xs if x.requires_grad]
    if g in ("all", "ckpt", "twice"):
        leaves += [p for _, p in m.named_parameters()]

    def f(*a):
        if c["k"] == "grf":
            if call.get("draw"):
                torch.manual_seed(call["seed"])
                return m(a[0].shape[0]) + 0.0 * a[0].real.sum()
            return m(a[0].shape[0], a[0])
        return m(*a)

    with torch.inference_mode() if g == "infer" else torch.set_grad_enabled(need):
        with torch.autocast("cpu", dtype=torch.bfloat16, enabled=call["amp"]):
            y = torch.utils.checkpoint.checkpoint(f, *xs, use_reentrant=False, preserve_rng_state=False) if g == "ckpt" else f(*xs)
    first = y.detach().clone()

    def rest():
        vals = [y, first]
        if need and y.requires_grad:
            cot = rnd(*(y.shape or (1,)), seed=call["seed"] + 5, cplx=y.is_complex()).to(y.dtype).reshape(y.shape)
            for n in (1, 0) if g == "twice" else (0,):
                gs = torch.autograd.grad(y, leaves, cot if n == 0 else 2.0 * cot, allow_unused=True, retain_graph=n > 0)
                vals += [torch.zeros(()) if t is None else t for t in gs]
        return vals

    return rest, xs, orig


def do_call(c, m, call):
    """Returns (values, inputs, originals of inputs)."""
    rest, xs, orig = start(c, m, call)
    return rest(), xs, orig


_universe = []
KINDS = ["sht", "isht", "vsht", "ivsht", "disco", "discot", "resample", "quad", "spectral", "att", "natt", "grf", "rfft", "irfft"]
KINDS += ["disco", "disco", "discot", "natt", "natt", "resample", "resample"]


def universe(kinds, tag="13"):
    if not _universe:
        rng = random.Random(f"universe{tag}:" + os.environ.get("VERIF_SEED", "1"))
        big = os.environ.get("VERIF_TIER") == "thorough"
        for i in range((20 if big else 4) * len(kinds)):
            c = new_module(rng, kinds[i % len(kinds)])
            groups = []
            for _ in range(4):
                a = new_call(rng)
                b = dict(a, seed=rng.randrange(1000))  # the same call with other values
                d = dict(b, grad=rng.choice(["none", "infer", "all", "in"]))  # in another gradient mode
                groups.append([a, b, dict(a, ver=1), dict(b, ver=rng.choice([1, 2])), d, dict(d, ver=1)])  # or with other parameters
            _universe.append((c, groups))
    return _universe


def reference(c, call):
    def one():
        try:
            m = build(c, call["ver"])
            with torch.autograd.set_multithreading_enabled(False):
                vals, _, _ = do_call(c, m, call)
            vals = [v.detach().clone() for v in vals]
        except Exception as e:  # noqa: BLE001
            return (("raised", f"{type(e).__name__}: {e}"[:200]), [])
        # a dispatch mode can change what autocast does, so operations are counted in a second call
        cnt = FailingOps(-1)
        try:
            with torch.autograd.set_multithreading_enabled(False), cnt:
                do_call(c, m, call)
        except Exception:  # noqa: BLE001
            cnt.n = 0
        return ((vals, cnt.n), [])

    r = isolated(one)
    if r[0] != "ok":
        raise HarnessError(f"reference computation failed: {r}")
    return r[1]


class C13(Check):
    id = "C13"
    kinds, tag, alone = KINDS, "13", ()
    quick_runs, quick_wall = 4000, 75
    thorough_runs, thorough_wall = 150000, 1200
    time_unit = "scheduling points (executed lines of repository code)"
    rule = "a run is a set of calls by one to four threads on shared module objects; non-trivial when a module object is called more than once; distinct when the hash of calls and thread switches differs"
    components = {"real code": ["all serial modules of torch_harmonics, their CPU kernels and autograd functions", "PyTorch CPU operators and autograd, real threads"], "stub": ["thread scheduling (one baton, switches at executed lines of repository code)", "locks created by repository code"]}
    assumptions = ["a thread switch can happen between any two executed lines of repository Python code", "operators of PyTorch and compiled kernels are themselves atomic with respect to the switches"]

    def __init__(self):
        self.memo = None

    def prepare(self):
        threads.install_locks()
        threads.preload()
        self.memo = threads.SharedMemo()

    def sample(self, rng):
        u = universe(self.kinds, self.tag)
        pick = [rng.choice(u) for _ in range(rng.choice([1, 1, 2, 3]))]
        if len(pick) > 1 and rng.random() < 0.3:
            pick[1] = pick[0]  # two objects of the same kind
        n = rng.choice([1, 1, 1, 2, 2, 3, 4])
        if any(p[0]["k"] in self.alone for p in pick):  # draws from the random number generator, which all threads share
            n = 1
        duel = n > 1 and rng.random() < 0.5  # threads with calls of different shapes and types on one object
        twin = n > 1 and not duel and rng.random() < 0.6  # threads with the same call on one object, with two sets of values
        if duel or twin:
            pick = pick[:1]
        if twin:
            group = rng.choice(pick[0][1])
            base = dict(rng.choice(group), ver=0, draw=False)
            if rng.random() < 0.5:
                base["grad"] = "none"
            pair = [dict(base, seed=c["seed"], copy=None) for c in group[:2]]
            return dict(mods=[pick[0][0]], threads=[[dict(m=0, call=rng.choice(pair) if j else pair[t % 2], how="copy") for j in range(rng.randint(1, 4))] for t in range(n)], style=rng.choice(["uniform", "fine", "pct"]))
        focus = [rng.choice(p[1]) if not duel and rng.random() < 0.6 else None for p in pick]
        ths = []
        reuse = rng.random() < 0.4
        for _ in range(n):
            calls = []
            for _ in range(rng.randint(1, 5 if n > 1 else 12)):
                i = rng.randrange(len(pick))
                group = focus[i] if focus[i] and rng.random() < 0.85 else rng.choice(pick[i][1])
                d = dict(m=i, call=rng.choice(group), how=rng.choice(["copy", "add", "load", "data", "object"]))
                d["call"] = dict(d["call"], copy=rng.choices([None, "deep", "pickle", "restart"], [86, 5, 4, 5])[0])
                if n > 1 and d["call"]["ver"]:  # parameters are not replaced under running calls
                    d["call"] = dict(d["call"], ver=0)
                if d["call"]["draw"] and n > 1:  # the random number generator is shared by all threads
                    d["call"] = dict(d["call"], draw=False)
                if n == 1:
                    d["pool"] = reuse
                if rng.random() < 0.25:  # the backward part comes after that many further calls of the thread
                    d["late"] = rng.choice([1, 1, 2, 3])
                if not duel and rng.random() < 0.2:
                    d["fail"] = [rng.random(), rng.random() < 0.3]
                calls.append(d)
            ths.append(calls)
        return dict(mods=[p[0] for p in pick], threads=ths, style=rng.choice(["uniform", "fine", "coarse", "pct"]))

    def reference(self, c, call):
        call = dict(call, copy=None)
        return self.memo.get(json.dumps([c, call], sort_keys=True), lambda: reference(c, call))

    def run(self, cfg, rs, schedule=None):
        refs = [[self.reference(cfg["mods"][d["m"]], d["call"]) for d in t] for t in cfg["threads"]]

        def child():
            w = None
            try:
                mods = [build(c) for c in cfg["mods"]]
                snap = [state_of(m) for m in mods]
                held = []
                st = dict(fail=0, refused=0, update=0, late=0, copy=0)
                vers = [0] * len(mods)
                ambient = ambient_state()
                rngstate = torch.get_rng_state()

                pool = {}

                def make(ti, calls):
                    def judge(who, d, ref, vals, xs, orig):
                        loose = d["call"]["amp"] or d["call"]["dt"] == "bf16"
                        if len(vals) != len(ref[0]):
                            raise Violation("history-dependent", f"{who}: gave {len(vals)} values, an isolated call {len(ref[0])}")
                        for j, (a, b) in enumerate(zip(vals, ref[0])):
                            if not close(a.detach(), b, loose):
                                raise Violation("history-dependent", f"{who}: {name(j)} differs from that of an isolated call by {diff(a.detach(), b)}")
                        for j, (a, b) in enumerate(zip(xs, orig)):
                            if not torch.equal(torch.nan_to_num(a.detach()), torch.nan_to_num(b)):
                                raise Violation("input-modified", f"{who} modified argument {j}")
                        here = thread_state()
                        if here != THREAD_STATE:
                            raise Violation("ambient-state", f"{who} left grad mode / inference mode / autocast as {here}")
                        if d.get("pool"):  # these inputs are written again by the caller
                            mine = {x.untyped_storage().data_ptr() for x in xs}
                            vals, xs, orig = [v for v in vals if v.untyped_storage().data_ptr() not in mine], [], []
                        held.append((who, vals, [v.detach().clone() for v in vals], xs, orig))

                    def fn(t):
                        pending = []

                        def flush(keep):
                            for p in [p for p in pending if not keep(p)]:
                                pending.remove(p)
                                _, _, who, d, ref, rest, xs, orig = p
                                try:
                                    vals = rest()
                                except (HarnessError, Violation):
                                    raise
                                except Exception as e:  # noqa: BLE001
                                    raise Violation("history-dependent", f"{who}: backward raised {type(e).__name__}: {e}; in an isolated call it returns") from e
                                judge(who, d, ref, vals, xs, orig)

                        for n, d in enumerate(calls):
                            flush(lambda p: n < p[0])
                            c = cfg["mods"][d["m"]]
                            ref = refs[ti][n]
                            raised = ref[0] == "raised"
                            if vers[d["m"]] != d["call"]["ver"]:
                                i = d["m"]
                                flush(lambda p: p[1] != i)
                                update(mods[i], d["call"]["ver"], d["how"])
                                vers[i] = d["call"]["ver"]
                                st["update"] += 1
                                snap[i] = state_of(mods[i])
                            mode = None
                            if "fail" in d and not raised and ref[1] > 0:
                                mode = FailingOps(int(d["fail"][0] * ref[1]), d["fail"][1])
                            who = f"thread {ti}, call {n} on module {d['m']} {c} {d['call']}"
                            args = ()
                            if d.get("pool"):
                                flush(lambda p: p[1] != d["m"])
                                args = (pool, json.dumps([d["m"], {k: v for k, v in d["call"].items() if k not in ("seed", "ver")}], sort_keys=True))
                            mod = mods[d["m"]]
                            if d["call"]["copy"]:
                                mod = duplicate(c, mod, d["call"], who)
                                st["copy"] += 1
                            late = mode is None and not raised and d.get("late", 0)
                            try:
                                if mode is None:
                                    rest, xs, orig = start(c, mod, d["call"], *args)
                                    vals = None if late else rest()
                                else:
                                    with mode:
                                        start(c, mod, d["call"], *args)[0]()
                            except InjectedOOM:
                                st["fail"] += 1
                                continue
                            except (HarnessError, Violation):
                                raise
                            except Exception as e:  # noqa: BLE001
                                if mode is not None and mode.fired:
                                    st["fail"] += 1
                                    continue
                                if raised:
                                    st["refused"] += 1
                                    continue
                                raise Violation("history-dependent", f"{who} raised {type(e).__name__}: {e}; an isolated call returns") from e
                            if mode is not None:  # the fault did not fire: nothing to compare under a dispatch mode
                                continue
                            if raised:
                                raise Violation("history-dependent", f"{who} returned, an isolated call raises {ref[1]}")
                            if late:
                                st["late"] += 1
                                pending.append((n + 1 + late, d["m"], who, d, ref, rest, xs, orig))
                            else:
                                judge(who, d, ref, vals, xs, orig)
                        flush(lambda p: False)

                    return fn

                w = Threads([make(i, t) for i, t in enumerate(cfg["threads"])], random.Random("run:" + rs), style=cfg["style"], schedule=schedule)
                w.run()
                for who, vals, cp, xs, orig in held:
                    for j, (a, b) in enumerate(zip(vals, cp)):
                        if not torch.equal(torch.nan_to_num(a.detach()), torch.nan_to_num(b)):
                            raise Violation("result-changed", f"{who}: a returned value (of shape {tuple(a.shape)}) changed after it was returned")
                    for j, (a, b) in enumerate(zip(xs, orig)):
                        if not torch.equal(torch.nan_to_num(a.detach()), torch.nan_to_num(b)):
                            raise Violation("input-modified", f"{who}: argument {j} was modified after the call")
                if ambient_state() != ambient:
                    raise Violation("ambient-state", f"default dtype/device, thread count or determinism settings changed from {ambient} to {ambient_state()}")
                drew = any(d["call"]["copy"] == "restart" or (d["call"].get("draw") and cfg["mods"][d["m"]]["k"] == "grf") for t in cfg["threads"] for d in t)
                if not drew and not torch.equal(rngstate, torch.get_rng_state()):
                    raise Violation("ambient-state", "calls that need no random numbers advanced the global random number generator")
                for i, (m, (sd, bufs)) in enumerate(zip(mods, snap)):
                    now = m.state_dict(keep_vars=True)
                    if now.keys() != sd.keys():
                        raise Violation("state-changed", f"module {i} {cfg['mods'][i]}: state entries changed: {sorted(now.keys() ^ sd.keys())}")
                    for what, cur, old in (("parameter or saved buffer", now, sd), ("buffer", dict(m.named_buffers()), bufs)):
                        for n, t in old.items():
                            if n in cur and (cur[n].shape != t.shape or cur[n].dtype != t.dtype or not torch.equal(torch.nan_to_num(cur[n].detach()), torch.nan_to_num(t))):
                                raise Violation("state-changed", f"module {i} {cfg['mods'][i]}: {what} {n} was changed by calls")
                    for n, p in m.named_parameters():
                        if p.grad is not None:
                            raise Violation("state-changed", f"module {i} {cfg['mods'][i]}: parameter {n} got a gradient nobody asked for")
                faults = {}
                if st["fail"]:
                    faults["failing-operation"] = st["fail"]
                if st["update"]:
                    faults["parameter-update"] = st["update"]
                if st["late"]:
                    faults["late-backward"] = st["late"]
                if st["copy"]:
                    faults["copy-or-restart"] = st["copy"]
                if st["refused"]:
                    faults["refused-call"] = st["refused"]
                if w.switches > len(w.ts):
                    faults["thread-switches"] = w.switches
                dg = zlib.crc32(json.dumps([cfg["mods"], cfg["threads"]], sort_keys=True).encode() + "\n".join(w.trace).encode())
                ncalls = sum(map(len, cfg["threads"]))
                return (Result(steps=w.total, digest=f"{dg:08x}", faults=faults, ops={"calls": ncalls}, nontrivial=ncalls > len(mods), state=json.dumps(sorted(c["k"] for c in cfg["mods"])) + str(len(cfg["threads"])) + str(ncalls), probes=[c["k"] for c in cfg["mods"]] + [f"threads-{len(w.ts)}"]), w.trace)
            except Exception as e:  # noqa: BLE001
                v = search._classify(e)
                if v is None:
                    raise
                v.trace = w.trace if w is not None else []
                raise v from None

        return finish(self, isolated(child))

    def shrink(self, cfg):
        T = cfg["threads"]
        for i in range(len(T)):
            if len(T) > 1:
                yield dict(cfg, threads=T[:i] + T[i + 1 :])
        for i in range(len(T)):
            for j in range(len(T[i])):
                if len(T[i]) > 1:
                    yield dict(cfg, threads=T[:i] + [T[i][:j] + T[i][j + 1 :]] + T[i + 1 :])
            for j, d in enumerate(T[i]):
                if "fail" in d:
                    e = {k: v for k, v in d.items() if k != "fail"}
                    yield dict(cfg, threads=T[:i] + [T[i][:j] + [e] + T[i][j + 1 :]] + T[i + 1 :])
                for k in ("late", "pool"):
                    if d.get(k):
                        e = {kk: v for kk, v in d.items() if kk != k}
                        yield dict(cfg, threads=T[:i] + [T[i][:j] + [e] + T[i][j + 1 :]] + T[i + 1 :])
                for k, v in (("layout", "plain"), ("amp", False), ("copy", None), ("alias", False), ("b", 1)):
                    if d["call"][k] != v:
                        e = dict(d, call=dict(d["call"], **{k: v}))
                        yield dict(cfg, threads=T[:i] + [T[i][:j] + [e] + T[i][j + 1 :]] + T[i + 1 :])


def name(j):
    return "output" if j == 0 else "output as first returned" if j == 1 else f"gradient {j - 2}"


def state_of(m):
    return {n: t.detach().clone() for n, t in m.state_dict(keep_vars=True).items()}, {n: t.detach().clone() for n, t in m.named_buffers()}


THREAD_STATE = (True, False, False)


def thread_state():
    return torch.is_grad_enabled(), torch.is_inference_mode_enabled(), torch.is_autocast_enabled("cpu")


def ambient_state():
    return (str(torch.get_default_dtype()), torch.get_num_threads(), torch.are_deterministic_algorithms_enabled(), str(torch.get_default_device()), torch.is_anomaly_enabled())


def close(a, b, loose=False):
    """loose: 16-bit intermediates, whose last bit depends on how the operators' buffers happen to be aligned."""
    if a.shape != b.shape or a.dtype != b.dtype:
        return False
    if loose and a.is_complex():
        a, b = torch.view_as_real(a.resolve_conj()), torch.view_as_real(b.resolve_conj())
    if a.dtype in (torch.bfloat16, torch.float16) or (loose and a.dtype in (torch.float32, torch.float64)):
        a, b = a.float(), b.float()
        if a.numel() == 0:
            return True
        return torch.equal(torch.isnan(a), torch.isnan(b)) and (torch.nan_to_num(a) - torch.nan_to_num(b)).abs().max().item() <= 0.05 * max(torch.nan_to_num(b).abs().max().item(), 1e-3)
    return equal(a, b)


def diff(a, b):
    if a.shape != b.shape or a.dtype != b.dtype:
        return f"{tuple(a.shape)} {a.dtype} instead of {tuple(b.shape)} {b.dtype}"
    return f"{(torch.nan_to_num(a) - torch.nan_to_num(b)).abs().max().item():.3e}"


CHECK = C13()
