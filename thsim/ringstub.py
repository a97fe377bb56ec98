"""CPU stand-ins for the ring-step attention kernels (the repository only ships them for CUDA).

Written from the operator documentation in attention_interface.cpp: physical NHWC tensors, fp32 accumulators, an online
softmax that is folded over the longitude chunks in whatever order they arrive.
"""

import torch

_lib = None


def _visited(row, row_off, nlat_out, n_long, longest, mid):
    """The entries the launch visits: the listed rows, up to the row length announced for the long and for the short ones."""
    if row.dtype != torch.int32 or row_off.dtype != torch.int64:
        raise RuntimeError("ring kernel: row order must be int32 and row offsets int64")
    n = row_off[1:] - row_off[:-1]
    limit = torch.zeros(max(n.numel(), 1), dtype=torch.int64)
    listed = row[:nlat_out].long()
    limit[listed[n_long:]] = mid
    limit[listed[:n_long]] = longest
    ho = torch.repeat_interleave(torch.arange(n.numel()), n)
    return ho, torch.arange(ho.numel()) - row_off[ho] + row_off[0] < limit[ho]


def _gather_pairs(col_idx, row_off, row, split, nlon_in, pscale, lon_lo, lat0, nlat_out, nlon_out, H, W):
    """(ho, wo, hk, wk, hi) of every neighbour pair whose input cell lies in the current chunk."""
    ho, seen = _visited(row, row_off, nlat_out, *split)
    ho, col_idx = ho[seen], col_idx[seen]
    hi = col_idx // nlon_in
    wi = col_idx % nlon_in
    wo = torch.arange(nlon_out)
    wk = (wi[:, None] + pscale * wo[None, :]) % nlon_in - lon_lo
    hk = (hi - lat0)[:, None].expand_as(wk)
    ok = (wk >= 0) & (wk < W) & (hk >= 0) & (hk < H)
    e = lambda t: t[:, None].expand_as(wk)[ok]
    return e(ho), wo[None, :].expand_as(wk)[ok], hk[ok], wk[ok], e(hi)


def _scatter_pairs(col_idx, row_off, nlon_out_global, pscale_out, lon_lo, lat0, nlat_out, nlon_out, H, W):
    n = row_off[1:] - row_off[:-1]
    hk = torch.repeat_interleave(torch.arange(n.numel()), n)
    ho = col_idx // nlon_out_global
    ws = col_idx % nlon_out_global
    wk = torch.arange(W)
    wo = (ws[:, None] + pscale_out * (lon_lo + wk)[None, :]) % nlon_out_global
    ok = wo < nlon_out
    e = lambda t: t[:, None].expand_as(wo)[ok]
    return e(ho), wo[ok], e(hk), wk[None, :].expand_as(wo)[ok], e(hk) + lat0


def _flat(ho, wo, nlon_out):
    return ho * nlon_out + wo


def _idx(o, B):
    return o[None, :].expand(B, -1)


def _online(pairs, kx, vx, qy, alpha_sum, qmax, quad, sums):
    """Fold a chunk into (alpha_sum, qmax) and the given accumulators [(buffer, per-pair values)]."""
    ho, wo, hk, wk, hi = pairs
    B, Ho, Wo = alpha_sum.shape
    if ho.numel() == 0:
        return
    o = _flat(ho, wo, Wo)
    q = qy.float()[:, ho, wo]
    k = kx.float()[:, hk, wk]
    v = vx.float()[:, hk, wk]
    s = (q * k).sum(-1)
    old = qmax.view(B, -1)
    new = old.scatter_reduce(1, _idx(o, B), s, "amax", include_self=True)
    corr = torch.where(torch.isinf(old) & (old < 0), torch.zeros_like(old), torch.exp(old - new))
    alpha = torch.exp(s - new.gather(1, _idx(o, B))) * quad.float()[hi][None]
    asum = alpha_sum.view(B, -1)
    asum.mul_(corr).scatter_add_(1, _idx(o, B), alpha)
    for buf, fn in sums:
        val = fn(alpha, k, v)
        b = buf.view(B, Ho * Wo, -1)
        b.mul_(corr[..., None]).scatter_add_(1, _idx(o, B)[..., None].expand(-1, -1, b.shape[-1]), val.reshape(B, o.numel(), -1))
    old.copy_(new)


def _fixed(pairs, kx, vx, qy, qmax, quad):
    ho, wo, hk, wk, hi = pairs
    B, Ho, Wo = qmax.shape
    q = qy.float()[:, ho, wo]
    k = kx.float()[:, hk, wk]
    v = vx.float()[:, hk, wk]
    alpha = torch.exp((q * k).sum(-1) - qmax[:, ho, wo]) * quad.float()[hi][None]
    return q, k, v, alpha


def _pass2(pairs, kx, vx, qy, dy, asum, qmax, integ, dkx, dvx, quad):
    ho, wo, hk, wk, hi = pairs
    if ho.numel() == 0:
        return
    B, H, W, _ = dkx.shape
    q, k, v, alpha = _fixed(pairs, kx, vx, qy, qmax, quad)
    d = dy.float()[:, ho, wo]
    a = alpha / asum[:, ho, wo]
    g = (d * v).sum(-1)
    i = _flat(hk, wk, W)
    for buf, val in ((dvx, a[..., None] * d), (dkx, (a * (g - integ[:, ho, wo]))[..., None] * q)):
        b = buf.view(B, H * W, -1)
        b.scatter_add_(1, _idx(i, B)[..., None].expand(-1, -1, b.shape[-1]), val)


def _chk(*ts):
    for t in ts:
        if not t.is_contiguous():
            raise RuntimeError("ring kernel: tensor must be contiguous")
        if t.dim() != 4:
            raise RuntimeError("ring kernel: tensor must be 4D NHWC")


def fwd(kx, vx, qy, y, asum, qmax, quad, col, off, row, nlon_in, pscale, lon_lo, lat0, nlat_out, nlon_out, a, b, c):
    _chk(kx, vx, qy, y)
    p = _gather_pairs(col, off, row, (a, b, c), nlon_in, pscale, lon_lo, lat0, nlat_out, nlon_out, kx.shape[1], kx.shape[2])
    _online(p, kx, vx, qy, asum, qmax, quad, [(y, lambda al, k, v: al[..., None] * v)])


def bwd1(kx, vx, qy, dy, asum, qmax, integ, ak, akvw, quad, col, off, row, nlon_in, pscale, lon_lo, lat0, nlat_out, nlon_out, a, b, c):
    _chk(kx, vx, qy, dy)
    p = _gather_pairs(col, off, row, (a, b, c), nlon_in, pscale, lon_lo, lat0, nlat_out, nlon_out, kx.shape[1], kx.shape[2])
    if p[0].numel() == 0:
        return
    d = dy.float()[:, p[0], p[1]]
    g = lambda v: (d * v).sum(-1)
    _online(
        p, kx, vx, qy, asum, qmax, quad,
        [(integ, lambda al, k, v: al * g(v)), (ak, lambda al, k, v: al[..., None] * k), (akvw, lambda al, k, v: (al * g(v))[..., None] * k)],
    )


def bwd2(kx, vx, qy, dy, asum, qmax, integ, dkx, dvx, quad, col, off, row, nlon_in, pscale, lon_lo, lat0, nlat_out, nlon_out, a, b, c):
    _chk(kx, vx, qy, dy, dkx, dvx)
    p = _gather_pairs(col, off, row, (a, b, c), nlon_in, pscale, lon_lo, lat0, nlat_out, nlon_out, kx.shape[1], kx.shape[2])
    _pass2(p, kx, vx, qy, dy, asum, qmax, integ, dkx, dvx, quad)


def fwd_up(kx, vx, qy, y, asum, qmax, quad, col, off, nlon_in, nlon_out_global, pscale_out, lon_lo, lat0, nlat_out, nlon_out):
    _chk(kx, vx, qy, y)
    p = _scatter_pairs(col, off, nlon_out_global, pscale_out, lon_lo, lat0, nlat_out, nlon_out, kx.shape[1], kx.shape[2])
    _online(p, kx, vx, qy, asum, qmax, quad, [(y, lambda al, k, v: al[..., None] * v)])


def bwd1_up(kx, vx, qy, dy, qmax, integ, ak, akvw, quad, col, off, nlon_in, nlon_out_global, pscale_out, lon_lo, lat0, nlat_out, nlon_out):
    _chk(kx, vx, qy, dy)
    p = _scatter_pairs(col, off, nlon_out_global, pscale_out, lon_lo, lat0, nlat_out, nlon_out, kx.shape[1], kx.shape[2])
    ho, wo = p[0], p[1]
    if ho.numel() == 0:
        return
    B, Ho, Wo = qmax.shape
    q, k, v, al = _fixed(p, kx, vx, qy, qmax, quad)
    g = (dy.float()[:, ho, wo] * v).sum(-1)
    o = _flat(ho, wo, Wo)
    for buf, val in ((integ, al * g), (ak, al[..., None] * k), (akvw, (al * g)[..., None] * k)):
        b = buf.view(B, Ho * Wo, -1)
        b.scatter_add_(1, _idx(o, B)[..., None].expand(-1, -1, b.shape[-1]), val.reshape(B, o.numel(), -1))


def bwd2_up(kx, vx, qy, dy, asum, qmax, integ, dkx, dvx, quad, col, off, nlon_in, nlon_out_global, pscale_out, lon_lo, lat0, nlat_out, nlon_out):
    _chk(kx, vx, qy, dy, dkx, dvx)
    p = _scatter_pairs(col, off, nlon_out_global, pscale_out, lon_lo, lat0, nlat_out, nlon_out, kx.shape[1], kx.shape[2])
    _pass2(p, kx, vx, qy, dy, asum, qmax, integ, dkx, dvx, quad)


def split_rows(row_idx, row_off, nlat_out):
    """As the CPU side of the CUDA library, with a shorter minimum so that small grids have long rows, too."""
    if nlat_out <= 0:
        return 0, 0, 0
    n = (row_off[1:] - row_off[:-1])[row_idx.long()].tolist()
    least = max(4, int(n[0] * 0.8))
    k = 0
    while k < nlat_out and n[k] >= least:
        k += 1
    return k, n[0] if k else 0, n[k] if k < nlat_out else 0


def install():
    global _lib
    if _lib is not None:
        return
    import torch_harmonics  # noqa: F401  (defines the operators)

    _lib = torch.library.Library("attention_kernels", "IMPL")
    for name, fn in (
        ("split_csr_rows", split_rows), ("forward_ring_step", fwd), ("backward_ring_step_pass1", bwd1), ("backward_ring_step_pass2", bwd2),
        ("forward_ring_step_upsample", fwd_up), ("backward_ring_step_upsample_pass1", bwd1_up), ("backward_ring_step_upsample_pass2", bwd2_up),
    ):
        _lib.impl(name, fn, "CPU")
