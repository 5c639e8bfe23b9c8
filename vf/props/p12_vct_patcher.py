"""P12: patching extracts exactly the padded windows in raster order, and unpatching inverts it."""
import hypothesis.strategies as st

from ..core import Info, Prop, close, ensure, equal, raises, rnd, viewed
from ..gen import DT, big, ints, pick, seeds

PROP = Prop(
    "P12",
    "cases = batch, channels, height, width, stride, patch size >= stride (even difference), padding mode; oracle = an "
    "index-level reference; non-trivial = overlapping patches or a size not divisible by the stride",
)


@st.composite
def cases(draw):
    stride = draw(big(1, 6, 8, 9, 10, 12))
    half = draw(ints(0, 4))
    lo = half + stride  # padding fits for reflection
    return dict(
        b=draw(big(1, 3, 4, 8)), c=draw(big(1, 4, 5, 16, 33)), h=draw(big(lo, lo + 12, lo + 30, 64)), w=draw(big(lo, lo + 12, lo + 29, 64)), stride=stride,
        half=half, mode=draw(pick("reflect", "reflect", "replicate", "constant", "circular")), seed=draw(seeds),
    )


def src(i, n, mode):
    """index into an axis of length n for position i (which may lie outside), or None for the constant fill"""
    if 0 <= i < n:
        return i
    if mode == "reflect":
        return -i if i < 0 else 2 * (n - 1) - i
    if mode == "replicate":
        return 0 if i < 0 else n - 1
    if mode == "circular":
        return i % n
    return None


@PROP.sub("patch", cases, quick=500, thorough=8000)
def patch(c):
    import torch
    from projects.torch_vct.neural.patcher import Patcher

    s, p = c["stride"], c["stride"] + 2 * c["half"]
    x = viewed(rnd((c["b"], c["c"], c["h"], c["w"]), c["seed"], "normal", DT("float64" if c["seed"] % 4 == 1 else "float32")), c["seed"])
    keep = x.clone()
    out = Patcher(s, c["mode"])(x, p) if c["mode"] != "reflect" else Patcher(s)(x, p)
    equal(x, keep, "input modified")
    t, (nh, nw) = out
    ensure((nh, nw) == (-(-c["h"] // s), -(-c["w"] // s)), f"{(nh, nw)} windows")
    ensure(tuple(out.num_patches) == (nh, nw), "num_patches")
    ensure(tuple(t.shape) == (c["b"] * nh * nw, p * p, c["c"]), f"patched shape {tuple(t.shape)}")
    exp = torch.zeros_like(t)
    ys = [[src(i * s - c["half"] + u, c["h"], c["mode"]) for u in range(p)] for i in range(nh)]
    xs = [[src(j * s - c["half"] + v, c["w"], c["mode"]) for v in range(p)] for j in range(nw)]
    for i in range(nh):
        for j in range(nw):
            iy = torch.tensor([q if q is not None else 0 for q in ys[i]])
            ix = torch.tensor([q if q is not None else 0 for q in xs[j]])
            blk = x[:, :, iy][:, :, :, ix].clone()
            blk[:, :, [k for k, q in enumerate(ys[i]) if q is None]] = 0
            blk[:, :, :, [k for k, q in enumerate(xs[j]) if q is None]] = 0
            for b in range(c["b"]):
                exp[(b * nh + i) * nw + j] = blk[b].reshape(c["c"], p * p).T
    tol = 1e-13 if x.dtype == torch.float64 else 1e-6
    close(t, exp, 10 * tol, tol, "window content")
    ensure(t.dtype == x.dtype, "dtype changed")
    if c["seed"] % 3 == 0:  # patching is linear: its gradient is the adjoint
        z = x.double().detach().clone().requires_grad_()
        tt = Patcher(s, c["mode"])(z, p).tensor
        wt = rnd(tt.shape, c["seed"] + 1, "normal", DT("float64"))
        ensure(tt.requires_grad, "patching passes no gradient")
        (g,) = torch.autograd.grad((tt * wt).sum(), z)
        a, b = float((tt.detach() * wt).sum()), float((z.detach() * g).sum())
        ensure(abs(a - b) <= 1e-8 * (1 + float((tt.detach() * wt).abs().sum())), f"gradient of patching: {b} against {a}")
    return Info(c["half"] > 0 or c["h"] % s or c["w"] % s, c["mode"], "overlap" if c["half"] else "tiling")


@PROP.sub("unpatch", cases, quick=500, thorough=8000)
def unpatch(c):
    import torch
    from projects.torch_vct.neural.patcher import Patched, Patcher

    s = c["stride"]
    x = viewed(rnd((c["b"], c["c"], c["h"], c["w"]), c["seed"], "normal", DT("float64" if c["seed"] % 4 == 1 else "float32")), c["seed"])
    m = Patcher(s)
    pt = m(x, s)
    y = m.unpatch(pt, crop=(c["h"], c["w"]), channels_last=True)
    equal(y, x, "unpatch does not invert patch")
    y = m.unpatch((pt.tensor, pt.num_patches), crop=(c["h"], c["w"]), channels_last=True)
    equal(y, x, "unpatch of a plain tuple does not invert patch")
    y = m.unpatch(Patched(pt.tensor.permute(0, 2, 1).contiguous(), pt.num_patches), crop=(c["h"], c["w"]))
    equal(y, x, "unpatch of channels-first patches does not invert patch")
    full = m.unpatch(pt, channels_last=True)
    nh, nw = pt.num_patches
    ensure(tuple(full.shape) == (c["b"], c["c"], nh * s, nw * s), "uncropped size")
    equal(full[..., : c["h"], : c["w"]], x, "uncropped content")
    # patching is a bijection on the full grid
    again = m(full, s)
    equal(again.tensor, pt.tensor, "patching the unpatched tensor")
    if c["half"]:
        big = m(x, s + 2 * c["half"])
        raises((AssertionError, ValueError, RuntimeError), lambda: m.unpatch(big, channels_last=True), "overlapping patches were unpatched")
    return Info(c["h"] % s or c["w"] % s, "crop" if (c["h"] % s or c["w"] % s) else "exact")


@PROP.sub("reject", cases, quick=80, thorough=500)
def reject(c):
    from projects.torch_vct.neural.patcher import Patcher

    x = rnd((c["b"], c["c"], c["h"], c["w"]), c["seed"], "normal")
    m = Patcher(c["stride"])
    raises(ValueError, lambda: m(x, c["stride"] + 2 * c["half"] + 1), "odd patch - stride difference accepted")
    if c["stride"] > 2:
        raises(ValueError, lambda: m(x, c["stride"] - 2), "patch below stride accepted")
    raises((AssertionError, ValueError), lambda: m(x[0], c["stride"]), "3-D input accepted")
    return Info(True)
