"""P07: dense image warping samples the image at (pixel grid + flow)."""
import hypothesis.strategies as st
import numpy as np

from ..core import Info, Prop, close, ensure, equal, raises, rnd, viewed
from ..gen import DT, big, fixed, fl, ints, pick, seeds

PROP = Prop(
    "P07",
    "cases = (image batch, flow field of its own size, interpolation mode, border mode, align flag, dtype); "
    "oracle = a per-pixel numpy resampler; non-trivial = a flow with non-zero displacement",
)


@st.composite
def cases(draw):
    small = draw(pick(False, False, True))
    h, w = (draw(ints(1, 3)), draw(ints(1, 3))) if small else (draw(big(1, 9, 16, 33, odds=16)), draw(big(1, 9, 17, 32, odds=16)))
    same = draw(st.booleans())
    return dict(
        b=draw(big(1, 3, 4, 5, 9)), c=draw(big(1, 4, 5, 8, 17)), h=h, w=w,
        fh=h if same else draw(ints(1, 9)), fw=w if same else draw(ints(1, 9)),
        mode=draw(pick("default", "bilinear", "nearest", "bicubic")),
        pad=draw(pick("default", "border", "zeros", "reflection")),
        align=draw(pick(None, True, False)),
        dtype=draw(pick("float64", "float64", "float32")),
        flow=draw(pick("zero", "const", "random", "random", "far", "row")),
        scale=draw(fl(0.0, 1.5)), seed=draw(seeds),
    )


def _reflect(x, lo2, hi2):
    if lo2 == hi2:
        return 0.0
    lo, span = lo2 / 2, (hi2 - lo2) / 2
    x = abs(x - lo)
    extra = x % span
    flips = int(np.floor(x / span))
    return extra + lo if flips % 2 == 0 else span - extra + lo


def _cubic(t, a=-0.75):
    def near(x):
        return ((a + 2) * x - (a + 3)) * x * x + 1

    def far(x):
        return ((a * x - 5 * a) * x + 8 * a) * x - 4 * a

    return far(t + 1), near(t), near(1 - t), far(2 - t)


def _coord(g, n, align, pad):
    x = (g + 1) / 2 * (n - 1) if align else ((g + 1) * n - 1) / 2
    return _border(x, n, align, pad)


def _border(x, n, align, pad):
    if pad == "border":
        x = min(max(x, 0.0), n - 1.0)
    elif pad == "reflection":
        x = _reflect(x, 0, 2 * (n - 1)) if align else _reflect(x, -1, 2 * n - 1)
        x = min(max(x, 0.0), n - 1.0)
    return x


def reference(img, flow, mode, pad, align):
    b, c, h, w = img.shape
    _, fh, fw, _ = flow.shape
    gy = np.linspace(-1, 1, fh) if fh > 1 else np.array([-1.0])
    gx = np.linspace(-1, 1, fw) if fw > 1 else np.array([-1.0])
    out = np.zeros((b, c, fh, fw))
    amb = np.zeros((b, fh, fw), bool)  # nearest-neighbour ties / edge decided by rounding

    def at(n, y, x):
        return img[n, :, y, x] if 0 <= y < h and 0 <= x < w else np.zeros(c)

    for n in range(b):
        for i in range(fh):
            for j in range(fw):
                if mode == "bicubic":  # the border rule applies to each of the 16 taps
                    y, x = _coord(gy[i] + flow[n, i, j, 1], h, align, "zeros"), _coord(gx[j] + flow[n, i, j, 0], w, align, "zeros")
                    y0, x0 = int(np.floor(y)), int(np.floor(x))
                    for dy, wy in zip((-1, 0, 1, 2), _cubic(y - y0)):
                        for dx, wx in zip((-1, 0, 1, 2), _cubic(x - x0)):
                            out[n, :, i, j] += wy * wx * at(n, int(_border(y0 + dy, h, align, pad)), int(_border(x0 + dx, w, align, pad)))
                    continue
                y = _coord(gy[i] + flow[n, i, j, 1], h, align, pad)
                x = _coord(gx[j] + flow[n, i, j, 0], w, align, pad)
                if mode == "nearest":
                    amb[n, i, j] = min(abs(y - np.floor(y) - 0.5), abs(x - np.floor(x) - 0.5)) < 1e-4
                    out[n, :, i, j] = at(n, int(np.rint(y)), int(np.rint(x)))
                else:
                    y0, x0 = int(np.floor(y)), int(np.floor(x))
                    dy, dx = y - y0, x - x0
                    out[n, :, i, j] = (
                        at(n, y0, x0) * (1 - dy) * (1 - dx) + at(n, y0, x0 + 1) * (1 - dy) * dx
                        + at(n, y0 + 1, x0) * dy * (1 - dx) + at(n, y0 + 1, x0 + 1) * dy * dx
                    )
    return out, amb


def _flow(c, dt):
    import torch

    shape = (c["b"], c["fh"], c["fw"], 2)
    if c["flow"] == "zero":
        return torch.zeros(shape, dtype=dt)
    if c["flow"] == "const":
        return rnd((c["b"], 1, 1, 2), c["seed"] ^ 1, "normal", dt, c["scale"]).expand(shape).clone()
    if c["flow"] == "row":
        return rnd((1, c["fh"], 1, 2), c["seed"] ^ 1, "normal", dt, c["scale"]).expand(shape).clone()
    return rnd(shape, c["seed"] ^ 1, "normal", dt, c["scale"] * (4.0 if c["flow"] == "far" else 1.0))


@PROP.sub("reference", cases, quick=700, thorough=20000)
def check(c):
    from neuralcompression.functional import dense_image_warp

    dt = DT(c["dtype"])
    img = viewed(rnd((c["b"], c["c"], c["h"], c["w"]), c["seed"], "normal", dt), c["seed"])
    flow = viewed(_flow(c, dt), c["seed"] // 5)
    kw = {}
    if c["mode"] != "default":
        kw["mode"] = c["mode"]
    if c["pad"] != "default":
        kw["padding_mode"] = c["pad"]
    if c["align"] is not None:
        kw["align_corners"] = c["align"]
    i0, f0 = img.clone(), flow.clone()
    out = dense_image_warp(img, flow, **kw)
    equal(img, i0, "image modified")
    equal(flow, f0, "flow modified")
    mode = "bilinear" if c["mode"] == "default" else c["mode"]
    pad = "border" if c["pad"] == "default" else c["pad"]
    ref, amb = reference(img.double().numpy(), flow.double().numpy(), mode, pad, bool(c["align"]))
    ensure(out.dtype == dt, "dtype changed")
    ensure(tuple(out.shape) == ref.shape, f"shape {tuple(out.shape)} != {ref.shape}")
    tol = 1e-9 if c["dtype"] == "float64" else 2e-4
    o = out.double().numpy().copy()
    m = np.broadcast_to(amb[:, None], o.shape)
    o[m] = ref[m]
    close(o, ref, tol, tol, f"warp ({mode},{pad})")
    return Info(c["flow"] != "zero" and c["scale"] > 0, mode, pad, "resized" if (c["fh"], c["fw"]) != (c["h"], c["w"]) else "same-size")


@PROP.sub("rejects", lambda: fixed(h=ints(1, 6), w=ints(1, 6), what=pick("dtype", "last1", "last3"), seed=seeds), quick=40)
def check_rejects(c):
    import torch
    from neuralcompression.functional import dense_image_warp

    img = rnd((1, 2, c["h"], c["w"]), c["seed"])
    last = {"last1": 1, "last3": 3}.get(c["what"], 2)
    flow = torch.zeros((1, c["h"], c["w"], last), dtype=torch.float64 if c["what"] == "dtype" else torch.float32)
    raises(ValueError, lambda: dense_image_warp(img, flow), f"mismatched input ({c['what']})")
    return Info(True, c["what"])


@PROP.sub("gradient", cases, quick=60, rule="float64 gradient vs central differences through the library")
def check_grad(c):
    import torch
    from neuralcompression.functional import dense_image_warp

    c = dict(c, h=min(c["h"], 4), w=min(c["w"], 4), fh=min(c["fh"], 4), fw=min(c["fw"], 4))
    dt = torch.float64
    img = rnd((c["b"], c["c"], c["h"], c["w"]), c["seed"], "normal", dt).requires_grad_(True)
    flow = _flow(c, dt)
    wgt = rnd((c["b"], c["c"], c["fh"], c["fw"]), c["seed"] ^ 3, "normal", dt)
    loss = (dense_image_warp(img, flow) * wgt).sum()
    (g,) = torch.autograd.grad(loss, img)
    # the operation is linear in the image: <g, d> is exactly the directional derivative
    d = rnd(img.shape, c["seed"] ^ 5, "normal", dt)
    with torch.no_grad():
        lin = (dense_image_warp(d, flow) * wgt).sum()
    close((g * d).sum(), lin, 1e-9, 1e-9, "gradient w.r.t. image")
    return Info(c["flow"] != "zero")
