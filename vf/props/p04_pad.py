"""P04: padding to a factor is minimal, keeps the image, and is invertible by a crop."""
import hypothesis.strategies as st

from ..core import IMAGE_KINDS, Info, Prop, close, ensure, equal, rnd, viewed
from ..gen import DT, big, fixed, ints, pick, seeds

PROP = Prop(
    "P04",
    "cases = (batch, channels, height, width, factor, padding mode, dtype, content recipe); "
    "non-trivial = at least one side is not a multiple of the factor",
)


@st.composite
def cases(draw):
    factor = draw(st.one_of(ints(1, 20), pick(2, 4, 8, 16, 32, 64, 128)))
    mode = draw(pick("reflect", "reflect", "reflect", "replicate", "constant", "circular"))
    # construct sides the chosen padding mode supports (reflect: pad < side, circular: pad <= side)
    def side():
        k = draw(big(1, 3, 4, 7 if factor > 20 else 30))
        off = draw(st.one_of(ints(0, max(factor - 1, 0)), st.just(0), st.just(factor - 1)))
        return max(1, k * factor - off)

    return dict(
        b=draw(big(1, 3, 4, 9)), c=draw(big(1, 4, 5, 17)), h=side(), w=side(), factor=factor, mode=mode,
        dtype=draw(pick("float32", "float32", "float64")), kind=draw(pick("uniform", "ramp", "normal")),
        seed=draw(seeds), default=draw(st.booleans()),
    )


def _index(n, m, mode):
    """source index for each of the m padded positions of an axis of length n (None: fill value)"""
    out = []
    for i in range(m):
        if i < n:
            out.append(i)
        elif mode == "reflect":
            out.append(2 * (n - 1) - i)
        elif mode == "replicate":
            out.append(n - 1)
        elif mode == "circular":
            out.append(i - n)
        else:
            out.append(None)
    return out


@PROP.sub("pad", cases, quick=800, thorough=20000)
def check(c):
    import torch
    from neuralcompression.functional import pad_image_to_factor

    h, w, f = c["h"], c["w"], c["factor"]
    H, W = -(-h // f) * f, -(-w // f) * f
    lim = {"reflect": -1, "circular": 0}.get(c["mode"], 10**9)
    legal = (H - h) <= h + lim and (W - w) <= w + lim
    x = viewed(rnd((c["b"], c["c"], h, w), c["seed"], c["kind"], DT(c["dtype"])), c["seed"])
    keep = x.clone()
    kw = {} if (c["default"] and c["mode"] == "reflect") else {"mode": c["mode"]}
    if not legal:
        try:
            y, size = pad_image_to_factor(x, f, **kw)
        except Exception:
            return Info(False, "illegal-for-mode")
        ensure(y.shape[-2] % f == 0 and y.shape[-1] % f == 0, "padded size not divisible")
        return Info(False, "illegal-for-mode")
    y, size = pad_image_to_factor(x, f, **kw)
    ensure(tuple(int(s) for s in size) == (h, w), f"reported size {size} for a {h}x{w} image")
    ensure(tuple(y.shape) == (c["b"], c["c"], H, W), f"padded {tuple(y.shape)}, expected {(H, W)}")
    ensure(y.dtype == x.dtype, "dtype changed")
    equal(x, keep, "input image modified")
    equal(y[..., : size[0], : size[1]], keep, "cropping does not restore the image")
    iy, ix = _index(h, H, c["mode"]), _index(w, W, c["mode"])
    exp = torch.zeros((c["b"], c["c"], H, W), dtype=x.dtype)
    vy = torch.tensor([i for i, s in enumerate(iy) if s is not None])
    vx = torch.tensor([i for i, s in enumerate(ix) if s is not None])
    sy = torch.tensor([s for s in iy if s is not None])
    sx = torch.tensor([s for s in ix if s is not None])
    exp[:, :, vy[:, None], vx[None, :]] = keep[:, :, sy[:, None], sx[None, :]]
    equal(y, exp, f"padding content ({c['mode']})")
    z, size2 = pad_image_to_factor(y, f, **kw)
    equal(z, y, "padding an already divisible image changed it")
    return Info(H != h or W != w, c["mode"], "divisible" if (H, W) == (h, w) else "padded")
