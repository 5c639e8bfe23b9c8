"""P29: colour conversion and flow visualisation."""
import colorsys
import math

import hypothesis.strategies as st

from ..core import Info, Prop, close, ensure, equal, raises, rnd, viewed
from ..gen import big, fixed, fl, ints, pick, seeds

PROP = Prop(
    "P29",
    "cases = (HSV images incl. sextant boundaries and the ends of every range; flow fields incl. zero, axis-aligned, tiny and huge "
    "vectors, float32 and float64); oracle = the standard library's colorsys per pixel and atan2/magnitude formulas; non-trivial = "
    "several pixels with different hues",
)

HUES = [0.0, 60.0, 120.0, 180.0, 240.0, 300.0, 360.0, 30.0, 359.99]


def hsv_cases():
    px = st.tuples(st.one_of(pick(*HUES), fl(0, 360)), st.one_of(pick(0.0, 1.0, 0.5), fl(0, 1)), st.one_of(pick(0.0, 1.0, 0.25), fl(0, 1))).map(list)
    return fixed(px=st.lists(px, min_size=1, max_size=12), b=big(1, 3, 4, 17), h=big(1, 2, 16, 70), dtype=pick("float32", "float64"))


def layout(px, b, h):
    """Pixels into a (b, 3, h, w) tensor, repeating them as needed."""
    import torch

    w = -(-len(px) // (b * h))
    flat = [px[i % len(px)] for i in range(b * h * w)]
    return torch.tensor(flat, dtype=torch.float64).reshape(b, h, w, 3).permute(0, 3, 1, 2), flat


@PROP.sub("hsv", hsv_cases, quick=500, thorough=12000)
def hsv(c):
    import torch
    import neuralcompression.functional as ncF

    x, flat = layout(c["px"], c["b"], c["h"])
    x = viewed(x.to(getattr(torch, c["dtype"])).contiguous(), len(c["px"]))
    keep = x.clone()
    y = ncF.hsv_to_rgb(x)
    equal(x, keep, "input modified")
    ensure(y.dtype == x.dtype and y.shape == x.shape, f"{y.dtype} {tuple(y.shape)}")
    f = x.double().permute(0, 2, 3, 1).reshape(-1, 3)
    e = torch.tensor([colorsys.hsv_to_rgb((float(a) % 360.0) / 360.0, float(b), float(d)) for a, b, d in f], dtype=torch.float64)
    tol = 1e-5 if c["dtype"] == "float32" else 1e-10
    close(y.permute(0, 2, 3, 1).reshape(-1, 3), e, 0, tol, "RGB")
    return Info(len({tuple(p) for p in c["px"]}) > 1, c["dtype"])


@PROP.sub("hsv_refusals", lambda: fixed(ch=pick(0, 1, 2), val=pick(-1e-3, -5.0, 1.001, 360.5, 400.0), h=ints(1, 3), w=ints(1, 3), seed=seeds, nd=pick(2, 3, 5), nc=pick(1, 2, 4)), quick=150, thorough=2000)
def hsv_refusals(c):
    import torch
    import neuralcompression.functional as ncF

    x = rnd((2, 3, c["h"], c["w"]), c["seed"], "uniform", torch.float64)
    x[:, 0] *= 360
    ncF.hsv_to_rgb(x)
    bad = x.clone()
    i = c["seed"] % (2 * c["h"] * c["w"])
    v = c["val"]
    ok = 0 <= v <= (360.0 if c["ch"] == 0 else 1.0)
    bad[i // (c["h"] * c["w"]), c["ch"], (i // c["w"]) % c["h"], i % c["w"]] = v
    if ok:
        ncF.hsv_to_rgb(bad)
    else:
        raises(ValueError, lambda: ncF.hsv_to_rgb(bad), f"channel {c['ch']} = {v}")
    raises(ValueError, lambda: ncF.hsv_to_rgb(torch.zeros([3] * c["nd"])), f"{c['nd']} dimensions")
    raises(ValueError, lambda: ncF.hsv_to_rgb(torch.zeros(2, c["nc"], 2, 2)), f"{c['nc']} channels")
    return Info(not ok)


def flow_cases():
    comp = st.one_of(pick(0.0, -0.0, 1.0, -1.0, 1e-20, -1e-20, 1e-9, -1e-9, 1e-6, -1e-6), fl(-20, 20), fl(-1e-7, 1e-7), fl(-1e4, 1e4))
    return fixed(px=st.lists(st.tuples(comp, comp).map(list), min_size=1, max_size=12), b=big(1, 2, 3, 9), h=big(1, 3, 16, 70), dtype=pick("float32", "float64"), eps=pick(None, 1e-5, 1e-2, 1.0))


@PROP.sub("flow", flow_cases, quick=700, thorough=16000)
def flow(c):
    import torch
    import neuralcompression.functional as ncF

    w = -(-len(c["px"]) // (c["b"] * c["h"]))
    flat = [c["px"][i % len(c["px"])] for i in range(c["b"] * c["h"] * w)]
    x = torch.tensor(flat, dtype=torch.float64).reshape(c["b"], c["h"], w, 2).permute(0, 3, 1, 2).to(getattr(torch, c["dtype"])).contiguous()
    x = viewed(x, len(c["px"]))
    keep = x.clone()
    kw = {} if c["eps"] is None else {"eps": c["eps"]}
    eps = c["eps"] or 1e-5
    y = ncF.optical_flow_to_color(x, **kw)
    equal(x, keep, "flow modified")
    ensure(tuple(y.shape) == (c["b"], 3, c["h"], w) and y.dtype == x.dtype, f"{tuple(y.shape)} {y.dtype}")
    ensure(bool((y >= 0).all() and (y <= 1).all()), "colours outside [0, 1]")
    f = x.double().permute(0, 2, 3, 1).reshape(-1, 2).tolist()
    mags = [math.hypot(a, b) for a, b in f]
    lo = min(mags)
    top = max(m - lo for m in mags)
    e = []
    for (a, b), m in zip(f, mags):
        ang = math.degrees(math.atan2(a, b)) % 360.0
        e.append(colorsys.hsv_to_rgb(ang / 360.0, 1.0, (m - lo) / (top + eps)))
    # (m - lo) / (top + eps) loses relative accuracy when all magnitudes nearly agree
    tol = (2e-5 if c["dtype"] == "float32" else 1e-9) + (2.5e-7 if c["dtype"] == "float32" else 5e-16) * max(mags) / (top + eps)
    if tol < 0.2:
        close(y.permute(0, 2, 3, 1).reshape(-1, 3), torch.tensor(e, dtype=torch.float64), 0, tol, "flow colour")
    raises(ValueError, lambda: ncF.optical_flow_to_color(x[0]), "3-D flow")
    return Info(len({tuple(p) for p in c["px"]}) > 1 and top > 1e-3, c["dtype"])
