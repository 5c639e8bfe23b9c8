"""P25: MS-SSIM equals its definition, is a similarity, and the metric averages it over every image seen."""
import hypothesis.strategies as st

from ..core import Info, Prop, close, ensure, equal, raises, rnd, viewed
from ..gen import big, fixed, fl, ints, pick, seeds

PROP = Prop(
    "P25",
    "cases = (image size incl. odd sides, channels, batch, window size and width, constants, data range, number and values of scale "
    "weights, pairs from identical to anti-correlated) and histories of metric updates/resets/synchronisations; oracle = "
    "sliding-window SSIM written with numpy in float64; non-trivial = at least two scales, two channels or images",
)


def params():
    return fixed(rng=pick(1.0, 1.0, 255.0, 2.5, 0.01), win=pick(1, 3, 5, 7), k1=pick(0.01, 0.05, 0.2), k2=pick(0.03, 0.1, 0.4), std=pick(0.5, 1.5, 3.0),
                 factors=st.lists(pick(0.0448, 0.2856, 0.3001, 0.5, 1.0, 2.0), min_size=1, max_size=4))


def pair(c, seed, shape, dt=None):
    import torch

    dt = dt or torch.float64
    x = rnd(shape, seed, c["kind"], torch.float64)
    n = rnd(shape, seed + 1, "uniform", torch.float64)
    y = {"same": x, "near": 0.9 * x + 0.1 * n, "mid": 0.5 * x + 0.5 * n, "free": n, "inverse": 1 - x, "scaled": 0.3 * x + 0.2, "zero": torch.zeros_like(x)}[c["rel"]]
    s = c["p"]["rng"]
    return viewed((x * s).to(dt), seed), viewed((y * s).to(dt), seed // 5)


def oracle(x, y, p):
    """x, y: float64 numpy (B, C, H, W) -> (B,) scores; also the smallest unclamped term."""
    import numpy as np
    from numpy.lib.stride_tricks import sliding_window_view as sw

    w = p["win"]
    i = np.arange(-(w // 2), w // 2 + 1)
    g = np.exp(-0.5 * (i / p["std"]) ** 2)
    g = g / g.sum()
    g = g[:, None] * g[None, :]
    c1, c2 = (p["k1"] * p["rng"]) ** 2, (p["k2"] * p["rng"]) ** 2
    B, C = x.shape[:2]
    out = np.ones((B, C))
    low = np.inf
    S = len(p["factors"])
    for s, f in enumerate(p["factors"]):
        if s:
            def down(t):
                t = np.pad(t, ((0, 0), (0, 0), (0, t.shape[2] % 2), (0, t.shape[3] % 2)), mode="edge")
                return (t[:, :, ::2, ::2] + t[:, :, 1::2, ::2] + t[:, :, ::2, 1::2] + t[:, :, 1::2, 1::2]) / 4

            x, y = down(x), down(y)
        if min(x.shape[2:]) < w:
            return None, 0
        wx, wy = sw(x, (w, w), axis=(2, 3)), sw(y, (w, w), axis=(2, 3))
        m = lambda t: (t * g).sum((-1, -2))
        ux, uy = m(wx), m(wy)
        vx, vy, vxy = m((wx - ux[..., None, None]) ** 2), m((wy - uy[..., None, None]) ** 2), m((wx - ux[..., None, None]) * (wy - uy[..., None, None]))
        lum = (2 * ux * uy + c1) / (ux**2 + uy**2 + c1)
        cs = (2 * vxy + c2) / (vx + vy + c2)
        term = (lum * cs if s == S - 1 else cs).mean((2, 3))
        low = min(low, float(np.abs(term).min()))
        out = out * np.maximum(term, 0) ** f
    return out.mean(1), low


def cases():
    return fixed(p=params(), b=big(1, 3, 4, 9), ch=big(1, 3, 4, 7), h=big(1, 40, 64, 97), w=big(1, 40, 63, 96), seed=seeds, kind=pick("uniform", "uniform", "levels", "ramp", "const", "impulse", "normal"),
                 rel=pick("same", "near", "mid", "free", "inverse", "scaled", "zero"), red=pick("mean", "sum", "none", None), dtype=pick("float64", "float64", "float32"), default=st.booleans())


@PROP.sub("definition", cases, quick=400, thorough=8000)
def definition(c):
    import torch
    import neuralcompression.functional as ncF

    p = dict(c["p"])
    dt = getattr(torch, c["dtype"])
    x, y = pair(c, c["seed"], (c["b"], c["ch"], c["h"], c["w"]), dt)
    kw = dict(data_range=p["rng"], window_size=p["win"], k1=p["k1"], k2=p["k2"], gaussian_std=p["std"], power_factors=p["factors"])
    if c["default"]:  # the documented default constants
        p.update(k1=0.01, k2=0.03, std=1.5)
        kw = dict(data_range=p["rng"], window_size=p["win"], power_factors=tuple(p["factors"]))
    if c["red"]:
        kw["reduction"] = c["red"]
    f = lambda a, b: ncF.multiscale_structural_similarity(a, b, **kw)
    e, low = oracle(x.double().numpy(), y.double().numpy(), p)
    if e is None:
        raises(RuntimeError, lambda: f(x, y), "an image smaller than the window at some scale")
        return Info(len(p["factors"]) > 1, "too-small")
    kx, ky = x.clone(), y.clone()
    got = f(x, y)
    equal(x, kx, "first image modified")
    equal(y, ky, "second image modified")
    red = c["red"] or "mean"
    if c["dtype"] == "float64":
        # a term of size `low` raised to a small power amplifies rounding errors of the variances
        tol = 1e-9 / max(low, 1e-12) + 1e-8
    else:
        tol = 2e-5 / max(low, 1e-12) / min(1.0, (p["k2"] ** 2)) * 0.05 + 1e-4
    if tol < 0.05:
        exp = {"mean": e.mean(), "sum": e.sum(), "none": e}[red]
        close(got, exp, 0, tol * (c["b"] if red == "sum" else 1), f"MS-SSIM ({red})")
        close(f(y, x), got, 0, 2 * tol * c["b"], "symmetry")
    if c["rel"] == "same":
        close(got, {"mean": 1.0, "sum": float(c["b"]), "none": torch.ones(c["b"])}[red], 0, 1e-4 * c["b"], "identical images")
    ensure(bool((got <= (c["b"] if red == "sum" else 1) + 1e-4).all() and (got >= 0).all()), "score outside [0, 1]")
    if red == "none" and c["b"] > 1:
        close(f(x[1:2], y[1:2]), got[1:2], 0, 1e-5 + 2 * tol if tol < 0.05 else 1, "batch items influence each other")
    return Info(len(p["factors"]) > 1 or c["ch"] > 1, f"scales{len(p['factors'])}", c["rel"], c["dtype"])


@PROP.sub("defaults", lambda: fixed(h=ints(176, 190), w=ints(176, 190), seed=seeds, rel=pick("near", "mid"), kind=pick("uniform", "levels"), ch=pick(1, 3)), quick=8, thorough=60)
def defaults(c):
    """All defaults: five scales with the published weights, window 11."""
    import neuralcompression.functional as ncF
    import torch
    from neuralcompression.metrics import MultiscaleStructuralSimilarity

    p = dict(rng=1.0, win=11, k1=0.01, k2=0.03, std=1.5, factors=[0.0448, 0.2856, 0.3001, 0.2363, 0.1333])
    x, y = pair(dict(c, p=p), c["seed"], (1, c["ch"], c["h"], c["w"]))
    e, low = oracle(x.numpy(), y.numpy(), p)
    got = ncF.multiscale_structural_similarity(x, y)
    tol = 1e-9 / max(low, 1e-12) + 1e-8
    close(got, e.mean(), 0, tol, "MS-SSIM with defaults")
    m = MultiscaleStructuralSimilarity()
    m.update(x, y)
    close(m.compute(), e.mean(), 0, 1e-9 / max(low, 1e-12) + 1e-6, "metric with defaults")
    raises(RuntimeError, lambda: ncF.multiscale_structural_similarity(x[:, :, :160], y[:, :, :160]), "160 rows are too few for five scales")
    return Info(True)


def hist():
    op = st.one_of(fixed(b=ints(1, 3), seed=seeds, h=ints(12, 24), w=ints(12, 24), rank=ints(0, 1), rel=pick("same", "near", "mid", "free")), pick("reset", "compute"))
    return fixed(p=fixed(rng=pick(1.0, 255.0), win=pick(1, 3), k1=pick(0.01, 0.2), k2=pick(0.03, 0.4), std=pick(0.5, 1.5), factors=st.lists(pick(0.2856, 0.5, 1.0), min_size=1, max_size=3)),
                 kind=pick("uniform", "levels"), ops=st.lists(op, min_size=1, max_size=6), dist=st.booleans())


@PROP.sub("metric", hist, quick=120, thorough=2500)
def metric(c):
    """The metric is the mean over all images since the last reset, however batched, on however many ranks."""
    import numpy as np
    import torch
    from neuralcompression.metrics import MultiscaleStructuralSimilarity

    from ..dist import replicas, synced

    p = c["p"]
    mk = lambda: MultiscaleStructuralSimilarity(data_range=p["rng"], window_size=p["win"], k1=p["k1"], k2=p["k2"], gaussian_std=p["std"], power_factors=p["factors"])
    ms = replicas(mk, 2) if c["dist"] else [mk()]
    seen = []
    n = 0
    for o in c["ops"] + ["compute"]:
        if o == "reset":
            for m in ms:
                m.reset()
            seen = []
        elif o == "compute":
            if seen:
                for m in ms:
                    close(synced(m), float(np.mean(np.concatenate(seen))), 0, 1e-4, "mean score")
        else:
            x, y = pair(dict(c, rel=o["rel"]), o["seed"], (o["b"], 2, o["h"], o["w"]))
            e, low = oracle(x.numpy(), y.numpy(), p)
            if low < 1e-3:
                continue
            ms[o["rank"] % len(ms)].update(x, y)
            seen.append(e)
            n += 1
    return Info(n > 1, "dist" if c["dist"] else "single")


@PROP.sub("refusals", lambda: fixed(win=pick(-3, -1, 0, 2, 4, 10), red=pick("avg", "", "Mean", "batch")), quick=20, thorough=40, shards=1)
def refusals(c):
    import torch
    import neuralcompression.functional as ncF

    x = torch.rand(1, 1, 24, 24)
    raises(ValueError, lambda: ncF.multiscale_structural_similarity(x, x, window_size=c["win"], power_factors=[1.0]), f"window size {c['win']}")
    raises(ValueError, lambda: ncF.multiscale_structural_similarity(x, x, window_size=3, power_factors=[1.0], reduction=c["red"]), f"reduction {c['red']!r}")
    return Info(True)
