"""P27: patch-based FID/KID feeds every metric the full grid and the half-shifted grid of patches."""
import hypothesis.strategies as st

from ..core import Info, Prop, close, ensure, equal, raises, rnd, viewed
from ..gen import big, fixed, ints, pick, seeds

PROP = Prop(
    "P27",
    "cases = (image sizes around 1x, 1.5x and several times the patch size, odd sizes and odd patches, batch, which metrics are "
    "given); oracle = explicit enumeration of patches by index, compared as multisets per metric and side; non-trivial = at "
    "least two patches",
)


class Recorder:
    def __init__(self):
        self.got = {True: [], False: []}

    def update(self, imgs, real):
        import torch

        ensure(imgs.dtype == torch.uint8, f"patches are handed over as {imgs.dtype}")
        ensure(imgs.dim() == 4, f"patches of shape {tuple(imgs.shape)}")
        self.got[bool(real)].append(imgs.clone())

    def multiset(self, real):
        return sorted((tuple(p.shape), p.numpy().tobytes()) for b in self.got[real] for p in b)


def cases():
    return fixed(p=big(1, 9, 16, 32, 64), fy=pick(1.0, 1.2, 1.5, 1.6, 2.0, 2.5, 3.3, 6.5), fx=pick(1.0, 1.2, 1.5, 1.6, 2.0, 2.5, 3.3, 6.5), dy=ints(-1, 2), dx=ints(-1, 2), b=big(1, 3, 4, 9, 17), seed=seeds,
                 fid=st.booleans(), swav=st.booleans(), kid=st.booleans(), kind=pick("uniform", "levels", "binary"), dtype=pick("float32", "float64"))


@PROP.sub("patches", cases, quick=500, thorough=12000)
def patches(c):
    import torch
    from neuralcompression.metrics import update_patch_fid

    p = c["p"]
    H, W = max(p, int(p * c["fy"]) + c["dy"]), max(p, int(p * c["fx"]) + c["dx"])
    dt = getattr(torch, c["dtype"])
    a = viewed(rnd((c["b"], 3, H, W), c["seed"], c["kind"], dt), c["seed"])
    b = viewed(rnd((c["b"], 3, H, W), c["seed"] + 1, c["kind"], dt), c["seed"] // 5)
    ka, kb = a.clone(), b.clone()
    ms = {k: Recorder() for k in ("fid", "swav", "kid") if c[k]}
    kw = {{"fid": "fid_metric", "swav": "fid_swav_metric", "kid": "kid_metric"}[k]: m for k, m in ms.items()}
    if not ms:
        raises(ValueError, lambda: update_patch_fid(a, b, patch_size=p), "no metric at all")
        return Info(False, "refused")
    n = update_patch_fid(a, b, patch_size=p, **kw)
    equal(a, ka, "images modified")
    equal(b, kb, "predictions modified")

    def want(t):
        t = torch.round(t * 255.0).to(torch.uint8)
        out = []
        offs = [0]
        if 2 * H >= 3 * p and 2 * W >= 3 * p:
            offs.append(p // 2)
        for o in offs:
            for i in range(c["b"]):
                for y in range(o, H - p + 1, p):
                    for x in range(o, W - p + 1, p):
                        out.append(((3, p, p), t[i, :, y : y + p, x : x + p].contiguous().numpy().tobytes()))
        return sorted(out)

    wa, wb = want(a), want(b)
    ensure(n == len(wa), f"{n} patches reported, {len(wa)} expected for {H}x{W}, patch {p}")
    for k, m in ms.items():
        ensure(m.multiset(True) == wa, f"{k}: the real patches are not those of the two grids")
        ensure(m.multiset(False) == wb, f"{k}: the predicted patches are not those of the two grids")
    return Info(len(wa) > 1, f"shift{2 * H >= 3 * p and 2 * W >= 3 * p}", f"metrics{len(ms)}")


@PROP.sub("refusals", lambda: fixed(p=ints(2, 4), seed=seeds, which=pick("a", "b"), val=pick(1.01, -0.01, 2.0, 255.0)), quick=40, thorough=200, shards=1)
def refusals(c):
    """Images outside [0, 1] are refused rather than wrapped around."""
    from neuralcompression.metrics import update_patch_fid

    a, b = rnd((1, 3, 2 * c["p"], 2 * c["p"]), c["seed"], "uniform"), rnd((1, 3, 2 * c["p"], 2 * c["p"]), c["seed"] + 1, "uniform")
    (a if c["which"] == "a" else b)[0, 1, 0, 1] = c["val"]
    raises(ValueError, lambda: update_patch_fid(a, b, fid_metric=Recorder(), patch_size=c["p"]), f"value {c['val']}")
    return Info(True)


@PROP.sub("default_size", lambda: fixed(h=pick(256, 383, 384, 512), w=pick(256, 384, 400), seed=seeds), quick=8, thorough=24, shards=1)
def default_size(c):
    from neuralcompression.metrics import update_patch_fid

    a = rnd((1, 3, c["h"], c["w"]), c["seed"], "uniform")
    m = Recorder()
    n = update_patch_fid(a, a, m)
    e = (c["h"] // 256) * (c["w"] // 256)
    if c["h"] >= 384 and c["w"] >= 384:
        e += ((c["h"] - 128) // 256) * ((c["w"] - 128) // 256)
    ensure(n == e and sum(len(t) for t in m.got[True]) == e and all(tuple(t.shape[1:]) == (3, 256, 256) for t in m.got[True] + m.got[False]), f"{n} patches, expected {e}")
    return Info(True)
