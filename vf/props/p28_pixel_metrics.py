"""P28: PSNR, 255-scaling and serialised size."""
import math
import pickle

import hypothesis.strategies as st

from ..core import Info, Prop, close, ensure, equal, raises, rnd
from ..gen import fixed, fl, ints, pick, seeds, shapes, weighted

PROP = Prop(
    "P28",
    "cases = (image pairs of every dtype incl. wrapping integer types, data ranges, images at and beyond the ends of [0, 1], nested "
    "objects); oracle = exact integer / float64 formulas and len(pickle.dumps); non-trivial = images that differ",
)


def psnr_cases():
    return fixed(shape=weighted((6, shapes(1, 4, 1, 6)), (1, st.sampled_from([[1, 3, 64, 80], [2, 3, 100, 41], [70000], [1, 1, 513, 1]]))), seed=seeds, eq=st.booleans(), lib=pick("torch", "numpy"), dtype=pick("float32", "float64", "uint8", "int16", "int32", "int64", "uint16"),
                 dtype2=pick("same", "float32", "float64", "uint8", "int64"), rng=pick(255.0, 1.0, 65535.0, None, 3.7), noise=pick(0.01, 1.0, 30.0, 400.0))


@PROP.sub("psnr", psnr_cases, quick=500, thorough=12000)
def psnr(c):
    import numpy as np
    import torch
    from neuralcompression.metrics import calc_psnr, calc_psnr_numpy

    base = rnd(c["shape"], c["seed"], "uniform", torch.float64, 255.0)
    other = base if c["eq"] else base + rnd(c["shape"], c["seed"] + 1, "normal", torch.float64, c["noise"])
    kw = {} if c["rng"] is None else {"data_range": c["rng"]}
    R = c["rng"] or 255.0
    if c["lib"] == "torch":
        dt = getattr(torch, c["dtype"] if c["dtype"].startswith("float") else "float32")
        a, b = base.to(dt), other.to(dt)
        A, B = a.double().numpy(), b.double().numpy()
        ka, kb = a.clone(), b.clone()
        got = calc_psnr(a, b, **kw)
        equal(a, ka, "image modified")
        equal(b, kb, "reference modified")
        back = calc_psnr(b, a, **kw)
    else:
        d1 = np.dtype(c["dtype"])
        d2 = d1 if c["dtype2"] == "same" else np.dtype(c["dtype2"])
        cast = lambda t, d: np.clip(np.round(t.numpy()), 0, 255).astype(d) if d.kind in "iu" else t.numpy().astype(d)
        a, b = cast(base, d1), cast(other, d2)
        A, B = a.astype(np.float64), b.astype(np.float64)
        ka, kb = a.copy(), b.copy()
        got = calc_psnr_numpy(a, b, **kw)
        equal(a, ka, "image modified")
        equal(b, kb, "reference modified")
        back = calc_psnr_numpy(b, a, **kw)
    mse = float(((A - B) ** 2).mean())
    if mse == 0:
        ensure(math.isinf(float(got)) and float(got) > 0, f"PSNR of identical images is {float(got)}")
        return Info(False, "identical")
    e = 10 * math.log10(R * R / mse)
    loose = c["dtype"] == "float32" or c["dtype2"] == "float32" or c["lib"] == "torch"
    close(got, e, 0, 2e-3 if loose else 1e-4, "PSNR")
    close(back, float(got), 0, 1e-4, "PSNR is not symmetric")
    return Info(True, c["lib"], c["dtype"])


def s_cases():
    return fixed(shape=weighted((6, shapes(1, 4, 1, 6)), (1, st.sampled_from([[1, 3, 64, 80], [2, 3, 100, 41], [70000], [1, 1, 513, 1]]))), seed=seeds, kind=pick("uniform", "levels", "binary", "ramp", "zeros", "ones", "eighth", "half"), dtype=pick("float32", "float64"),
                 out=pick(None, "uint8", "int32", "float32", "float64"), bad=pick(None, None, 1.0000002, 1.5, -1e-6, -3.0), pos=ints(0, 1000))


@PROP.sub("scale_255", s_cases, quick=500, thorough=12000)
def scale_255(c):
    import torch
    import neuralcompression.functional as ncF

    dt = getattr(torch, c["dtype"])
    if c["kind"] == "eighth":
        x = torch.round(rnd(c["shape"], c["seed"], "uniform", torch.float64) * 255) / 255
        x = x.to(dt)
    elif c["kind"] == "half":  # next to the rounding boundary
        x = ((torch.floor(rnd(c["shape"], c["seed"], "uniform", torch.float64, 254.0)) + 0.5 + 1e-3 * rnd(c["shape"], c["seed"] + 1, "symmetric", torch.float64)) / 255).to(dt)
    else:
        x = rnd(c["shape"], c["seed"], c["kind"], dt)
    kw = {} if c["out"] is None else {"dtype": getattr(torch, c["out"])}
    if c["bad"] is not None:
        x.view(-1)[c["pos"] % x.numel()] = c["bad"]
        raises(ValueError, lambda: ncF.image_to_255_scale(x, **kw), f"value {c['bad']}")
        return Info(True, "refused")
    keep = x.clone()
    y = ncF.image_to_255_scale(x, **kw)
    equal(x, keep, "input modified")
    ensure(y.dtype == (dt if c["out"] is None else getattr(torch, c["out"])), f"dtype {y.dtype}")
    exact = x.double() * 255
    yy = y.double()
    ensure(bool((yy == yy.round()).all() and (yy >= 0).all() and (yy <= 255).all()), "values are not integers in 0..255")
    ensure(bool(((yy - exact).abs() <= 0.5 + 2e-5).all()), "not the nearest integer")
    z = ncF.image_to_255_scale(yy / 255.0)
    close(z, yy, 0, 0, "scaling an 8-bit image down and up does not restore it")
    return Info(x.numel() > 1, c["kind"])


def objs():
    leaf = st.one_of(st.binary(max_size=300), st.text(max_size=20), ints(-(2**70), 2**70), st.none(), st.booleans(), fl(-1e9, 1e9).map(float))
    return st.recursive(leaf.map(enc), lambda ch: st.lists(ch, max_size=4), max_leaves=10)


def enc(v):
    return {"bytes": v.hex()} if isinstance(v, bytes) else v


def dec(v, cyc=False):
    if isinstance(v, dict):
        return bytes.fromhex(v["bytes"])
    if isinstance(v, list):
        return [dec(t) for t in v]
    return v


@PROP.sub("pickle_size", lambda: fixed(obj=objs(), wrap=pick("plain", "dict", "tuple", "shared", "tensor", "array", "big")), quick=300, thorough=6000)
def pickle_size(c):
    import numpy as np
    import torch
    from neuralcompression.metrics import pickle_size_of

    o = dec(c["obj"])
    o = {"plain": o, "dict": {"a": o, "b": (16, 32)}, "tuple": (o, [o]), "shared": [o] * 3, "tensor": [o, torch.arange(7)], "array": [o, np.ones((3, 5), np.float32)], "big": [o, b"x" * 70000]}[c["wrap"]]
    n = pickle_size_of(o)
    ensure(isinstance(n, int) and n == len(pickle.dumps(o)), f"{n} != {len(pickle.dumps(o))}")
    ensure(pickle_size_of(o) == n, "second measurement differs")
    return Info(n > 20, c["wrap"])
