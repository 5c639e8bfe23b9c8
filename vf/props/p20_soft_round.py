"""P20: soft rounding interpolates identity and rounding, and its inverse / conditional mean are exact."""
import hypothesis.strategies as st
import numpy as np

from ..core import Info, Prop, Violation, close, ensure
from ..gen import DT, big, fixed, fl, ints, pick, values

PROP = Prop(
    "P20",
    "cases = arrays of reals (clustered on integers and half integers, both signs) x temperature (from below the identity "
    "threshold to 40) x dtype; oracle = float64 closed form plus round-trip and periodicity laws; non-trivial = a "
    "temperature above the identity threshold",
)


def xs():
    return st.one_of(fl(-6, 6), fl(-200, 200), st.builds(lambda k, d: k / 2 + d, ints(-12, 12), fl(-1e-3, 1e-3)), ints(-40, 40).map(lambda k: k / 4))


CASE = lambda: fixed(
    x=values(xs(), 1, 20), dtype=pick("float32", "float64"),
    alpha=st.one_of(fl(0.01, 12), fl(0.0011, 0.1), fl(12, 40), pick(0.0, 1e-4, 5e-4, 9.9e-4, 1.0, 5.0)),
    eps=pick(None, None, None, 1e-2, 0.5, 2.0), tile=big(1, 1, 60, 400, odds=20),
)


def _kw(c):
    return {} if c["eps"] is None else {"eps": c["eps"]}


def _ref(x, a):
    m = np.floor(x) + 0.5
    return m + np.tanh(a * (x - m)) / (2 * np.tanh(a / 2))


def _ref_inv(y, a):
    m = np.floor(y) + 0.5
    with np.errstate(all="ignore"):
        r = np.arctanh(np.clip((y - m) * 2 * np.tanh(a / 2), -1, 1)) / a
    return m + np.clip(r, -0.5, 0.5)


def _edge(v, tol):
    """value within tol of an integer (where floor may legitimately go either way after an op)"""
    return np.abs(v - np.rint(v)) <= tol


@PROP.sub("forward", CASE, quick=800, thorough=20000)
def forward(c):
    import torch
    from neuralcompression.functional import soft_round

    x = torch.tensor(c["x"] * c["tile"], dtype=DT(c["dtype"]))
    xd = x.double().numpy()
    a, eps = c["alpha"], 1e-3 if c["eps"] is None else c["eps"]
    y = soft_round(x, a, **_kw(c))
    ensure(y.dtype == x.dtype and y.shape == x.shape, "shape/dtype")
    if a < eps:
        close(y, xd, 0, 0, "identity below the threshold")
        return Info(False, "identity")
    e = _ref(xd, a)
    u = 3e-7 if c["dtype"] == "float32" else 1e-7
    tol = u * (np.abs(xd) + 1) * (2 + a)
    bad = ~(np.abs(y.double().numpy() - e) <= tol)
    if bad.any():
        i = int(np.argwhere(bad)[0][0])
        raise Violation(f"soft_round({xd[i]!r}, {a}) = {float(y[i])!r}, expected {e[i]!r}")
    # integers and half integers are fixed points; outputs stay inside the same unit cell
    yd = y.double().numpy()
    ensure(np.all(np.abs(yd - (np.floor(xd) + 0.5)) <= 0.5 + tol), "left the unit cell")
    o = np.argsort(xd)
    ensure(np.all(np.diff(yd[o]) >= -tol.max()), "not monotone")
    y1 = soft_round(x.double() + 3, a, **_kw(c)).numpy()
    y0 = soft_round(x.double(), a, **_kw(c)).numpy()
    ok = np.abs(y1 - 3 - y0) <= 1e-6 * (np.abs(xd) + 4) * (2 + a)
    ensure(np.all(ok), "soft_round(x + 3) != soft_round(x) + 3")
    if a >= 12:
        far = np.abs(xd - np.floor(xd) - 0.5) > 0.4
        ensure(np.all(np.abs(yd - np.rint(xd))[far] < 2 * np.exp(-0.8 * a) + tol.max()), "large temperature is not rounding")
    return Info(True, "sharp" if a > 8 else "smooth")


@PROP.sub("inverse", CASE, quick=800, thorough=20000)
def inverse(c):
    import torch
    from neuralcompression.functional import soft_round, soft_round_inverse

    y = torch.tensor(c["x"] * c["tile"], dtype=DT(c["dtype"]))
    yd = y.double().numpy()
    a, eps = c["alpha"], 1e-3 if c["eps"] is None else c["eps"]
    x = soft_round_inverse(y, a, **_kw(c))
    ensure(x.dtype == y.dtype and x.shape == y.shape, "shape/dtype")
    if a < eps:
        close(x, yd, 0, 0, "identity below the threshold")
        return Info(False, "identity")
    xd = x.double().numpy()
    ensure(np.all(np.isfinite(xd)), "not finite")
    u = 3e-7 if c["dtype"] == "float32" else 1e-7
    base = u * (np.abs(yd) + 1)
    ensure(np.all(np.abs(xd - (np.floor(yd) + 0.5)) <= 0.5 + base), "left the unit cell")
    # forward(inverse(y)) == y (well conditioned everywhere, unlike the converse)
    back = _ref(xd, a)
    tol = base * (4 + 2 * a)
    diff = np.abs(back - yd)
    diff = np.where(_edge(xd, 2 * base), np.minimum(diff, np.abs(np.rint(xd) - yd)), diff)
    bad = ~(diff <= tol)
    if bad.any():
        i = int(np.argwhere(bad)[0][0])
        raise Violation(f"soft_round(soft_round_inverse({yd[i]!r}, {a})) = {back[i]!r}; inverse gave {xd[i]!r}")
    # inverse(forward(y)) == y where the inverse is well conditioned
    z = soft_round(y, a, **_kw(c))
    w = soft_round_inverse(z, a, **_kw(c)).double().numpy()
    m = np.floor(yd) + 0.5
    slope = a / (2 * np.tanh(a / 2)) / np.cosh(np.minimum(a * np.abs(yd - m), 300)) ** 2
    with np.errstate(all="ignore"):
        wt = 8 * base / np.minimum(slope, 1) + 8 * base
    use = (wt < 1e-2) & ~_edge(yd, 1e-3) & ~_edge(z.double().numpy(), 8 * base)
    bad = use & ~(np.abs(w - yd) <= wt)
    if bad.any():
        i = int(np.argwhere(bad)[0][0])
        raise Violation(f"soft_round_inverse(soft_round({yd[i]!r}, {a})) = {w[i]!r} (tol {wt[i]:.2g})")
    return Info(True, "sharp" if a > 8 else "smooth", "roundtrip" if use.any() else "edge")


@PROP.sub("conditional_mean", CASE, quick=600, thorough=12000)
def conditional_mean(c):
    import torch
    from neuralcompression.functional import soft_round_conditional_mean

    x = torch.tensor(c["x"] * c["tile"], dtype=DT(c["dtype"]))
    xd = x.double().numpy()
    a = c["alpha"]
    g = soft_round_conditional_mean(x, a)
    ensure(g.dtype == x.dtype and g.shape == x.shape, "shape/dtype")
    gd = g.double().numpy()
    u = 3e-7 if c["dtype"] == "float32" else 1e-7
    base = u * (np.abs(xd) + 2)
    if a < 1e-3:
        close(g, xd, 0, float(base.max()), "identity below the threshold")
        return Info(False, "identity")
    # g(z) = E[Y | s(Y) + U = z]: Y is uniform on the interval where s(Y) is within 1/2 of z,
    # so g is the midpoint of s^-1(z - 1/2) and s^-1(z + 1/2)
    lo, hi = _ref_inv(xd - 0.5, a), _ref_inv(xd + 0.5, a)
    e = (lo + hi) / 2
    s = (xd - 0.5 - (np.floor(xd - 0.5) + 0.5)) * 2 * np.tanh(a / 2)
    with np.errstate(all="ignore"):
        tol = base * (4 + 4 / (np.maximum(1 - s**2, 1e-9) * a))
    tol = np.where(_edge(xd - 0.5, 1e-6), np.inf, tol)
    use = tol < 0.05
    bad = use & ~(np.abs(gd - e) <= tol)
    if bad.any():
        i = int(np.argwhere(bad)[0][0])
        raise Violation(f"conditional mean at {xd[i]!r}, alpha {a}: {gd[i]!r}, expected {e[i]!r}")
    ensure(np.all(np.abs(gd - np.rint(xd))[~_edge(xd - 0.5, 1e-6)] <= 0.5 + 4 * base.max()), "left the unit cell")
    return Info(bool(use.any()), "sharp" if a > 8 else "smooth")


@PROP.sub("gradient", CASE, quick=200, thorough=4000)
def gradient(c):
    import torch
    from neuralcompression.functional import soft_round

    a = c["alpha"]
    if a < 1e-3:
        a = 0.0
    x = torch.tensor(c["x"], dtype=torch.float64)
    x = x[(x - torch.round(x)).abs() > 1e-4]
    if x.numel() == 0:
        return Info(False)
    x.requires_grad_(True)
    soft_round(x, a).sum().backward()
    xd = x.detach().numpy()
    if a == 0.0:
        close(x.grad, np.ones_like(xd), 0, 0, "identity gradient")
        return Info(False)
    m = np.floor(xd) + 0.5
    e = a / (2 * np.tanh(a / 2)) / np.cosh(a * (xd - m)) ** 2
    close(x.grad, e, 1e-5, 1e-6 * (1 + a) * 3, "gradient of soft rounding")
    return Info(True)
