"""P16: normal CDF family and distribution (log-)CDF / survival functions are exact to single precision."""
import hypothesis.strategies as st
import numpy as np

from ..core import Info, Prop, Violation, ensure, raises
from ..gen import DT, fixed, fl, ints, pick, seeds, values

PROP = Prop(
    "P16",
    "cases = arrays of finite reals (clustered on 0, the usual +-1, +-5, +-10, +-13 switch points, "
    "the far tails) x dtype x distribution parameters; oracle = scipy double-precision special "
    "functions at the very value passed; non-trivial = an array with at least one value beyond +-1",
    assumptions=["scipy.special/scipy.stats in float64 are accurate to ~1e-12"],
)
EPS = float(np.finfo(np.float32).eps)


def xs():
    knots = st.sampled_from([0.0, 1.0, 0.5, 0.7071067811865476, 2.0, 5.0, 6.0, 8.0, 10.0, 11.0, 12.0, 13.0, 14.0, 15.0, 20.0, 37.0, 38.5])
    near = st.builds(lambda k, d, s: s * (k + d), knots, fl(-1e-3, 1e-3), pick(-1.0, 1.0))
    return st.one_of(
        fl(-3, 3), fl(-15, 15), fl(-15, -4), near, fl(-45, 45),
        st.builds(lambda e, s: s * 10.0**e, fl(-6, 3.5), pick(-1.0, 1.0)),
    )


CASE = lambda: fixed(x=values(xs(), 1, 40), dtype=pick("float32", "float64"), lay=pick("flat", "flat", "two", "two", "view", "tiled", "scalar"))


def _tensor(c):
    import torch

    t = torch.tensor(c["x"], dtype=DT(c["dtype"]))
    if c["lay"] == "two":
        t = torch.stack([t, t.flip(0)])
    elif c["lay"] == "view":
        t = torch.stack([t, t.flip(0), t], -1).T[:2]
    elif c["lay"] == "tiled":
        t = t.repeat(1 + 5000 // len(t))
    elif c["lay"] == "scalar":
        t = t[0]
    return t


def _cmp(got, exp, tol, x, what):
    got = got.detach().double().numpy()
    ensure(got.shape == exp.shape, f"{what}: shape {got.shape} != {exp.shape}")
    with np.errstate(all="ignore"):
        bad = ~((got == exp) | (np.abs(got - exp) <= tol))
    if bad.any():
        i = tuple(int(v) for v in np.argwhere(bad)[0])
        raise Violation(f"{what}({np.broadcast_to(x, exp.shape)[i]!r}) = {got[i]!r}, exact {exp[i]!r}, tolerance {np.broadcast_to(tol, exp.shape)[i]:.3g}")


def _nt(c):
    return any(abs(v) > 1 for v in c["x"])


@PROP.sub("ndtr", CASE, quick=600, thorough=20000)
def ndtr(c):
    from neuralcompression.functional import ndtr as f
    from scipy.special import ndtr as ref

    x = _tensor(c)
    xd = x.double().numpy()
    e = ref(xd)
    got = f(x)
    # relative accuracy in the lower tail limited by rounding of the argument: z^2 * eps
    tol = 4 * EPS * e * (1 + xd**2) + 1e-38 + np.where(xd > -1, 2 * EPS, 0)
    _cmp(got, e, tol, xd, "ndtr")
    ensure(bool((got >= 0).all() and (got <= 1).all()), "ndtr outside [0, 1]")
    return Info(_nt(c), c["dtype"])


@PROP.sub("log_ndtr", CASE, quick=900, thorough=20000)
def log_ndtr(c):
    import torch
    from neuralcompression.functional import log_ndtr as f
    from scipy.special import log_ndtr as ref

    x = _tensor(c)
    xd = x.double().numpy()
    e = ref(xd)
    got = f(x)
    tol = 4 * EPS * np.abs(e) + np.where(xd < 5.01, 3e-7 + 4 * EPS * np.where(np.abs(xd) <= 15, xd**2, 0), 1e-38)
    tol = np.where(xd >= 5.01, np.abs(e) * 1e-4 + 1e-37, tol)
    tol = np.where(xd > 12, 1e-30, tol)
    if c["dtype"] == "float64":  # the far lower tail keeps the precision of its input
        tol = np.where(xd < -10.01, 3e-6 + 1e-9 * np.abs(e), tol)
        tol = np.where(xd < -20, 2e-8 + 1e-10 * np.abs(e), tol)
    _cmp(got, e, tol, xd, "log_ndtr")
    ensure(bool(torch.isfinite(got).all()), "log_ndtr not finite at a finite input")
    ensure(bool((got <= 0).all()), "log_ndtr positive")
    ensure(got.dtype == x.dtype or got.dtype == torch.float32, "dtype")
    return Info(_nt(c), c["dtype"])


@PROP.sub("log_ndtr_rejects", lambda: fixed(dtype=pick("int32", "int64", "float16", "uint8")), quick=8)
def log_ndtr_rejects(c):
    import torch
    from neuralcompression.functional import log_ndtr as f

    raises(TypeError, lambda: f(torch.ones(3, dtype=DT(c["dtype"]))), "unsupported dtype")
    return Info(True)


@PROP.sub("log_expm1", lambda: fixed(x=values(st.one_of(fl(1e-6, 30), fl(14, 16), fl(1e-20, 1e-3), fl(30, 3e4), st.just(15.0)), 1, 30), dtype=pick("float32", "float64")), quick=400, thorough=12000)
def log_expm1(c):
    import torch
    from neuralcompression.functional import log_expm1 as f

    x = torch.tensor(c["x"], dtype=DT(c["dtype"]))
    xd = x.double().numpy()
    e = np.where(xd < 30, np.log(np.expm1(np.minimum(xd, 30))), xd)
    got = f(x)
    tol = 4 * EPS * np.abs(e) + 4 * EPS + np.where(xd >= 14.99, 4e-7, 0)
    _cmp(got, e, tol, xd, "log_expm1")
    ensure(got.dtype == x.dtype, "dtype changed")
    return Info(any(v > 10 for v in c["x"]))


DISTS = ["Normal", "Normal", "Normal", "Uniform", "Uniform", "Laplace", "Exponential", "Cauchy", "LogNormal", "HalfNormal", "Weibull"]


@st.composite
def dist_cases(draw):
    name = draw(pick(*DISTS))
    n = draw(ints(1, 3))
    return dict(
        name=name, loc=draw(st.lists(fl(-5, 5), min_size=n, max_size=n)),
        scale=draw(st.lists(st.one_of(fl(0.1, 5), fl(0.01, 100)), min_size=n, max_size=n)),
        u=draw(values(st.one_of(fl(-3, 3), fl(-12, 12), fl(-40, 40), st.sampled_from([0.0, 1.0, -1.0, 0.5, 2.0])), 1, 12)),
        dtype=draw(pick("float32", "float64")),
    )


def build(c):
    """-> torch distribution, x tensor (k, n), exact cdf, sf, logcdf, logsf arrays, slope bound, standardized abs err"""
    import torch
    import torch.distributions as D
    from scipy import stats

    dt = DT(c["dtype"])
    loc, scale = torch.tensor(c["loc"], dtype=dt), torch.tensor(c["scale"], dtype=dt)
    u = torch.tensor(c["u"], dtype=dt)[:, None]
    x = loc + u * scale
    L, S = loc.double().numpy(), scale.double().numpy()
    n = c["name"]
    if n == "Normal":
        d, r = D.Normal(loc, scale), stats.norm(L, S)
    elif n == "Uniform":
        d, r = D.Uniform(loc, loc + scale, validate_args=False), stats.uniform(L, (loc + scale).double().numpy() - L)
    elif n == "Laplace":
        d, r = D.Laplace(loc, scale), stats.laplace(L, S)
    elif n == "Exponential":
        x = u.abs() * scale
        d, r = D.Exponential(1 / scale, validate_args=False), stats.expon(0, 1 / (1 / scale).double().numpy())
    elif n == "Gumbel":
        d, r = D.Gumbel(loc, scale), stats.gumbel_r(L, S)
    elif n == "Cauchy":
        d, r = D.Cauchy(loc, scale), stats.cauchy(L, S)
    elif n == "LogNormal":
        s = scale.clamp(max=3.0)
        x = torch.exp(torch.clamp(loc + u.clamp(-6, 6) * s, -20, 20))
        d, r = D.LogNormal(loc, s), stats.lognorm(s.double().numpy(), 0, np.exp(L))
    elif n == "HalfNormal":
        x = u.abs() * scale
        d, r = D.HalfNormal(scale), stats.halfnorm(0, S)
    else:
        x = u.abs().clamp(min=1e-3) * scale
        k = loc.abs().clamp(0.5, 3.0)
        d, r = D.Weibull(scale, k), stats.weibull_min(k.double().numpy(), 0, S)
    return d, x, r


def _check_dist(c, which):
    import neuralcompression.functional as ncF
    from scipy import stats

    d, x, r = build(c)
    xd = x.double().numpy()
    name = c["name"]
    L, S = np.array(c["loc"]), np.array(c["scale"])
    z = np.abs((xd - L) / S)
    # error of forming (x - loc) / scale in the working precision
    dz = EPS * ((np.abs(xd) + np.abs(L)) / S + z + 1)
    cdf, sf = r.cdf(xd), r.sf(xd)
    f = getattr(ncF, which)
    got = f(x, d)
    if which == "survival_function":
        if name == "Normal":
            tol = 4 * EPS * sf * (1 + z**2) + sf * (z + 1) * dz * 4 + 1e-37 + np.where(sf > 0.1, 4 * dz + 4 * EPS, 0)
        else:
            tol = 4 * dz + 40 * EPS
        _cmp(got, sf, tol, xd, f"{which}[{name}]")
        return Info(_nt({"x": c["u"]}), name)
    if name == "Normal":
        from scipy.special import log_ndtr

        zz = (xd - build_params(c)[0]) / build_params(c)[1]
        e = log_ndtr(zz if which == "log_cdf" else -zz)
        tol = 2e-6 * np.abs(e) + 4e-6 * (1 + np.where(z < 16, z, 0)) + 4 * (z + 2) * dz
        _cmp(got, e, tol, xd, f"{which}[{name}]")
        ensure(bool(np.isfinite(got.double().numpy()).all()), f"{which}: not finite")
    else:
        p = cdf if which == "log_cdf" else sf
        # absolute accuracy of the base cdf
        err = 3 * dz if (name, which) == ("Uniform", "log_cdf") else 4 * dz + 40 * EPS
        with np.errstate(all="ignore"):
            lo = np.where(p - err > 0, np.log(np.maximum(p - err, 1e-300)), -np.inf) - 1e-5
            hi = np.log(np.minimum(p + err, 1.0)) + 1e-6
        g = got.double().numpy()
        ensure(g.shape == p.shape, f"{which}: shape")
        bad = ~((g >= lo) & (g <= hi))
        if bad.any():
            i = tuple(int(v) for v in np.argwhere(bad)[0])
            raise Violation(f"{which}[{name}]({xd[i]!r}) = {g[i]!r}, expected in [{lo[i]!r}, {hi[i]!r}]")
    return Info(_nt({"x": c["u"]}), name)


def build_params(c):
    import torch

    dt = DT(c["dtype"])
    return (torch.tensor(c["loc"], dtype=dt).double().numpy(), torch.tensor(c["scale"], dtype=dt).double().numpy())


for _w in ("log_cdf", "log_survival_function", "survival_function"):
    PROP.sub(_w, dist_cases, quick=500, thorough=12000)(lambda c, _w=_w: _check_dist(c, _w))
