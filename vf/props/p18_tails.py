"""P18: tail quantiles bound the requested mass; the quantization offset aligns bins with the mean."""
import math

import hypothesis.strategies as st
import numpy as np

from ..core import Info, Prop, close, ensure
from ..gen import DT, fixed, fl, ints, pick, seeds

PROP = Prop(
    "P18",
    "cases = distribution family x batch of parameters x tail mass (with and without an inverse CDF) / monotone "
    "functions x targets; oracle = scipy quantiles and the residual of the equation; non-trivial = a batch with more "
    "than one element or an off-centre distribution",
)


def _only_cdf(kind, loc, scale):
    """A distribution that offers a CDF and no inverse CDF."""
    import torch
    from torch.distributions import Distribution

    class Cdf(Distribution):
        arg_constraints = {}

        def __init__(self):
            super().__init__(loc.shape, validate_args=False)

        def cdf(self, x):
            z = (x - loc) / scale
            if kind == "logistic":
                return torch.sigmoid(z)
            if kind == "student2":
                return 0.5 * (1 + z / torch.sqrt(2 + z * z))
            return 0.5 * (1 + torch.erf(z / math.sqrt(2)))

    return Cdf()


def _q(kind, p):
    from scipy import stats

    return {"logistic": stats.logistic, "student2": stats.t(2), "gauss": stats.norm}[kind].ppf(p)


@st.composite
def tail_cases(draw):
    n = draw(ints(1, 3))
    return dict(
        kind=draw(pick("logistic", "student2", "gauss")),
        loc=draw(st.lists(fl(-2.5, 2.5), min_size=n, max_size=n)),
        scale=draw(st.lists(fl(0.6, 1.8), min_size=n, max_size=n)),
        mass=draw(st.one_of(fl(0.02, 0.6), pick(0.05, 0.1, 0.5))),
        side=draw(pick("lower", "upper")),
        wrapped=draw(st.booleans()),
    )


@PROP.sub("search", tail_cases, quick=60, thorough=900, shards=6)
def search(c):
    import torch
    import neuralcompression.functional as ncF
    from neuralcompression.distributions import UniformNoise

    loc, scale = torch.tensor(c["loc"]), torch.tensor(c["scale"])
    d = _only_cdf(c["kind"], loc, scale)
    f = ncF.lower_tail if c["side"] == "lower" else ncF.upper_tail
    x = f(d, c["mass"])
    ensure(tuple(x.shape) == tuple(loc.shape), f"shape {tuple(x.shape)}")
    ensure(not x.requires_grad, "result carries a gradient")
    p = c["mass"] / 2 if c["side"] == "lower" else 1 - c["mass"] / 2
    want = np.array(c["loc"]) + np.array(c["scale"]) * _q(c["kind"], p)
    close(x, want, 0.0, 0.12, f"{c['side']} tail quantile of {c['kind']}")
    return Info(len(c["loc"]) > 1 or abs(c["loc"][0]) > 0.1, c["side"], c["kind"])


@st.composite
def icdf_cases(draw):
    n = draw(ints(1, 4))
    return dict(
        name=draw(pick("Normal", "Laplace", "Uniform", "Cauchy", "NoisyNormal")),
        loc=draw(st.lists(fl(-20, 20), min_size=n, max_size=n)),
        scale=draw(st.lists(fl(0.05, 10), min_size=n, max_size=n)),
        mass=draw(st.one_of(fl(1e-4, 1.0), fl(8e-7, 2e-5), pick(2**-8, 0.01, 0.5, 1e-6))),
        side=draw(pick("lower", "upper")),
    )


@PROP.sub("inverse", icdf_cases, quick=300, thorough=5000)
def inverse(c):
    import torch
    import torch.distributions as D
    from scipy import stats
    import neuralcompression.functional as ncF
    from neuralcompression.distributions import NoisyNormal

    loc, scale = torch.tensor(c["loc"]), torch.tensor(c["scale"])
    L, S = loc.double().numpy(), scale.double().numpy()
    n = c["name"]
    method = None
    if n == "Uniform":
        d, r = D.Uniform(loc, loc + scale), stats.uniform(L, (loc + scale).double().numpy() - L)
    elif n == "NoisyNormal":
        d, r = NoisyNormal(loc, scale), stats.norm(L, S)
    else:
        d, r = getattr(D, n)(loc, scale), {"Normal": stats.norm, "Laplace": stats.laplace, "Cauchy": stats.cauchy}[n](L, S)
    if n == "NoisyNormal":
        x = getattr(d, c["side"] + "_tail")(c["mass"])
    else:
        x = getattr(ncF, c["side"] + "_tail")(d, c["mass"])
    ensure(x.numel() == len(c["loc"]), f"shape {tuple(x.shape)}")
    p = r.cdf(x.double().numpy().reshape(-1))
    tgt = c["mass"] / 2 if c["side"] == "lower" else 1 - c["mass"] / 2
    # float32: the probability is rounded once, the location once more, where the density tells what that costs
    xs = x.double().numpy().reshape(-1)
    tol = 3e-7 + 1e-3 * c["mass"] + 1e-6 * (np.abs(L) + np.abs(xs) + S) * r.pdf(xs)
    close((p - tgt) / tol, np.zeros(len(c["loc"])), 0, 1.0, f"mass beyond the {c['side']} tail of {n} (error/tolerance)")
    return Info(len(c["loc"]) > 1 or abs(c["loc"][0]) > 0.1, n, c["side"])


@PROP.sub(
    "solver",
    lambda: fixed(fn=pick("linear", "tanh", "cubic", "neg"), roots=st.lists(fl(-3, 3), min_size=1, max_size=5), gain=fl(0.5, 2.0), two_d=st.booleans(), dtype=pick("float32", "float64")),
    quick=60, thorough=900, shards=6,
)
def solver(c):
    import torch
    from neuralcompression.functional import estimate_tails

    dt = DT(c["dtype"])
    r = torch.tensor(c["roots"], dtype=dt)
    if c["two_d"]:
        r = torch.stack([r, -r])
    g = c["gain"]
    tgt = 0.25

    def f(x):
        u = g * (x - r)
        if c["fn"] == "linear":
            return u + tgt
        if c["fn"] == "tanh":
            return torch.tanh(u / 3) + tgt
        if c["fn"] == "cubic":
            return u + 0.1 * u**3 + tgt
        return -u + tgt

    x = estimate_tails(f, tgt, r.shape, "cpu", dt)
    ensure(tuple(x.shape) == tuple(r.shape), "shape")
    ensure(x.dtype == dt, f"dtype {x.dtype}")
    close(x, r, 0.0, 0.12, f"solution of f(x) = target for {c['fn']}")
    return Info(len(c["roots"]) > 1 or abs(c["roots"][0]) > 0.05, c["fn"])


@PROP.sub(
    "offset",
    lambda: fixed(name=pick("Normal", "Laplace", "Uniform", "Exponential", "Gamma", "none", "NoisyNormal"), loc=st.lists(st.one_of(fl(-100, 100), ints(-9, 9).map(float), ints(-9, 9).map(lambda v: v + 0.5)), min_size=1, max_size=6), grad=st.booleans()),
    quick=300, thorough=5000,
)
def offset(c):
    import torch
    import torch.distributions as D
    import neuralcompression.functional as ncF
    from neuralcompression.distributions import NoisyNormal

    loc = torch.tensor(c["loc"], dtype=torch.float32, requires_grad=c["grad"])
    n = c["name"]
    one = torch.ones_like(loc)
    if n == "none":

        class Bare(D.Distribution):
            arg_constraints = {}

        d = Bare(torch.Size([len(c["loc"])]), validate_args=False)
        off = ncF.quantization_offset(d)
        ensure(bool((torch.as_tensor(off) == 0).all()), f"offset {off} for a distribution without a mean")
        torch.broadcast_to(torch.as_tensor(off), d.batch_shape)
        return Info(True, n)
    if n == "Uniform":
        d = D.Uniform(loc - 1, loc + 1)
    elif n == "Exponential":
        d = D.Exponential(1 / (loc.abs() + 0.1))
    elif n == "Gamma":
        d = D.Gamma(loc.abs() + 0.1, one)
    elif n == "NoisyNormal":
        d = NoisyNormal(loc, one)
    else:
        d = getattr(D, n)(loc, one)
    off = d.quantization_offset if n == "NoisyNormal" else ncF.quantization_offset(d)
    m = d.mean.detach()
    ensure(tuple(off.shape) == tuple(m.shape), "shape")
    ensure(not off.requires_grad, "gradient flows through the offset")
    ensure(bool((off.abs() <= 0.5).all()), f"offset outside [-0.5, 0.5]: {off}")
    k = m.double() - off.double()
    close(k, torch.round(k), 0, 1e-5 * (1 + float(m.abs().max())), "mean - offset is not an integer")
    # a value at the mean is reproduced by round(x - offset) + offset
    q = torch.round(m - off) + off
    close(q, m, 1e-6, 1e-5, "the mean is not a bin centre")
    return Info(True, n)
