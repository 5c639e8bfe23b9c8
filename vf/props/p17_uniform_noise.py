"""P17: a distribution with additive uniform noise: density = unit-interval mass of the base; samples add fresh noise."""
import hypothesis.strategies as st
import numpy as np

from ..core import Info, Prop, Violation, close, ensure, seed_all
from ..gen import DT, fixed, fl, ints, pick, seeds, values

PROP = Prop(
    "P17",
    "cases = base family x batch parameters x evaluation points (centre to far tail) / sample shapes x seeds; "
    "oracle = scipy interval masses, and an exact order/independence analysis of samples over a point-mass base; "
    "non-trivial = more than one element or a point outside the central mass",
    assumptions=["scipy float64 CDFs", "torch's own base-distribution samplers"],
)
EPS = float(np.finfo(np.float32).eps)


@st.composite
def dens_cases(draw):
    n = draw(ints(1, 3))
    return dict(
        name=draw(pick("NoisyNormal", "Normal", "Normal", "Laplace", "Uniform", "Cauchy")),
        loc=draw(st.lists(fl(-4, 4), min_size=n, max_size=n)),
        scale=draw(st.lists(st.one_of(fl(0.3, 5), fl(0.1, 30)), min_size=n, max_size=n)),
        k=draw(values(st.one_of(fl(-2, 2), fl(-8, 8), fl(-25, 25), ints(-6, 6).map(float)), 1, 10)),
    )


def base(c):
    import torch
    import torch.distributions as D
    from scipy import stats

    loc, scale = torch.tensor(c["loc"]), torch.tensor(c["scale"])
    L, S = loc.double().numpy(), scale.double().numpy()
    n = c["name"]
    if n in ("Normal", "NoisyNormal"):
        return D.Normal(loc, scale), stats.norm(L, S), L, S
    if n == "Laplace":
        return D.Laplace(loc, scale), stats.laplace(L, S), L, S
    if n == "Cauchy":
        return D.Cauchy(loc, scale), stats.cauchy(L, S), L, S
    if n == "Gumbel":
        return D.Gumbel(loc, scale), stats.gumbel_r(L, S), L, S
    hi = loc + scale
    return D.Uniform(loc, hi, validate_args=False), stats.uniform(L, hi.double().numpy() - L), L, S


def mk(c):
    from neuralcompression.distributions import NoisyNormal, UniformNoise

    d, r, L, S = base(c)
    if c["name"] == "NoisyNormal":
        import torch

        return NoisyNormal(torch.tensor(c["loc"]), torch.tensor(c["scale"])), r, L, S
    return UniformNoise(d), r, L, S


def interval(r, x):
    a, b = r.cdf(x - 0.5), r.cdf(x + 0.5)
    sa, sb = r.sf(x - 0.5), r.sf(x + 0.5)
    return np.where(sb < b, sa - sb, b - a)


@PROP.sub("prob", dens_cases, quick=600, thorough=15000)
def prob(c):
    import torch

    d, r, L, S = mk(c)
    x = torch.tensor(c["loc"]) + torch.tensor(c["k"])[:, None]
    xd = x.double().numpy()
    p = interval(r, xd)
    got = d.prob(x)
    ensure(tuple(got.shape) == p.shape, f"prob shape {tuple(got.shape)}")
    z = np.abs(xd - L) / S
    atol = 60 * EPS + 8 * EPS * ((np.abs(xd) + np.abs(L) + 1) / S)
    close(np.abs(got.double().numpy() - p) / atol, np.zeros_like(p), 0, 1.0, f"prob[{c['name']}] error / tolerance")
    ensure(bool((got >= -1e-6).all()), "negative density")
    if c["name"] in ("Normal", "NoisyNormal"):  # above the mean the mass is a difference of survival functions: relatively accurate
        from scipy.special import log_ndtr

        zp, zm = (xd + 0.5 - L) / S, (xd - 0.5 - L) / S
        la, lb = log_ndtr(-zm), log_ndtr(-zp)
        zz = (np.abs(xd - L) + 0.5) / S
        dz = EPS * ((np.abs(xd) + np.abs(L) + 1) / S + zz + 1)
        with np.errstate(all="ignore"):
            e = 4e-6 * (2 + np.abs(la)) + 4 * (zz + 2) * dz
            ratio = np.exp(lb - la)
            rel = 2 * e * (1 + 2 * ratio / np.maximum(1 - ratio, 1e-12)) + 2e-5
        use = (xd > L) & (p > 1e-32) & (rel < 0.3)
        bad = use & ~(np.abs(got.double().numpy() - p) <= rel * p)
        if bad.any():
            i = tuple(int(v) for v in np.argwhere(bad)[0])
            raise Violation(f"prob[{c['name']}](x={xd[i]!r}, loc={L[i[-1]]!r}, scale={S[i[-1]]!r}) = {float(got[i])!r}, exact {p[i]!r}, relative tolerance {rel[i]:.2g}")
    return Info(len(c["k"]) > 1 or abs(c["k"][0]) > 1, c["name"])


@PROP.sub("log_prob", dens_cases, quick=700, thorough=15000)
def log_prob(c):
    import torch

    d, r, L, S = mk(c)
    x = torch.tensor(c["loc"]) + torch.tensor(c["k"])[:, None]
    xd = x.double().numpy()
    got = d.log_prob(x).double().numpy()
    ensure(got.shape == xd.shape, "shape")
    z = (np.abs(xd - L) + 0.5) / S
    dz = EPS * ((np.abs(xd) + np.abs(L) + 1) / S + z + 1)
    if c["name"] in ("Normal", "NoisyNormal"):
        from scipy.special import log_ndtr

        zp, zm = (xd + 0.5 - L) / S, (xd - 0.5 - L) / S
        up = log_ndtr(-zp) < log_ndtr(zp)
        a = np.where(up, log_ndtr(-zm), log_ndtr(zp))
        b = np.where(up, log_ndtr(-zp), log_ndtr(zm))
        with np.errstate(all="ignore"):
            exact = a + np.log(-np.expm1(b - a))
            e = 2e-6 * np.abs(a) + 4e-6 * (1 + np.minimum(z, 16)) + 4 * (z + 2) * dz
            ratio = np.exp(b - a)
            tol = e + 2 * e * ratio / np.maximum(1 - ratio, 1e-12) + 1e-5
        use = (tol < 0.3) & np.isfinite(exact)
    else:
        p = interval(r, xd)
        err = 60 * EPS + 8 * EPS * ((np.abs(xd) + np.abs(L) + 1) / S)
        with np.errstate(all="ignore"):
            exact = np.log(p)
            tol = 4 * err / p + 1e-5
        use = (p > 20 * err) & (tol < 0.3)
    bad = use & ~(np.abs(got - exact) <= tol)
    if bad.any():
        i = tuple(int(v) for v in np.argwhere(bad)[0])
        raise Violation(f"log_prob[{c['name']}](x={xd[i]!r}, loc={L[i[-1]]!r}, scale={S[i[-1]]!r}) = {got[i]!r}, exact {exact[i]!r} tol {tol[i]:.2g}")
    return Info(bool(use.any()) and (len(c["k"]) > 1 or abs(c["k"][0]) > 1), c["name"], "far" if bool((use & (z > 6)).any()) else "near")


@PROP.sub("normalised", lambda: fixed(name=pick("Normal", "Laplace", "NoisyNormal"), loc=st.lists(fl(-4, 4), min_size=1, max_size=2), s=fl(0.2, 4), off=fl(-0.5, 0.5)), quick=100)
def normalised(c):
    import torch

    cc = dict(c, scale=[c["s"]] * len(c["loc"]))
    d, r, L, S = mk(cc)
    grid = torch.arange(-140, 141).float()[:, None] + c["off"] + torch.zeros(len(c["loc"]))
    total = d.prob(grid).double().sum(0)
    close(total, np.ones(len(c["loc"])), 0, 1e-4, "integer-spaced masses do not sum to one")
    return Info(True, c["name"])


def _point(value, event_dims=0):
    import torch
    from torch.distributions import Distribution, constraints

    class Point(Distribution):
        arg_constraints = {}
        support = constraints.real
        has_rsample = True

        def __init__(self, v):
            k = v.dim() - event_dims
            super().__init__(v.shape[:k], v.shape[k:], validate_args=False)
            self.v = v

        def sample(self, sample_shape=torch.Size()):
            return self.v.expand(tuple(sample_shape) + tuple(self.v.shape)).clone()

        rsample = sample

        def expand(self, batch_shape, _instance=None):
            return Point(self.v.expand(tuple(batch_shape) + tuple(self.event_shape)))

    return Point(value)


@PROP.sub(
    "samples",
    lambda: fixed(batch=st.lists(ints(1, 5), max_size=3), event=ints(0, 2), sample=st.lists(ints(1, 6), max_size=2), seed=seeds, loc=fl(-50, 50), expand=pick(0, 0, 1, 3)),
    quick=500, thorough=10000,
)
def samples(c):
    import torch
    from neuralcompression.distributions import UniformNoise

    shape = tuple(c["batch"])
    v = torch.full(shape, c["loc"]) + torch.arange(int(np.prod(shape, initial=1))).reshape(shape) * 2.0
    ev = min(c["event"], len(shape))
    b = _point(v, ev)
    d = UniformNoise(b)
    ensure(tuple(d.batch_shape) == tuple(b.batch_shape), f"batch shape {tuple(d.batch_shape)} != {tuple(b.batch_shape)}")
    ensure(tuple(d.event_shape) == tuple(b.event_shape), f"event shape {tuple(d.event_shape)} != {tuple(b.event_shape)}")
    if c["expand"]:
        nb = (c["expand"],) + tuple(b.batch_shape)
        d = d.expand(torch.Size(nb))
        ensure(tuple(d.batch_shape) == nb, f"expanded batch shape {tuple(d.batch_shape)} != {nb}")
        v = v.expand(nb + tuple(b.event_shape))
    ss = torch.Size(c["sample"])
    seed_all(c["seed"] % (2**31))
    s1 = d.rsample(ss)
    s2 = d.sample(ss)
    want = tuple(ss) + tuple(v.shape)
    for s in (s1, s2):
        ensure(tuple(s.shape) == want, f"sample shape {tuple(s.shape)} != {want}")
        r = (s.double() - v.double()).reshape(-1).numpy()
        ensure(np.all(np.abs(r) <= 0.5 + 1e-5), f"noise outside [-0.5, 0.5]: {r.min()}..{r.max()}")
        if r.size > 1:
            # distinct draws per element: a float32 uniform repeats with probability ~2^-20 here
            q = np.unique(np.round(r, 5)).size
            ensure(q >= max(2, int(0.5 * r.size)), f"{r.size} elements share {q} noise values")
    r1, r2 = (s1 - v).reshape(-1), (s2 - v).reshape(-1)
    ensure(not torch.equal(r1, r2), "two draws returned identical noise")
    return Info(s1.numel() > 1, f"n{min(s1.numel(), 64)//16*16}+", "expanded" if c["expand"] else "plain")


@PROP.sub("sample_law", lambda: fixed(name=pick("NoisyNormal", "Normal", "Laplace", "Uniform"), loc=fl(-3, 3), s=fl(0.05, 3), seed=seeds), quick=60, thorough=600,
          rule="Kolmogorov-Smirnov distance of 4000 samples to the exact convolution; alarm only below p ~ 1e-12")
def sample_law(c):
    import torch
    from scipy import integrate

    cc = dict(c, loc=[c["loc"]], scale=[c["s"]])
    d, r, L, S = mk(cc)
    seed_all(c["seed"])
    n = 4000
    s = np.sort(d.sample(torch.Size([n])).double().numpy().reshape(-1))
    # CDF of base + U(-1/2, 1/2): average of the base CDF over [x - 1/2, x + 1/2]
    q = (np.arange(400) + 0.5) / 400 - 0.5
    F = r.cdf(s[:, None] + q[None, :]).mean(1)
    emp = (np.arange(n) + 0.5) / n
    D = np.abs(F - emp).max()
    ensure(D < 0.06, f"samples of {c['name']}({c['loc']}, {c['s']}) + noise: KS distance {D:.3f}")
    return Info(True, c["name"])
