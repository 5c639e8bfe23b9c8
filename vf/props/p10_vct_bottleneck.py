"""P10: the VCT bottleneck codes losslessly around the mean, and its likelihoods are the rate it pays."""
import math

import hypothesis.strategies as st

from ..core import Info, Prop, close, ensure, equal, raises, rnd
from ..gen import fixed, fl, ints, pick, seeds
from .. import vct

PROP = Prop(
    "P10",
    "cases = table geometry (means x scales x minimum scale x tail mass) x tensors of means, raw scales and "
    "inputs (offsets from the mean from none to far outside the coding tables); oracles = exact integer "
    "arithmetic, the Gaussian mass of the coded bin in float64, and the byte length of the strings; "
    "non-trivial = at least two distinct coded residuals (roundtrip), at least 200 estimated bits (rate)",
)

# the default geometry is 0; its 25600 tables make one compress() take about a second
GEOM = [(256, 100, 0.01, 2**-8), (64, 10, 0.11, 2**-8), (40, 1, 0.05, 2**-6), (16, 7, 0.3, 2**-10), (8, 2, 0.01, 2**-8), (256, 3, 0.01, 2**-8), (64, 40, 0.01, 2**-8)]


@st.composite
def cases(draw, spread=None, geoms=(1, 2, 3, 4, 5)):
    # (compressai's range coder overruns its buffer below four symbols per string)
    return dict(
        geom=draw(pick(*geoms)),
        shape=[draw(ints(1, 3)), draw(ints(4, 8))] + draw(st.lists(ints(1, 6), max_size=2)),
        seed=draw(seeds), mspan=draw(pick(3.0, 50.0, 0.4, 1000.0, 0.0)),
        sspan=draw(pick(1.0, 20.0, 100.0, 0.0)), sbias=draw(fl(-30.0, 30.0)),
        spread=spread or draw(pick(2.0, 30.0, 0.3, 2000.0, 0.0)), like=draw(st.booleans()),
        halves=draw(pick(False, False, True)),
    )


def tensors(c, sh=None):
    import torch

    sh = sh or c["shape"]
    means = rnd(sh, c["seed"], "symmetric", scale=c["mspan"])
    if c["halves"]:  # means near the rounding boundaries
        means = torch.floor(means) + 0.5 + rnd(sh, c["seed"] + 3, "symmetric", scale=1e-3)
    scales = rnd(sh, c["seed"] + 1, "symmetric", scale=c["sspan"]) + c["sbias"]
    z = rnd(sh, c["seed"] + 2, "normal")
    if c["like"]:  # inputs distributed as the model believes
        x = means + z * vsp(scales)
    else:
        x = means + z * c["spread"]
    return means, scales, x.clamp(-30000, 30000)


def vsp(x):
    import torch

    return torch.where(x > 0, x + 1, 1 / (1 - x.clamp(max=0)))


def snap(x, m):
    """keep inputs away from rounding ties of x - round(m), where either neighbour is right"""
    import torch

    r = x - torch.round(m)
    f = r - torch.floor(r)
    return torch.where((f - 0.5).abs() < 1e-2, x + 0.05, x)


@PROP.sub("roundtrip", lambda: cases(), quick=600, thorough=9000)
def roundtrip(c):
    return _roundtrip(c)


@PROP.sub("roundtrip_default", lambda: cases(geoms=(0,)), quick=12, thorough=120, shards=3)
def roundtrip_default(c):
    """the geometry the video codec uses"""
    c["shape"][0] = 1
    return _roundtrip(c)


def _roundtrip(c):
    import torch

    b = vct.bottleneck(*GEOM[c["geom"]])
    means, scales, x = tensors(c)
    x = snap(x, means)
    keep = [t.clone() for t in (means, scales, x)]
    q, strings = b.compress(x, scales, means)
    for t, k, n in zip((means, scales, x), keep, ("means", "scales", "inputs")):
        equal(t, k, f"compress modified its {n}")
    ensure(len(strings) == x.shape[0], f"{len(strings)} strings for a batch of {x.shape[0]}")
    ensure(all(isinstance(s, bytes) for s in strings), "strings are bytes")
    exp = torch.round(x.double() - torch.round(means).double()) + torch.round(means).double()
    equal(q, exp, "quantised tensor is not input rounded around the rounded mean")
    ensure(float((q.double() - x.double()).abs().max()) <= 0.5 + 1e-2, "quantisation error above one half")
    equal(q, torch.round(q), "quantised values are not integers")
    d = b.decompress([bytes(s) for s in strings], scales, means)
    equal(d, q, "decompressed differs from the quantised tensor")
    f, lik = b(x, scales, means, training=False)
    b.train(c["seed"] % 2 == 1)  # an explicit mode wins over the module's, an omitted one follows it
    f1, lik1 = b(x, scales, means, training=False)
    b.eval()
    f2, lik2 = b(x, scales, means)
    for a in (f1, f2):
        equal(a, f, "the evaluated output depends on how evaluation is requested")
    for a in (lik1, lik2):
        equal(a, lik, "the evaluated likelihood depends on how evaluation is requested")
    equal(f, q, "evaluated forward pass differs from what is transmitted")
    ensure(tuple(lik.shape) == tuple(x.shape), "likelihood shape")
    ensure(bool(((lik > 0) & (lik <= 1)).all()), "likelihood outside (0, 1]")
    # per-item independence: the string of item k is what compressing it alone gives
    k = c["seed"] % x.shape[0]
    q1, s1 = b.compress(x[k : k + 1], scales[k : k + 1], means[k : k + 1])
    ensure(s1[0] == strings[k], "the string of an item depends on its batch mates")
    res = (q - torch.round(means)).unique().numel()
    return Info(res > 1, f"geom{c['geom']}", "far" if float((x - means).abs().max()) > 200 else "near")


@PROP.sub("portable", lambda: cases(), quick=60, thorough=500, shards=4)
def portable(c):
    """Strings decode in a separate instance restored from the state dict, or updated by itself."""
    geom = GEOM[c["geom"]]
    b = vct.bottleneck(*geom)
    means, scales, x = tensors(c)
    x = snap(x, means)
    q, strings = b.compress(x, scales, means)
    other = vct.bottleneck(*geom, fresh=True)
    equal(other.decompress(list(strings), scales, means), q, "a freshly built decoder disagrees")
    ensure(other.update(force=False) is False, "update(force=False) on built tables must not rebuild")
    ensure(other.update(force=True) is True, "update(force=True) must report a rebuild")
    equal(other.decompress(list(strings), scales, means), q, "decoder disagrees after a forced rebuild")
    return Info(True, f"geom{c['geom']}")


def mass(v, mean, scale):
    """P(v - 1/2 < N(mean, scale) < v + 1/2) in float64, accurate in both tails"""
    import torch

    a = (v - mean).abs()
    s2 = scale * math.sqrt(2.0)
    return 0.5 * (torch.erfc((a - 0.5) / s2) - torch.erfc((a + 0.5) / s2))


ALL = tuple(range(len(GEOM)))


@PROP.sub("likelihood", lambda: cases(geoms=ALL), quick=600, thorough=9000)
def likelihood(c):
    """Evaluated likelihood = Gaussian mass of the bin at the grid-rounded scale and the clamped mean offset."""
    import torch

    ns, nm, smin, tail = GEOM[c["geom"]]
    b = vct.bottleneck(ns, nm, smin, tail)
    means, scales, x = tensors(c)
    x = snap(x, means)
    q, lik = b(x, scales, means, training=False)
    v = (q - torch.round(means)).double()
    frac = (means - torch.round(means)).double()
    mi = ((frac + 0.5) * nm).clamp(0, nm - 1)
    mu = mi / nm - (0.5 if nm != 1 else 0.0)
    step = math.log(256.0 / smin + 1) / (ns - 1)
    idx = torch.log(vsp(scales.double()) / smin + 1) / step
    cands = [torch.round(idx - 1e-3).clamp(0, ns - 1), torch.round(idx + 1e-3).clamp(0, ns - 1)]
    ms = [mass(v, mu, smin * torch.exp(i * step)).clamp(min=1e-9) for i in cands]
    low, high = torch.minimum(*ms), torch.maximum(*ms)
    ld = lik.double()
    bad = (ld < low * (1 - 5e-3) - 2e-6) | (ld > high * (1 + 5e-3) + 2e-6)
    if bool(bad.any()):
        i = tuple(int(t) for t in bad.nonzero()[0])
        raise AssertionError(f"likelihood {float(ld[i])} of residual {float(v[i])}, expected {float(low[i])}..{float(high[i])} (mean offset {float(frac[i])}, scale index {float(idx[i])})")
    return Info(float(low.min()) < 0.9, f"geom{c['geom']}", "tail" if float(low.min()) <= 1e-8 else "bulk")


@st.composite
def one_dist(draw):
    return dict(geom=draw(ints(0, len(GEOM) - 1)), m=draw(fl(-20, 20)), s=draw(fl(-40, 12)))


@PROP.sub("normalised", one_dist, quick=300, thorough=4000)
def normalised(c):
    """Over all integers the likelihoods of one (mean, scale) sum to one and peak next to the mean."""
    import torch

    b = vct.bottleneck(*GEOM[c["geom"]])
    sig = float(vsp(torch.tensor(c["s"])))
    k = int(8 * (sig + 1)) + 3
    base = round(c["m"])
    x = torch.arange(base - k, base + k + 1, dtype=torch.float32)[None]
    m = torch.full_like(x, c["m"])
    q, lik = b(x, torch.full_like(x, c["s"]), m, training=False)
    equal(q, x, "integers are not fixed points of the quantiser")
    tot = float(lik.double().sum())
    ensure(abs(tot - 1) < 3e-3, f"likelihoods of all integers sum to {tot}")
    top = float(x[0, int(lik[0].argmax())])
    ensure(abs(top - c["m"]) <= 1.0, f"most likely value {top} for mean {c['m']}")
    return Info(True, f"geom{c['geom']}")


@st.composite
def rate_cases(draw):
    c = draw(cases())
    c["shape"] = [1, draw(ints(20, 60)), draw(ints(5, 20))]
    c["like"] = True
    c["geom"] = 6
    c["sbias"] = draw(fl(-6.0, 10.0))
    c["sspan"] = draw(pick(0.0, 2.0))
    c["mspan"] = draw(pick(0.4, 3.0, 50.0))
    return c


@PROP.sub("rate", rate_cases, quick=120, thorough=1500)
def rate(c):
    """The strings' length is the information content of the likelihoods (plus coding overhead)."""
    import torch

    ns, nm, smin, tail = GEOM[c["geom"]]
    b = vct.bottleneck(ns, nm, smin, tail)
    means, scales, x = tensors(c)
    sig = vsp(scales)
    x = means + (x - means).clamp(-2.2 * sig, 2.2 * sig)  # stay inside the coding tables
    x = snap(x, means)
    _, strings = b.compress(x, scales, means)
    _, lik = b(x, scales, means, training=False)
    est = float(-torch.log2(lik.double()).sum())
    paid = 8 * len(strings[0])
    n = x.numel()
    # tables hold floor()ed indices and reserve an escape symbol: a few percent and a constant
    ensure(paid <= est * 1.03 + 0.06 * n + 96, f"paid {paid} bits, likelihoods say {est:.1f} ({n} symbols)")
    ensure(paid >= est * 0.97 - 0.06 * n - 32, f"paid {paid} bits, likelihoods say {est:.1f} ({n} symbols)")
    return Info(est > 200, "narrow" if float(sig.mean()) < 0.5 else "wide")


@PROP.sub("training", lambda: cases(geoms=ALL), quick=300, thorough=4000)
def training(c):
    """Training mode: hard rounding with a straight-through gradient, differentiable noisy likelihoods."""
    import torch

    b = vct.bottleneck(*GEOM[c["geom"]])
    means, scales, x = tensors(c)
    x = snap(x, means).requires_grad_()
    means.requires_grad_(), scales.requires_grad_()
    q, lik = b(x, scales, means, training=True)
    exp = torch.round(x.double() - torch.round(means).double()) + torch.round(means).double()
    close(q, exp, 1e-6, 2e-3, "training output is not the rounded input")
    ensure(bool(((lik > 0) & (lik <= 1)).all()), "likelihood outside (0, 1]")
    w = rnd(x.shape, c["seed"] + 9, "symmetric")
    (gx,) = torch.autograd.grad((q * w).sum(), x, retain_graph=True)
    close(gx, w, 1e-6, 1e-6, "gradient through the quantiser is not the identity")
    g = torch.autograd.grad(torch.log2(lik).sum(), [x, scales, means], allow_unused=True)
    ensure(all(t is not None and bool(torch.isfinite(t).all()) for t in g), "rate gradients missing or not finite")
    q2, lik2 = b(x.detach(), scales.detach(), means.detach(), training=True)
    equal(q2, q, "training output is not deterministic")
    b.train()
    try:
        q3, lik3 = b(x.detach(), scales.detach(), means.detach())
    finally:
        b.eval()
    equal(q3, q, "training output depends on how training is requested")
    return Info(True)


@st.composite
def scaler_cases(draw):
    return dict(bins=draw(ints(2, 300)), lo=draw(fl(1e-3, 2.0)), hi=draw(fl(3.0, 1000.0)),
                vals=draw(st.lists(fl(1e-6, 1.0), min_size=1, max_size=12)))


@PROP.sub("scaler", scaler_cases, quick=400, thorough=6000)
def scaler(c):
    """The log-scale index map is increasing, spans [0, bins-1] on (0, max] and is inverted up to the offset."""
    import torch
    from projects.torch_vct.neural.bottlenecks import Scaler

    s = Scaler(scales_min=c["lo"], scales_max=c["hi"], num_bins=c["bins"])
    v = torch.tensor(sorted(c["vals"]), dtype=torch.float64) * c["hi"]
    i = s.to_scale_idx(v)
    ensure(bool((i[1:] >= i[:-1]).all()), "index not increasing in the scale")
    ensure(float(i.min()) >= -1e-6 and float(i.max()) <= c["bins"] - 1 + 1e-6, f"index outside [0, {c['bins'] - 1}]")
    close(s.from_scale_idx(i), v + c["lo"], 1e-6, 1e-9, "from_scale_idx(to_scale_idx(s)) is not s + minimum")
    r = s.to_scale_idx(v, training=False)
    equal(r, torch.round(r), "evaluation indices are not integers")
    ensure(float((r - i).abs().max()) <= 0.5 + 1e-9, "evaluation index is not the nearest one")
    g = s.from_scale_idx(torch.arange(c["bins"], dtype=torch.float64))
    ensure(bool((g[1:] > g[:-1]).all()), "scale grid not increasing")
    close(g[:1], [c["lo"]], 1e-6, 0, "smallest grid scale")
    close(g[-1:], [c["hi"] + c["lo"]], 1e-6, 0, "largest grid scale")
    raises((AssertionError, ValueError), lambda: s.to_scale_idx(-v), "negative scales accepted")
    return Info(len(set(c["vals"])) > 1)


@PROP.sub("softplus", lambda: fixed(vals=st.lists(fl(-1e4, 1e4), min_size=1, max_size=20)), quick=300, thorough=3000)
def softplus(c):
    import torch
    from projects.torch_vct.neural.bottlenecks import GsnConditionalLocScaleShift as G

    x = torch.tensor(sorted(c["vals"]) + [0.0], dtype=torch.float64, requires_grad=True)
    y = G.verysoftplus(x)
    exp = torch.tensor([v + 1 if v > 0 else 1 / (1 - v) for v in x.tolist()], dtype=torch.float64)
    close(y, exp, 1e-9, 0, "softplus")
    ensure(bool((y > 0).all()), "scale not positive")
    (g,) = torch.autograd.grad(y.sum(), x)
    ensure(bool((torch.isfinite(g) & (g >= 0)).all()), "gradient not finite and nonnegative")
    return Info(True)


@st.composite
def index_cases(draw):
    return dict(nm=draw(ints(1, 9)), ns=draw(ints(2, 30)), smin=draw(fl(0.01, 0.5)), seed=draw(seeds), n=draw(ints(1, 12)), tail=draw(pick(None, 2.0**-8, 2.0**-4, 2.0**-12, 0.1)))


@PROP.sub("tables", index_cases, quick=80, thorough=1200)
def tables(c):
    """Each coding table is a strictly increasing 16-bit CDF of its Gaussian, indexed mean-major."""
    import torch
    from projects.torch_vct.neural.bottlenecks import ContinuousIndexedGaussianConditional as C, GsnConditionalLocScaleShift as G, Scaler

    sc = Scaler(scales_min=c["smin"], num_bins=c["ns"])
    m = C((c["nm"], c["ns"]), scaler=sc, scale_bound=c["smin"], **({} if c["tail"] is None else {"tail_mass": c["tail"]}))
    raises(ValueError, lambda: C((c["nm"], c["ns"] + 1), scaler=sc), "mismatching number of scales accepted")
    raises(ValueError, lambda: C((c["nm"], c["ns"]), scaler=sc, scale_bound=0.0), "scale bound 0 accepted")
    g = G(num_scales=c["ns"], num_means=c["nm"], min_scale=c["smin"])
    z = torch.zeros(1, 3)
    raises(ValueError, lambda: g.compress(z, z, z), "compressing before the tables are built")
    ensure(m.update_tables(force=False) is True, "first update must build the tables")
    ensure(m.update_tables(force=False) is False, "second update without force must not rebuild")
    cdf, ln, off = m.quantized_cdf, m.cdf_length, m.offset
    ensure(cdf.shape[0] == ln.numel() == off.numel() == c["nm"] * c["ns"], "one table per (mean, scale) pair")
    im = torch.arange(c["nm"])[:, None].expand(c["nm"], c["ns"])
    isc = torch.arange(c["ns"])[None].expand(c["nm"], c["ns"])
    idx = m.indexes_to_cdf_indexes(im, isc)
    ensure(sorted(idx.flatten().tolist()) == list(range(c["nm"] * c["ns"])), "table indices are not a bijection")
    step = math.log(256.0 / c["smin"] + 1) / (c["ns"] - 1)
    rs = rnd((c["n"],), c["seed"], "uniform")
    for u in rs.tolist() + [0.0, 0.999999]:
        t = int(u * c["nm"] * c["ns"])
        a, s = divmod(t, c["ns"])
        row = int(idx[a, s])
        L = int(ln[row])
        r = cdf[row, :L].long()
        ensure(int(r[0]) == 0 and int(r[-1]) == 2**16, "table does not run from 0 to 2^16")
        ensure(bool((r[1:] > r[:-1]).all()), "table has a symbol of zero probability")
        p = (r[1:] - r[:-1]).double() / 2**16
        mu = torch.tensor(a / c["nm"] - (0.5 if c["nm"] != 1 else 0.0), dtype=torch.float64)
        sig = torch.tensor(c["smin"] * math.exp(s * step), dtype=torch.float64)
        k = torch.arange(L - 2).double() + int(off[row])
        e = mass(k, mu, sig)
        err = float((p[: L - 2] - e).abs().max())
        ensure(err <= max(2e-3, c["tail"] or 0.0) + L * 2.0**-15, f"table of mean {float(mu)}, scale {float(sig)} is off by {err}")
        # at most half of the tail mass is left out on either side
        half = (c["tail"] or 2.0**-8) / 2 * 1.001 + 1e-7
        below = 0.5 * math.erfc(float((mu - k[0] + 0.5) / sig) / math.sqrt(2)) if L > 2 else 1.0
        above = 0.5 * math.erfc(float((k[-1] + 0.5 - mu) / sig) / math.sqrt(2)) if L > 2 else 1.0
        ensure(below <= half and above <= half, f"the table leaves {below} below and {above} above, at most {half} each allowed")
    return Info(True)


@st.composite
def build_cases(draw):
    return dict(nm=draw(ints(1, 9)), ns=draw(ints(2, 30)), smin=draw(fl(0.01, 0.5)), seed=draw(seeds), n=draw(ints(1, 12)))


@PROP.sub("build_indexes", build_cases, quick=80, thorough=800)
def build_indexes(c):
    """Parameters inside the grid select the table of the first grid point not below them."""
    import torch
    from projects.torch_vct.neural.bottlenecks import ContinuousIndexedGaussianConditional as C, Scaler

    m = C((c["nm"], c["ns"]), scaler=Scaler(scales_min=c["smin"], num_bins=c["ns"]), scale_bound=c["smin"])
    m.update_tables()
    step = math.log(256.0 / c["smin"] + 1) / (c["ns"] - 1)
    u = rnd((4, c["n"]), c["seed"], "uniform", torch.float64)
    for i in range(c["n"]):
        # a point strictly between two grid neighbours (a single-mean grid: below its only point)
        a = int(u[0, i] * max(c["nm"] - 1, 1))
        s = int(u[1, i] * (c["ns"] - 1))
        fa, fs = 0.1 + 0.8 * float(u[2, i]), 0.1 + 0.8 * float(u[3, i])
        mean = (a + fa) / c["nm"] - 0.5 if c["nm"] > 1 else -0.01
        scale = c["smin"] * math.exp((s + fs) * step)
        out = m.build_indexes((torch.tensor([mean]), torch.tensor([scale])))
        row = (a + 1 if c["nm"] > 1 else 0) * c["ns"] + s + 1
        ensure(out.shape == (1,) and int(out[0]) == row, f"table {out.tolist()}, expected {row}")
    sd = m.state_dict()
    if {"_prior_mean", "_prior_scale"} <= set(sd) and sd["_prior_mean"].shape == (c["nm"], c["ns"]):  # the grid points themselves
        out = m.build_indexes((sd["_prior_mean"], sd["_prior_scale"]))
        equal(out.flatten().long(), torch.arange(c["nm"] * c["ns"]), "a grid point does not select its own table")
    return Info(c["nm"] > 1)
