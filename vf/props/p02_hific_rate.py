"""P02: the rate the image codec reports is the rate it pays; quantised outputs are genuine quantisations."""
import hypothesis.strategies as st
import numpy as np

from ..core import Info, Prop, Violation, close, ensure, equal, rnd
from ..gen import fixed, fl, ints, pick, seeds, weighted
from ..models import hific_cfgs, image, make_hific

PROP = Prop(
    "P02",
    "cases = model weights (entropy parameters matched to the latent spread) x images; oracle = the byte length of the strings "
    "the codec emits, and the quantisation lattice; non-trivial = an estimate of at least 100 bits per image",
    preload=lambda: __import__("neuralcompression.models"),
    assumptions=["compressai's range coder is within 4% + 12 bytes of the ideal code length for in-range symbols"],
)


@st.composite
def cases(draw):
    c = draw(hific_cfgs())
    c.update(b=draw(ints(1, 2)), h=64 * draw(ints(1, 2)), w=64 * draw(ints(1, 2)), seed=draw(seeds), kind=draw(pick("uniform", "uniform", "levels", "ramp", "binary")))
    c["ge"] = draw(fl(1.0, 5.0))
    if draw(pick(0, 0, 1)):  # latents that hardly leave their mean: nearly free, if the coder really uses the stated scale
        c.update(ge=draw(fl(0.02, 0.8)), sigma=draw(fl(0.02, 0.5)), gs=draw(fl(0.0, 0.3)), mu=draw(pick(0.0, 0.1, 0.4)), lat=draw(ints(4, 24)), h=128, w=128)
    return c


def _bits(p):
    return -np.log2(p.detach().double().numpy().clip(1e-300)).reshape(p.shape[0], -1).sum(1)


@PROP.sub("eval", cases, quick=140, thorough=2500, shards=8)
def evaluated(c):
    import torch

    m = make_hific(c)
    x = image(c, c["b"], c["cin"], c["h"], c["w"])
    with torch.no_grad():
        o = m(x)
        comp = m.compress(x)
        o2 = m(x)
    for name in ("image", "latent", "latent_likelihoods", "hyper_latent", "hyper_latent_likelihoods"):
        close(getattr(o2, name), getattr(o, name), 0, 1e-6, f"evaluation is not deterministic ({name})")
    sl = (c["b"], c["lat"], c["h"] // 16, c["w"] // 16)
    sh = (c["b"], c["hyp"], c["h"] // 64, c["w"] // 64)
    ensure(tuple(o.image.shape) == tuple(x.shape), "reconstruction shape")
    for n, s in (("latent", sl), ("latent_likelihoods", sl), ("quantized_latent_likelihoods", sl), ("hyper_latent", sh), ("hyper_latent_likelihoods", sh), ("quantized_hyper_latent_likelihoods", sh)):
        ensure(tuple(getattr(o, n).shape) == s, f"{n} shape {tuple(getattr(o, n).shape)} != {s}")
    for n in ("latent_likelihoods", "quantized_latent_likelihoods", "hyper_latent_likelihoods", "quantized_hyper_latent_likelihoods"):
        v = getattr(o, n)
        ensure(bool((v > 0).all() and (v <= 1 + 1e-5).all()), f"{n} outside (0, 1]: {float(v.min())}..{float(v.max())}")
    close(o.latent_likelihoods, o.quantized_latent_likelihoods, 1e-4, 1e-7, "evaluated vs quantised latent likelihood")
    close(o.hyper_latent_likelihoods, o.quantized_hyper_latent_likelihoods, 1e-4, 1e-7, "evaluated vs quantised hyper likelihood")
    # hyper latents sit on one integer lattice per channel
    hl = o.hyper_latent.transpose(0, 1).reshape(c["hyp"], -1).double()
    d = hl - hl[:, :1]
    close(d, torch.round(d), 0, 1e-3 + 1e-6 * float(hl.abs().max()), "hyper latents are not integer spaced")
    # code length vs estimate, when no symbol sits on the likelihood floor (1e-9: escape-coded)
    n_rare = int((o.quantized_latent_likelihoods < 1e-4).sum(dim=(1, 2, 3)).max())
    n_rare_h = int((o.quantized_hyper_latent_likelihoods < 1e-4).sum(dim=(1, 2, 3)).max())
    el, eh = _bits(o.quantized_latent_likelihoods), _bits(o.quantized_hyper_latent_likelihoods)
    al = np.array([8 * len(s) for s in comp.latent_strings])
    ah = np.array([8 * len(s) for s in comp.hyper_latent_strings])
    pr = _entropy_params(m, o)
    if n_rare == 0 and pr is not None:
        # the coder's table has about 60 scales, 13% apart: bounds of the cost over neighbouring scales
        cost = np.stack([-np.log2(_gauss_mass(o.latent, pr[0], pr[1] * f)) for f in (0.87, 0.93, 1.0, 1.07, 1.15)]).reshape(5, c["b"], -1)
        n = cost.shape[-1]
        lo, hi = cost.min(0).sum(1) - 8 - 0.01 * n, cost.max(0).sum(1) + 80 + 0.01 * n
        ensure(np.all((al >= lo) & (al <= hi)), f"latent: {al} bits paid, between {lo} and {hi} expected at the stated scales")
    elif n_rare == 0:
        ensure(np.all(np.abs(al - el) <= 0.05 * el + 100), f"latent: {al} bits paid, {el} bits reported")
    if n_rare_h == 0 and float(hl.abs().max()) <= 8:  # beyond +-10 (untrained quantiles) symbols are escape-coded
        ensure(np.all(np.abs(ah - eh) <= 0.05 * eh + 100), f"hyper latent: {ah} bits paid, {eh} bits reported")
    return Info(float(el.min()) >= 100 and n_rare == 0, "exact-rate" if n_rare == 0 else "escapes", "hyper-spread" if float(d.abs().max()) > 0 else "hyper-flat")


def _entropy_params(m, o):
    """mean and scale the decoder derives from the transmitted hyper latent (None when not exposed)"""
    import torch

    mean, scale = getattr(m, "hyper_synthesis_mean", None), getattr(m, "hyper_synthesis_scale", None)
    if mean is None or scale is None:
        return None
    with torch.no_grad():
        return mean(o.hyper_latent.detach()), scale(o.hyper_latent.detach())


def _gauss_mass(q, mu, sigma):
    from scipy.special import ndtr

    v = np.abs((q - mu).double().numpy())
    s = np.maximum(sigma.double().numpy(), 0.11)
    return np.maximum(ndtr((0.5 - v) / s) - ndtr((-0.5 - v) / s), 1e-9)


@PROP.sub("model", cases, quick=80, thorough=1200, shards=6,
          rule="likelihoods equal the Gaussian mass of the quantisation bin; latents sit on mean + integers, within half a bin of the encoder output")
def model(c):
    import torch

    m = make_hific(c)
    c = dict(c, h=64, w=64)
    x = image(c, c["b"], c["cin"], 64, 64)
    with torch.no_grad():
        y = m.encoder(x)
    for mode in ("eval", "train"):
        m.train(mode == "train")
        torch.manual_seed(c["seed"])
        with torch.no_grad():
            o = m(x)
        pr = _entropy_params(m, o)
        if pr is None:
            return Info(False, "not-exposed")
        mu, sg = pr
        k = (o.latent - mu).double()
        t = 1e-4 * (1 + float(o.latent.abs().max()) + float(mu.abs().max()))
        close(k, torch.round(k), 0, t, f"{mode}: latent is not mean + integer")
        ensure(float((o.latent - y).abs().max()) <= 0.5 + t, f"{mode}: quantisation moved a latent by more than half a bin")
        exp = _gauss_mass(o.latent, mu, sg)
        close(o.quantized_latent_likelihoods, exp, 2e-2, 2e-5, f"{mode}: likelihood of the quantised latents")
        img = m.decoder(o.latent)
        close(o.image, img, 1e-4, 1e-4, f"{mode}: the decoder did not see the quantised latents")
        eb = getattr(m, "hyper_bottleneck", None)
        if eb is not None:
            with torch.no_grad():
                exp = eb(o.hyper_latent, training=False)[1]
            close(o.quantized_hyper_latent_likelihoods, exp, 1e-4, 1e-7, f"{mode}: likelihood of the quantised hyper latents")
    return Info(True)


@PROP.sub("train", cases, quick=70, thorough=1000, shards=6)
def train(c):
    import torch

    m = make_hific(c)
    c = dict(c, h=64, w=64)
    x = image(c, c["b"], c["cin"], c["h"], c["w"])
    with torch.no_grad():
        ev = m(x)
    m.train()
    torch.manual_seed(c["seed"])
    a = m(x)
    torch.manual_seed(c["seed"])
    b = m(x)
    close(a.image, b.image, 1e-5, 1e-5, "same noise, different result")
    for n in ("quantized_latent_likelihoods", "quantized_hyper_latent_likelihoods"):
        ensure(not getattr(a, n).requires_grad, f"{n} carries a gradient")
    for n in ("latent_likelihoods", "hyper_latent_likelihoods", "image"):
        ensure(getattr(a, n).requires_grad, f"{n} carries no gradient")
    for n in ("latent_likelihoods", "quantized_latent_likelihoods", "hyper_latent_likelihoods", "quantized_hyper_latent_likelihoods"):
        v = getattr(a, n)
        ensure(bool((v > 0).all() and (v <= 1 + 1e-5).all()), f"{n} outside (0, 1]")
    # training noise on the hyper latent is additive uniform within half a bin of the unquantised value
    ensure(float((a.hyper_latent - ev.hyper_latent).abs().max()) <= 1.0 + 1e-3 * (1 + float(ev.hyper_latent.abs().max())), "training noise beyond one bin")
    # the decoder sees hard-quantised latents; the gradient passes straight through to the encoder
    (a.image.square().mean() - torch.log(a.latent_likelihoods).mean() - torch.log(a.hyper_latent_likelihoods).mean()).backward()
    for n, p in m.named_parameters():
        if n.endswith("quantiles") or not p.requires_grad:
            continue
        ensure(p.grad is not None, f"no gradient reaches {n}")
    g = sum(float(p.grad.abs().sum()) for n, p in m.named_parameters() if n.startswith("encoder") and p.grad is not None)
    ensure(g > 0, "no gradient reaches the encoder")
    m.zero_grad()
    seen = []
    hook = m.encoder.register_forward_hook(lambda mod, i, o: seen.append(o))
    o = m(x)
    hook.remove()
    loss = (o.image * rnd(o.image.shape, c["seed"])).sum()
    if len(seen) == 1 and o.latent.requires_grad:
        gl, ge = torch.autograd.grad(loss, [o.latent, seen[0]], retain_graph=True, allow_unused=True)
        if gl is not None:
            ensure(ge is not None, "the reconstruction passes no gradient to the encoder output")
            close(ge, gl, 1e-3, 1e-3 * float(gl.abs().max()) + 1e-9, "the image gradient is not passed straight through the quantiser to the encoder")
    loss.backward()
    for n, p in m.named_parameters():
        if n.startswith("hyper") and p.grad is not None:
            ensure(float(p.grad.abs().max()) <= 1e-4 * (1 + float(loss.detach().abs())), f"the reconstruction passes a gradient to {n}")
    g = sum(float(p.grad.abs().sum()) for n, p in m.named_parameters() if n.startswith("encoder") and p.grad is not None)
    ensure(g > 0, "the reconstruction passes no gradient to the encoder")
    return Info(True, f"b{c['b']}")


@PROP.sub("batch", cases, quick=60, thorough=800, shards=4, rule="likelihoods of an image do not depend on its batch mates")
def batch(c):
    import torch

    m = make_hific(c)
    x = image(c, 2, c["cin"], 64, 64)
    with torch.no_grad():
        both, one = m(x), m(x[1:])
    # rounding ties may flip a symbol between batch sizes: compare totals loosely, values mostly
    for n in ("latent_likelihoods", "hyper_latent_likelihoods", "latent"):
        a, b = getattr(both, n)[1:], getattr(one, n)
        frac = float(((a - b).abs() > 1e-3 * (1 + b.abs())).float().mean())
        ensure(frac <= 0.02, f"{n} of an image changes with its batch mates ({frac:.3f} of the elements)")
    return Info(True)
