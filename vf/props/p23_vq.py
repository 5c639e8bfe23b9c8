"""P23: vector quantisation picks the nearest code word, bills it correctly and keeps exact statistics."""
import math

import hypothesis.strategies as st

from ..core import Info, Prop, close, ensure, Unsupported, equal, raises, rnd, viewed
from ..gen import fixed, grown, ints, pick, seeds

PROP = Prop(
    "P23",
    "cases = (batch, latent size, vector length, codebook size, initialisation, latents incl. exact code words and zeros, "
    "histories of forward passes, metric updates and resets); oracle = exhaustive nearest neighbour in float64 and a counting "
    "model; non-trivial = several vectors and at least two code words",
)


def mk(c):
    import torch
    from neuralcompression.layers import VQBottleneck

    torch.manual_seed(c["wseed"] % 1000)
    m = VQBottleneck(c["k"], c["d"], init_distribution=c["init"])
    if c.get("rescale"):
        with torch.no_grad():
            m.codebooks[0].mul_(rnd((c["k"], 1), c["wseed"], "uniform") * 9 + 0.1)
    return m


def latents(c, m, seed):
    import torch
    import torch.nn.functional as F

    x = rnd((c["b"], c["d"], c["h"], c["w"]), seed, scale=c["scale"])
    if c["codes"]:  # some vectors are exact (normalised) code words
        cb = F.normalize(m.codebooks[0].detach(), dim=1)
        pick_ = torch.randint(0, c["k"], (c["b"], c["h"], c["w"]), generator=torch.Generator().manual_seed(seed % 10**6))
        mask = rnd((c["b"], 1, c["h"], c["w"]), seed + 1, "binary")
        x = torch.where(mask > 0, cb[pick_].permute(0, 3, 1, 2), x).contiguous()
    return viewed(x, seed)


def cases():
    return grown(dict(b=ints(1, 3), h=ints(1, 5), w=ints(1, 5), d=ints(1, 6), k=ints(1, 20), seed=seeds, wseed=seeds, init=pick("uniform", "normal"),
                      scale=pick(0.0, 0.05, 1.0, 1.0, 10.0), codes=st.booleans(), rescale=st.booleans(), train=st.booleans()),
                 dict(b=ints(4, 33), h=pick(1, 8, 17), w=pick(1, 16, 33)), dict(k=pick(64, 256, 257, 1024, 1025, 4096)), dict(d=pick(32, 64, 256)), dict(h=pick(64, 71), w=pick(64, 65)))


@PROP.sub("quantise", cases, quick=500, thorough=12000)
def quantise(c):
    import torch
    import torch.nn.functional as F
    from neuralcompression import VqVaeAutoencoderOutput as Out

    m = mk(c).train(c["train"])
    x = latents(c, m, c["seed"]).requires_grad_(True)
    keep = x.detach().clone()
    img = torch.zeros(1)
    o = m(Out(latent=x, image=img))
    equal(x.detach(), keep, "the latent was modified")
    ensure(o.image is img, "another field changed")
    n = c["b"] * c["h"] * c["w"]
    cb = F.normalize(m.codebooks[0].detach().double(), dim=1)
    vec = keep.double().permute(0, 2, 3, 1).reshape(n, c["d"])
    dist = ((vec[:, None, :] - cb[None]) ** 2).sum(-1)
    ensure(tuple(o.indices.shape) == (n,), f"indices {tuple(o.indices.shape)}")
    idx = o.indices
    ensure(bool((idx >= 0).all() and (idx < c["k"]).all()), "index outside the codebook")
    sel = dist[torch.arange(n), idx]
    ensure(bool((sel <= dist.min(1).values * (1 + 1e-4) + 1e-5 * (1 + c["scale"] ** 2)).all()), "a chosen code word is not the nearest")
    close(o.quantize_distances, dist, 1e-4, 1e-4 * (1 + c["scale"] ** 2), "reported distances")
    code = cb[idx].reshape(c["b"], c["h"], c["w"], c["d"]).permute(0, 3, 1, 2)
    close(o.latent, code, 1e-5, 2e-6 * (1 + 5 * c["scale"]), "quantised latent is not the chosen code word")
    close(o.prequantized_latent, keep, 0, 0, "prequantised latent")
    mse = float(((code - keep.double()) ** 2).mean())
    close(o.commitment_loss, mse, 1e-4, 1e-7, "commitment loss")
    close(o.embedding_loss, mse, 1e-4, 1e-7, "embedding loss")
    ensure(isinstance(o.num_bytes, int) and o.num_bytes == int(n * math.log2(c["k"]) / 8), f"num_bytes {o.num_bytes} for {n} indices of {c['k']} codes")
    # gradients: straight through, commitment to the encoder only, embedding to the codebook only
    cot = rnd(o.latent.shape, c["seed"] + 9)
    (g,) = torch.autograd.grad((o.latent * cot).sum(), x, retain_graph=True)
    close(g, cot, 1e-6, 1e-7, "the straight-through gradient is not the identity")
    p = m.codebooks[0]
    gx, gp = torch.autograd.grad(o.commitment_loss, (x, p), retain_graph=True, allow_unused=True)
    close(gx, 2 * (keep.double() - code) / keep.numel(), 1e-4, 1e-6, "commitment gradient")
    ensure(gp is None or float(gp.abs().max()) == 0, "the commitment loss moves the codebook")
    gx, gp = torch.autograd.grad(o.embedding_loss, (x, p), retain_graph=True, allow_unused=True)
    ensure(gx is None or float(gx.abs().max()) == 0, "the embedding loss moves the encoder")
    ensure(gp is not None, "the embedding loss does not reach the codebook")
    # its gradient, per code word, through the normalisation
    pd = p.detach().double().clone().requires_grad_(True)
    e = F.normalize(pd, dim=1)[idx].reshape(c["b"], c["h"], c["w"], c["d"]).permute(0, 3, 1, 2)
    (ge,) = torch.autograd.grad(((e - keep.double()) ** 2).mean(), pd)
    close(gp, ge, 2e-3, 1e-4 * (1 + c["scale"]) / float(pd.detach().norm(dim=1).min() + 1e-9), "embedding gradient")
    # idempotence: a quantised latent is a fixed point
    o2 = m(Out(latent=o.latent.detach()))
    close(o2.latent, o.latent.detach(), 1e-5, 1e-5, "quantising twice changes the latent")
    return Info(n > 1 and c["k"] > 1, f"k{min(c['k'], 3)}")


def hist():
    step = st.one_of(seeds.map(lambda s: {"fwd": s}), st.just({"reset": 1}), st.just({"metrics": 1}), seeds.map(lambda s: {"nograd": s}))
    return grown(dict(b=ints(1, 2), h=ints(1, 4), w=ints(1, 4), d=ints(1, 4), k=ints(1, 12), wseed=seeds, init=pick("uniform", "normal"), scale=pick(0.3, 1.0, 3.0),
                      codes=st.booleans(), ops=st.lists(step, min_size=1, max_size=8), train=st.booleans()),
                 dict(k=pick(64, 257, 1024)), dict(h=pick(33, 64), w=pick(17, 64)), dict(ops=st.lists(step, min_size=20, max_size=40)), dict(b=ints(3, 17)))


@PROP.sub("statistics", hist, quick=300, thorough=6000)
def statistics(c):
    """Hit counters, their summary and reset, over any history."""
    import torch
    from neuralcompression import VqVaeAutoencoderOutput as Out

    m = mk(c).train(c["train"])
    counts = torch.zeros(c["k"], dtype=torch.long)
    fwd = 0
    for o in c["ops"]:
        if "reset" in o:
            m.reset_hits()
            counts.zero_()
        elif "metrics" in o:
            m.update_metrics()
            tot = int(counts.sum())
            close(m.percentage_hits, [float((counts > 0).double().mean())], 1e-6, 1e-7, "share of used code words")
            close(m.max_hits, [float(counts.max())], 1e-6, 0, "largest hit count")
            if tot > 0:
                p = counts.double() / tot
                h = -sum(float(q) * math.log2(float(q)) for q in p if q > 0)
                close(m.perplexities, [2**h], 1e-4, 1e-4, "perplexity")
        else:
            x = latents(c, m, o.get("fwd", o.get("nograd")))
            with torch.set_grad_enabled("fwd" in o):
                r = m(Out(latent=x))
            counts += torch.bincount(r.indices, minlength=c["k"])
            fwd += 1
        close(m.codebook_hits_0, counts, 0, 0, "hit counters")
    names = [n for n, _ in m.named_parameters()]
    ensure(len(names) == 1, f"trainable parameters {names}")
    other = mk(dict(c, wseed=c["wseed"] + 1))
    other.load_state_dict(m.state_dict())
    close(other.codebook_hits_0, counts, 0, 0, "hit counters after restoring the state dict")
    return Info(fwd > 1 and c["k"] > 1, f"ops{len(c['ops'])}")


@PROP.sub("probabilistic", lambda: fixed(b=ints(1, 2), h=ints(1, 4), w=ints(1, 4), d=ints(1, 4), k=ints(1, 8), seed=seeds, wseed=seeds, init=pick("normal"), scale=pick(1.0),
                                         codes=st.booleans(), normalize=st.booleans(), train=st.booleans()), quick=150, thorough=3000)
def probabilistic(c):
    """The generic quantiser: un-normalised codebooks, several levels, random choice weighted by inverse distance."""
    import torch
    import torch.nn.functional as F
    from neuralcompression import VqVaeAutoencoderOutput as Out
    from neuralcompression.layers import VQBottleneck

    QBottleneck = VQBottleneck.__bases__[0]  # the generic quantiser is not exported by name
    if not hasattr(QBottleneck, "quantize_vectors"):
        raise Unsupported("no generic quantiser")
    torch.manual_seed(c["wseed"] % 1000)
    m = QBottleneck([c["k"], c["k"] + 1], [c["d"], c["d"]], init_distribution="normal", normalize_codebook=c["normalize"]).train(c["train"])
    ensure(len(m.codebooks) == 2 and tuple(m.codebooks[1].shape) == (c["k"] + 1, c["d"]), "one codebook per level")
    x = latents(c, m, c["seed"])
    for cb in m.codebooks:
        r = m.quantize_vectors(x, cb)
        q = F.normalize(cb.detach(), dim=1) if c["normalize"] else cb.detach()
        v = x.permute(0, 2, 3, 1).reshape(-1, c["d"])
        dist = ((v[:, None] - q[None]) ** 2).sum(-1)
        sel = dist[torch.arange(len(v)), r.indices]
        ensure(bool((sel <= dist.min(1).values * (1 + 1e-4) + 1e-5).all()), "a chosen code word is not the nearest")
        r = m.quantize_vectors(x, cb, probabilistic=True)
        ensure(bool((r.indices >= 0).all() and (r.indices < cb.shape[0]).all()), "random index outside the codebook")
        close(r.latent, q[r.indices].reshape(c["b"], c["h"], c["w"], c["d"]).permute(0, 3, 1, 2), 1e-5, 1e-5, "random latent is not a code word")
        if c["codes"]:
            exact = dist.min(1).values < 1e-9
            far = dist.sort(1).values[:, min(1, len(q) - 1)] > 1e-2
            hit = r.indices == dist.argmin(1)
            # another code word has odds of about 1e-4 per vector
            ensure(int((~hit[exact & far]).sum()) <= 2, "vectors that equal a code word are assigned to others")
    # per-level statistics: each level summarises its own counters; a reset clears every level
    want = []
    for lvl, cb in enumerate(m.codebooks):
        hits = torch.bincount(m.quantize_vectors(x, cb).indices, minlength=cb.shape[0])
        getattr(m, f"codebook_hits_{lvl}").copy_(hits)
        p = hits.double() / hits.sum()
        want.append((float((hits > 0).double().mean()), float(hits.max()), 2 ** -sum(float(t) * math.log2(float(t)) for t in p if t > 0)))
    m.update_metrics()
    close(m.percentage_hits, [t[0] for t in want], 1e-6, 1e-7, "share of used code words per level")
    close(m.max_hits, [t[1] for t in want], 1e-6, 0, "largest hit count per level")
    close(m.perplexities, [t[2] for t in want], 1e-4, 1e-4, "perplexity per level")
    m.reset_hits()
    for lvl in range(2):
        ensure(int(getattr(m, f"codebook_hits_{lvl}").abs().sum()) == 0, f"level {lvl} keeps its counters after a reset")
    raises(ValueError, lambda: QBottleneck([2], [2], init_distribution="nope"), "unknown initialisation")
    raises(ValueError, lambda: VQBottleneck(4, 2)(Out()), "nothing to quantise")
    return Info(c["k"] > 1)


@PROP.sub("odds", lambda: fixed(d=ints(1, 4), k=ints(2, 6), seed=seeds, wseed=seeds, normalize=st.booleans()), quick=40, thorough=1200)
def odds(c):
    """A random choice picks each code word with odds inverse to its squared distance."""
    import torch
    import torch.nn.functional as F
    from neuralcompression.layers import VQBottleneck

    QBottleneck = VQBottleneck.__bases__[0]
    if not hasattr(QBottleneck, "quantize_vectors"):
        raise Unsupported("no generic quantiser")
    torch.manual_seed(c["wseed"] % 1000)
    m = QBottleneck([c["k"]], [c["d"]], init_distribution="normal", normalize_codebook=c["normalize"])
    q = m.codebooks[0].detach()
    q = F.normalize(q, dim=1) if c["normalize"] else q
    v = rnd((c["d"],), c["seed"])
    n = 4000
    r = m.quantize_vectors(v[None, :, None, None].expand(1, c["d"], 50, n // 50).contiguous(), m.codebooks[0], probabilistic=True)
    w = 1 / (((q - v) ** 2).sum(1).double() + 1e-7)
    p = w / w.sum()
    f = torch.bincount(r.indices, minlength=c["k"]).double() / n
    sd = (p * (1 - p) / n).sqrt()
    bad = (f - p).abs() > 7 * sd + 3 / n
    ensure(not bool(bad.any()), lambda: f"random choice frequencies {f.tolist()} but odds by inverse distance are {p.tolist()}")
    return Info(float(p.max()) < 0.99)
