"""P11: the VCT entropy model is causal and local, decodable without encoder side information, and honest about its rate."""
import hypothesis.strategies as st

from ..core import Info, Prop, close, ensure, equal, raises, rnd
from ..gen import fixed, fl, ints, pick, seeds, weighted
from .. import vct

PROP = Prop(
    "P11",
    "cases = model geometry (channels, context length 1-3, window sizes, layers, heads) with spread-out weights x "
    "latent size (also not divisible by the window) x previous latents; oracles = token-order dependency sets, an "
    "independent decoder that only sees the strings, and the byte counts; non-trivial = a latent of at least two "
    "windows, or a change that must show somewhere",
)


def preload():
    import projects.torch_vct.neural.entropy_model  # noqa: F401

    vct.bottleneck(32, 8, 0.05, 2**-8)


PROP.preload = preload


@st.composite
def cases(draw, batch=2, small=False):
    dec = draw(weighted((12, pick(2, 3, 1, 4) if not small else pick(2, 2, 3, 1)), (1, pick(5))))
    enc = draw(pick(*[k * dec for k in (1, 2, 3) if (k * dec - dec) % 2 == 0 and k * dec <= 8]))
    lo = max(2, (enc - dec) // 2 + dec)  # reflection padding must fit
    heads = draw(pick(1, 2, 4))
    return dict(
        C=draw(ints(2 if not small else 4, 4)), ctx=draw(pick(1, 2, 2, 3)), enc=enc, dec=dec, ls=draw(ints(1, 2)), lj=draw(ints(1, 2)),
        ld=draw(ints(1, 2)), heads=heads, d=heads * draw(pick(4, 8)), gain=draw(fl(0.6, 1.5)),
        wseed=draw(ints(0, 40)), b=draw(ints(1, batch)), h=draw(ints(lo, lo + 5)), w=draw(ints(lo, lo + 5)),
        seed=draw(seeds), amp=draw(pick(3.0, 1.0, 12.0) if small else pick(3.0, 1.0, 12.0, 400.0)), flat=draw(pick(False, False, False, True)), nprev=draw(ints(1, 3)), pos=draw(ints(0, 10**6)),
    )


def latent(c, seed, b=None):
    """away from rounding ties"""
    import torch

    x = rnd((b or c["b"], c["C"], c["h"], c["w"]), seed, "normal", scale=c["amp"])
    f = x - torch.floor(x)
    return torch.where((f - 0.5).abs() < 2e-2, x + 0.06, x)


def context(c, m, n=None):
    n = min(n or c["nprev"], c["ctx"])
    return tuple(m.process_previous_latent_q(latent(c, c["seed"] + 101 + k).round()) for k in range(n))


def tokens(t, c):
    """[B, ch, h, w] -> {(b, patch row, patch col): [tokens, ch]} (only tokens inside the crop)"""
    d = c["dec"]
    out = {}
    for b in range(t.shape[0]):
        for y in range(t.shape[2]):
            for x in range(t.shape[3]):
                out[(b, y // d, x // d, (y % d) * d + x % d)] = t[b, :, y, x]
    return out


def lik_tokens(lik, c):
    d = c["dec"]
    nh, nw = -(-c["h"] // d), -(-c["w"] // d)
    v = lik.reshape(-1, nh, nw, d * d, lik.shape[-1])
    return v, nh, nw


@PROP.sub("forward", lambda: cases(), quick=300, thorough=2500)
def forward(c):
    import torch

    m = vct.entropy_model(c)
    x = latent(c, c["seed"])
    keep = x.clone()
    with torch.no_grad():
        prev = context(c, m)
        out = m(x, prev)
    equal(x, keep, "the latent was modified")
    equal(out.perturbed_latent, torch.round(x), "evaluated latent is not the rounded latent")
    d = c["dec"]
    nh, nw = -(-c["h"] // d), -(-c["w"] // d)
    ensure(tuple(out.bits.shape) == (c["b"] * nh * nw, d * d, c["C"]), f"likelihood shape {tuple(out.bits.shape)}")
    ensure(bool(((out.bits > 0) & (out.bits <= 1)).all()), "likelihood outside (0, 1]")
    ensure(tuple(out.features.shape) == (c["b"], c["d"], c["h"], c["w"]), f"feature shape {tuple(out.features.shape)}")
    # one item alone
    k = c["pos"] % c["b"]
    with torch.no_grad():
        prev1 = tuple(m.process_previous_latent_q(p.quantized[k : k + 1]) for p in prev)
        one = m(x[k : k + 1], prev1)
    close(one.features, out.features[k : k + 1], 1e-3, 1e-3, "features depend on batch mates")
    v = out.bits.reshape(c["b"], nh * nw, d * d, c["C"])[k]
    ensure(float((one.bits - v).abs().mean()) < 1e-2, "likelihoods depend on batch mates")
    # a processed latent records the latent it came from
    equal(prev[0].quantized, latent(c, c["seed"] + 101).round(), "the quantised latent is not passed through")
    return Info(nh * nw > 1, f"ctx{c['ctx']}", f"win{c['enc']}/{c['dec']}")


@PROP.sub("causal", lambda: cases(), quick=200, thorough=3000)
def causal(c):
    """Changing one coded value leaves every other window, and earlier tokens of its own window, untouched."""
    import torch

    m = vct.entropy_model(c)
    x = latent(c, c["seed"])
    d = c["dec"]
    b, y, xx = c["pos"] % c["b"], (c["pos"] // 7) % c["h"], (c["pos"] // 101) % c["w"]
    x2 = x.clone()
    x2[b, :, y, xx] += (3.0 + torch.arange(c["C"])) * max(1.0, c["amp"] / 12)
    with torch.no_grad():
        prev = context(c, m)
        o1, o2 = m(x, prev), m(x2, prev)
    # padding replicates content into windows at the border, which may legitimately change with it
    pad = bool(c["h"] % d or c["w"] % d)
    tok = (y % d) * d + xx % d
    l1, nh, nw = lik_tokens(o1.bits, c)
    l2, _, _ = lik_tokens(o2.bits, c)
    changed = ((l1 - l2).abs() > 1e-4).any(-1)
    allowed = torch.zeros_like(changed)
    allowed[b, y // d, xx // d, tok:] = True
    if pad:
        allowed[b, y // d :, xx // d :, :] = True
        allowed[b, y // d, xx // d, :tok] = False
        # inside its own window padding only copies to later rows/columns
    ensure(not bool((changed & ~allowed).any()), lambda: f"changing token {tok} of window {(b, y // d, xx // d)} changed the distribution at {(changed & ~allowed).nonzero()[0].tolist()}")
    f1, f2 = tokens(o1.features, c), tokens(o2.features, c)
    for key in f1:
        kb, py, px, t = key
        if (kb, py, px) == (b, y // d, xx // d):
            same = t <= tok
        else:
            same = not (pad and kb == b and py >= y // d and px >= xx // d)
        if same:
            dd = float((f1[key] - f2[key]).abs().max())
            ensure(dd <= 1e-4, f"features at {key} see the value of token {tok} of window {(b, y // d, xx // d)} (by {dd})")
    # the dependency is real: the next token of the window does see it
    nxt = (b, y // d, xx // d, tok + 1)
    if nxt in f1:
        ensure(float((f1[nxt] - f2[nxt]).abs().max()) > 0, "the next token does not condition on the changed one")
    return Info(True, "last" if tok == d * d - 1 else "inner", "pad" if pad else "exact")


@PROP.sub("context", lambda: cases(), quick=300, thorough=2500)
def context_sub(c):
    """Short histories repeat the oldest latent; every context latent matters; far-away positions do not."""
    import torch

    m = vct.entropy_model(c)
    x = latent(c, c["seed"])
    with torch.no_grad():
        prev = context(c, m)
        full = (prev[0],) * (c["ctx"] - len(prev)) + prev
        a, b = m(x, prev), m(x, full)
        close(a.bits, b.bits, 1e-5, 1e-5, "a short context is not the oldest latent repeated")
        close(a.features, b.features, 1e-5, 1e-5, "a short context is not the oldest latent repeated")
        # each context slot matters, and order matters
        for k in range(c["ctx"]):
            alt = list(full)
            alt[k] = m.process_previous_latent_q(full[k].quantized + 5.0 * max(1.0, c["amp"] / 12) * rnd(full[k].quantized.shape, c["seed"] + 9 + k, "normal"))
            o = m(x, tuple(alt))
            ensure(float((o.features - a.features).abs().max()) > 1e-6, f"context slot {k} is ignored")
        # locality: a change outside a window's encoder neighbourhood cannot reach it
        d, half = c["dec"], (c["enc"] - c["dec"]) // 2
        q = full[-1].quantized.clone()
        yy, xx = (c["pos"] // 7) % c["h"], (c["pos"] // 101) % c["w"]
        q[:, :, yy, xx] += 7.0 * max(1.0, c["amp"] / 12)
        o = m(x, full[:-1] + (m.process_previous_latent_q(q),))
        ft = (o.features - a.features).abs().amax(1)
        hit = False
        for py in range(-(-c["h"] // d)):
            for px in range(-(-c["w"] // d)):
                blk = ft[:, py * d : (py + 1) * d, px * d : (px + 1) * d]
                inside = (
                    py * d - half <= yy < (py + 1) * d + half and px * d - half <= xx < (px + 1) * d + half
                )
                # reflection at the borders can only bring in rows/columns this close to them
                edge = (py * d - half < 0 or (py + 1) * d + half > c["h"] or px * d - half < 0 or (px + 1) * d + half > c["w"])
                if inside:
                    hit = True
                    ensure(float(blk.max()) > 0, f"window {(py, px)} ignores the previous latent at {(yy, xx)}")
                elif not edge:
                    ensure(float(blk.max()) <= 1e-4, f"window {(py, px)} sees the previous latent at {(yy, xx)}")
        ensure(hit, "harness: no window covers the position")
    return Info(len(prev) < c["ctx"] or c["ctx"] > 1, f"prev{len(prev)}of{c['ctx']}")


class Spy:
    """Records what the entropy model sends to its bottleneck, by argument name."""

    def __init__(self, b):
        self.b, self.compressed, self.params = b, [], []

    def install(self):
        import inspect

        b = self.b
        fwd, comp = type(b).forward, type(b).compress
        spy = self

        class Wrapped(type(b)):
            def forward(self, *a, **k):
                bound = inspect.signature(fwd).bind(self, *a, **k).arguments
                spy.params.append((bound["means"].clone(), bound["scales"].clone()))
                return fwd(self, *a, **k)

            def compress(self, *a, **k):
                out = comp(self, *a, **k)
                spy.compressed.append(list(out[1]))
                return out

        new = Wrapped.__new__(Wrapped)
        new.__dict__ = b.__dict__
        return new


def model_of(c):
    """With "flat", every token gets the same prediction (and the latent is constant): equal strings must all be billed."""
    import torch

    m = vct.entropy_model(c)
    if c["flat"]:
        with torch.no_grad():
            for h in (m.mean_head, m.scale_head):
                for p in list(h.parameters())[-2:-1]:
                    p.zero_()
    return m


@PROP.sub("compress", lambda: cases(batch=1, small=True), quick=48, thorough=700)
def compress(c):
    """compress() transmits the rounded latent; a decoder given only the strings recovers it; bits are real."""
    import torch

    c["b"] = 1
    m = model_of(c)
    base = m.bottleneck
    d = c["dec"]
    nh, nw = -(-c["h"] // d), -(-c["w"] // d)

    def attempt(seed):
        spy = Spy(base)
        m.bottleneck = spy.install()
        x = latent(c, seed)
        if c["flat"]:
            x = x[:, :, :1, :1].expand_as(x).contiguous()
        with torch.no_grad():
            prev = context(c, m)
            out = m.compress(latent_unquantized=x, previous_latents=prev, run_decode=False)
            strings = list(spy.compressed)
            equal(out.perturbed_latent, torch.round(x), "transmitted latent is not the rounded latent")
            paid = 8 * sum(len(s) for ss in strings for s in ss)
            ensure(float(out.bits.sum()) == paid, f"reported {float(out.bits.sum())} bits, the strings have {paid}")
            ev = m(x, prev)
            est = float(-torch.log2(ev.bits.double()).sum())
            n = len(strings)
            fe = float((out.features - ev.features).abs().max())
            if not fe <= 1e-2:
                return f"features of compress() and forward() differ by {fe}"
            # tables are coarse here; escapes and per-string flushing bound the overhead
            ensure(paid <= 1.3 * est + 72 * n + 1.0 * ev.bits.numel() + 64, f"paid {paid}, likelihoods say {est:.0f}")
            ensure(paid >= 0.7 * est - 1.0 * ev.bits.numel() - 64, f"paid {paid}, likelihoods say {est:.0f}")
            # independent decoder: reruns the model on what it has decoded so far
            H, W = nh * d, nw * d
            rec = torch.zeros(1, c["C"], H, W)
            mm = model_of(c)  # a second instance, same weights
            spy2 = Spy(mm.bottleneck)
            mm.bottleneck = spy2.install()
            prevd = tuple(mm.process_previous_latent_q(p.quantized) for p in prev)
            ensure(n == d * d, f"{n} strings for {d * d} tokens")
            for t in range(d * d):
                spy2.params.clear()
                mm(rec[:, :, : c["h"], : c["w"]] if (H, W) == (c["h"], c["w"]) else rec, prevd)
                means, scales = spy2.params[-1]
                tok = base.decompress(strings[t], scales[None, :, t], means[None, :, t])[0]  # [patches, C]
                rec[0, :, t // d :: d, t % d :: d] = tok.reshape(nh, nw, -1).permute(2, 0, 1)
            if not torch.equal(rec[:, :, : c["h"], : c["w"]], torch.round(x)):
                return "a decoder given only the strings and the context does not recover the latent"
        m.bottleneck = base
        return None

    err = None
    for k in range(3):  # a float tie may flip a table index on one input, not on three
        err = attempt(c["seed"] + 1000 * k)
        if err is None:
            break
    ensure(err is None, err)
    return Info(nh * nw > 1, f"win{c['enc']}/{c['dec']}")


@PROP.sub("reference", lambda: cases(), quick=120, thorough=1500)
def reference(c):
    """Features, means and scales are those of the published network: windows / 35 -> embedding -> norm -> positions -> transformers -> heads."""
    import torch
    import torch.nn.functional as F

    from .p13_vct_transformer import lin, ln, ref_block, sub_sd

    m = vct.entropy_model(c)
    base = m.bottleneck
    spy = Spy(base)
    m.bottleneck = spy.install()
    x = latent(c, c["seed"])
    with torch.no_grad():
        prev = context(c, m)
        out = m(x, prev)
    sd = {k: v for k, v in m.state_dict().items() if not k.startswith("bottleneck")}
    d, half = c["dec"], (c["enc"] - c["dec"]) // 2
    nh, nw = -(-c["h"] // d), -(-c["w"] // d)

    def windows(t, k):
        """[B, C, h, w] -> [B * nh * nw, k * k, C]: windows of side k around each d x d tile, reflected at the borders"""
        a = (k - d) // 2
        t = F.pad(t.double(), (a, nw * d - c["w"] + a, a, nh * d - c["h"] + a), mode="reflect")
        return torch.stack([t[b, :, i * d : i * d + k, j * d : j * d + k].reshape(c["C"], k * k).T for b in range(t.shape[0]) for i in range(nh) for j in range(nw)])

    def stack(pre, n, t, enc=None, causal=False):
        for i in range(n):
            t = ref_block(sub_sd(sd, f"{pre}.layers.encoder_layer_{i}."), c["heads"], t, enc, causal)
        return t

    def head(n, t):
        t = F.leaky_relu(lin(sd, f"{n}.0", t), 0.01)
        return lin(sd, f"{n}.4", F.leaky_relu(lin(sd, f"{n}.2", t), 0.01))

    def embed(n, t):
        return ln(sd, "post_embedding_layernorm", lin(sd, n, t / 35.0))

    def pos(n):
        return sd[f"{n}._emb"].double()

    ctx = [stack("encoder_sep", c["ls"], embed("encoder_embedding", windows(p.quantized, c["enc"])) + pos("enc_position_sep")) for p in prev]
    tol = lambda t: 5e-3 * (1 + float(t.abs().max()))  # noqa: E731
    for p, r in zip(prev, ctx):
        close(p.processed, r, 0, tol(r), "processed previous latent")
    ctx = [ctx[0]] * (c["ctx"] - len(ctx)) + ctx
    enc = stack("encoder_joint", c["lj"], torch.cat(ctx, 1) + pos("enc_position_joint"))
    t = windows(torch.round(x), d)
    t = torch.cat([sd["learned_zero.sym"].double().expand(t.shape[0], 1, -1), t[:, :-1]], 1)
    dec = stack("decoder", c["ld"], embed("decoder_embedding", t) + pos("dec_position"), enc, True)
    feat = dec.reshape(c["b"], nh, nw, d, d, -1).permute(0, 5, 1, 3, 2, 4).reshape(c["b"], -1, nh * d, nw * d)[:, :, : c["h"], : c["w"]]
    close(out.features, feat, 0, tol(feat), "decoder features")
    means, scales = spy.params[-1]
    for what, got, want in (("means", means, head("mean_head", dec)), ("scales", scales, head("scale_head", dec))):
        close(got, want, 0, tol(want), f"predicted {what}")
    return Info(nh * nw > 1, f"amp{c['amp']:g}", f"ctx{c['ctx']}")


@PROP.sub("selfcheck", lambda: cases(batch=1, small=True), quick=32, thorough=500)
def selfcheck(c):
    """Built-in decoding and causality validation accept the model's own stream; batches are refused."""
    import torch

    c["b"] = 1
    m = vct.entropy_model(c)
    x = latent(c, c["seed"])
    with torch.no_grad():
        prev = context(c, m)
        a = m.compress(latent_unquantized=x, previous_latents=prev, run_decode=True, validate_causal=False)
        b = m.compress(latent_unquantized=x, previous_latents=prev, run_decode=False)
    equal(a.perturbed_latent, torch.round(x), "decoded latent is not the rounded latent")
    equal(a.perturbed_latent, b.perturbed_latent, "decoding changes the result")
    equal(a.bits, b.bits, "decoding changes the reported bits")
    close(a.features, b.features, 1e-5, 1e-5, "decoding changes the features")
    err = None
    for k in range(3):  # exact comparison inside: a float tie may trip it on one input
        with torch.no_grad():
            try:
                m.compress(latent_unquantized=latent(c, c["seed"] + k), previous_latents=prev, validate_causal=True)
                err = None
                break
            except ValueError as e:
                err = e
    ensure(err is None, f"causality validation rejects a causal model: {err}")
    masks = [n for n, _ in m.decoder.named_buffers() if n.endswith("look_ahead_mask")]
    if masks and c["dec"] > 1:
        broken = vct.entropy_model(c)
        with torch.no_grad():
            for n, t in broken.decoder.named_buffers():
                if n.endswith("look_ahead_mask"):
                    t.zero_()
            quiet = ("mean_head", "scale_head", None)[c["seed"] % 3]  # the leak shows in one of the two parameters only
            for p in getattr(broken, quiet, None).parameters() if quiet and hasattr(broken, quiet) else ():
                p.zero_()
            raises(ValueError, lambda: broken.compress(latent_unquantized=x, previous_latents=prev, run_decode=c["seed"] % 2 == 1, validate_causal=True), "validation accepted a model without causal masks")
    x2 = torch.cat([x, x])
    with torch.no_grad():
        prev2 = tuple(m.process_previous_latent_q(torch.cat([p.quantized] * 2)) for p in prev)
        raises((AssertionError, ValueError, NotImplementedError), lambda: m.compress(latent_unquantized=x2, previous_latents=prev2), "a batch of two was compressed")
    return Info(True)


@PROP.sub("reject", lambda: cases(), quick=60, thorough=400)
def reject(c):
    """Mismatching inputs are refused, never silently coded."""
    import torch
    from projects.torch_vct.neural.entropy_model import PreviousLatent, VCTEntropyModel

    raises(ValueError, lambda: VCTEntropyModel(num_channels=2, window_size_enc=2, window_size_dec=4, d_model=8, num_head=2), "encoder window below decoder window")
    raises(ValueError, lambda: VCTEntropyModel(num_channels=-1, d_model=8, num_head=2), "negative channels")
    m = vct.entropy_model(c)
    x = latent(c, c["seed"])
    with torch.no_grad():
        prev = context(c, m)
        bad = PreviousLatent(prev[0].quantized, torch.zeros(*prev[0].processed.shape[:-1], c["d"] + 1))
        raises(ValueError, lambda: m(x, (bad,)), "unprocessed context accepted")
        big = rnd((c["b"] + 1, c["C"], c["h"], c["w"]), 1)
        raises(ValueError, lambda: m(big, prev), "batch mismatch between latent and context accepted")
    return Info(True)


@PROP.sub("options", lambda: fixed(enc=pick(0.0, 0.1, 0.5, 0.9), dec=pick(0.0, 0.2, 0.6), heads=pick(1, 2), sep=ints(1, 2), joint=ints(1, 3), nd=ints(1, 3), exp=ints(1, 3), C=ints(1, 4), ctx=ints(1, 3)), quick=40, thorough=300,
          rule="every constructor option reaches the part it is named after")
def options(c):
    import torch

    vct.ensure_path()
    from projects.torch_vct.neural.entropy_model import VCTEntropyModel

    d = 8
    m = VCTEntropyModel(num_channels=c["C"], context_len=c["ctx"], window_size_enc=2, window_size_dec=2, num_layers_encoder_sep=c["sep"], num_layers_encoder_joint=c["joint"],
                        num_layers_decoder=c["nd"], d_model=d, num_head=c["heads"], mlp_expansion=c["exp"], drop_out_enc=c["enc"], drop_out_dec=c["dec"])
    for part, layers, rate in (("encoder_sep", c["sep"], c["enc"]), ("encoder_joint", c["joint"], c["enc"]), ("decoder", c["nd"], c["dec"])):
        t = getattr(m, part)
        rates = {x.p for x in t.modules() if isinstance(x, torch.nn.Dropout)}
        ensure(rates <= {rate}, f"{part} drops with rates {rates}, {rate} was requested")
        sd = t.state_dict()
        blocks = {k.split(".")[1] for k in sd if k.startswith("layers.")}
        ensure(len(blocks) == layers, f"{part} has {len(blocks)} layers, {layers} were requested")
        for k, v in sd.items():
            if k.endswith("mlp1.fc1.weight") or k.endswith("mlp2.fc1.weight"):
                ensure(tuple(v.shape) == (c["exp"] * d, d), f"{part}.{k} is {tuple(v.shape)}")
        heads = {x.num_heads for x in t.modules() if hasattr(x, "num_heads")}
        ensure(heads == {c["heads"]}, f"{part} has {heads} heads")
    ensure(m.context_len == c["ctx"] and m.num_channels == c["C"] and m.d_model == d, "attributes")
    return Info(c["enc"] != c["dec"])


@PROP.sub("train", lambda: cases(), quick=60, thorough=800)
def train(c):
    """In training the latent passes straight through and the rate reaches every parameter and input."""
    import torch

    m = vct.entropy_model(c)
    m.train()
    x = latent(c, c["seed"]).requires_grad_()
    prev = context(c, m)
    out = m(x, prev)
    close(out.perturbed_latent, torch.round(x.detach()), 1e-6, 2e-3, "training latent is not the rounded latent")
    w = rnd(x.shape, c["seed"] + 5, "symmetric")
    (g,) = torch.autograd.grad((out.perturbed_latent * w).sum(), x, retain_graph=True)
    close(g, w, 1e-5, 1e-5, "gradient through quantisation is not the identity")
    if c["dec"] > 1 and c["h"] * c["w"] > 1 and out.features is not None:
        (g,) = torch.autograd.grad((out.features * rnd(out.features.shape, c["seed"] + 6)).sum(), x, retain_graph=True, allow_unused=True)
        ensure(g is not None and float(g.abs().max()) > 0, "the features pass no gradient to the earlier tokens of the latent")
    (-torch.log2(out.bits)).sum().backward()
    live = bool(((out.bits > 1e-6) & (out.bits < 0.99)).any())  # not saturated
    ensure(x.grad is not None and (not live or float(x.grad.abs().max()) > 0), "the rate has no gradient for the latent")
    miss = [n for n, p in m.named_parameters() if p.requires_grad and p.grad is None]
    ensure(not miss, f"parameters without gradient: {miss[:3]}")
    return Info(True)
