"""P13: the VCT transformer layers compute masked multi-head attention exactly, deterministically in evaluation mode."""
import math

import hypothesis.strategies as st

from ..core import Info, Prop, Violation, close, ensure, equal, raises, rnd, viewed
from ..gen import big, fl, ints, pick, seeds
from .. import vct

PROP = Prop(
    "P13",
    "cases = batch, query/key lengths, heads, width, mask pattern, dropout rates, weights and data; oracle = a per-head "
    "float64 reference built from the state dict, and dependency sets; non-trivial = more than one head and token",
)


@st.composite
def cases(draw):
    heads = draw(big(1, 4, 6, 8, 16))
    return dict(b=draw(big(1, 3, 4, 9)), q=draw(big(1, 6, 16, 33, 64)), k=draw(ints(1, 3)), heads=heads, d=heads * draw(big(1, 5, 8, 16)),
                drop=draw(pick(0.0, 0.3, 0.9)), seed=draw(seeds), wseed=draw(ints(0, 100)), gain=draw(fl(0.3, 2.0)),
                layers=draw(big(1, 3, 4, 6)), mask=draw(pick("causal", "random", "none")))


def build(cls, c, **kw):
    from ..core import seed_all

    seed_all(c["wseed"])
    m = cls(**kw)
    vct.spread_weights(m, c["gain"])
    return m.train(c["drop"] == 0.0 and c["wseed"] % 2 == 1)  # without dropout the mode makes no difference


def lin(sd, n, x):
    return x @ sd[n + ".weight"].double().T + sd[n + ".bias"].double()


def ref_attn(sd, heads, q, k, v, mask=None):
    """explicit loops over batch and heads"""
    import torch

    q, k, v = (lin(sd, n, t.double()) for n, t in zip(("q_linear", "k_linear", "v_linear"), (q, k, v)))
    b, nq, d = q.shape
    dh = d // heads
    out = torch.zeros(b, nq, d, dtype=torch.float64)
    attn = torch.zeros(b, heads, nq, k.shape[1], dtype=torch.float64)
    for i in range(b):
        for h in range(heads):
            sl = slice(h * dh, (h + 1) * dh)
            s = q[i, :, sl] @ k[i, :, sl].T / math.sqrt(dh)
            if mask is not None:
                s = s.masked_fill(mask.bool(), -math.inf)
            a = torch.softmax(s, -1)
            if mask is not None:
                a = a.masked_fill(mask.bool(), 0.0).nan_to_num(0.0)
            attn[i, h] = a
            out[i, :, sl] = a @ v[i, :, sl]
    return lin(sd, "proj", out), attn


@PROP.sub("attention", cases, quick=500, thorough=8000)
def attention(c):
    import torch
    from projects.torch_vct.neural.layers_utils import WindowMultiHeadAttention as A

    m = build(A, c, hidden_dim=c["d"], num_heads=c["heads"], attn_drop=c["drop"], proj_drop=c["drop"])
    nk = c["q"] * c["k"]
    q, k, v = (rnd((c["b"], n, c["d"]), c["seed"] + i, "normal") for i, n in enumerate((c["q"], nk, nk)))
    mask = None
    if c["mask"] == "causal":
        mask = torch.triu(torch.ones(c["q"], c["q"]), diagonal=1)
    elif c["mask"] == "random":
        mask = (rnd((c["q"], c["q"]), c["seed"] + 9, "uniform") < 0.4).float()
        if c["seed"] % 3:
            mask[torch.arange(c["q"]), torch.arange(c["q"])] = 0  # every query keeps at least itself
        else:
            mask[c["seed"] % c["q"]] = 1  # one query may look at nothing
    sharp = c["wseed"] % 4 == 0  # logits hundreds apart: in double precision
    if sharp:
        m = m.double()
        q, k, v = 30 * q.double(), 10 * k.double(), v.double()
        mask = mask.double() if mask is not None else None
    with torch.no_grad():
        out, attn = m(q, k, v, mask)
    small, mask = mask, mask.repeat(1, c["k"]) if mask is not None else None  # (keys: whole multiples of the queries share the mask)
    ro, ra = ref_attn(m.state_dict(), c["heads"], q, k, v, mask)
    close(attn, ra, 1e-3, 1e-5, "attention matrix")
    close(out, ro, 1e-3, 1e-3 * (1 + float(ro.abs().max())), "attention output")
    rows = torch.ones(attn.shape[:-1]) if mask is None else (mask.min(-1).values == 0).float().expand(attn.shape[:-1])
    close(attn.sum(-1), rows, 1e-4, 1e-9, "attention rows do not sum to one")
    if mask is not None:
        ensure(float((attn * mask).abs().max()) == 0.0, "masked positions receive attention")
    bad = torch.zeros(c["q"] + 1, c["q"] + 1)
    with torch.no_grad():
        raises((ValueError, RuntimeError), lambda: m(q, q, q, bad.to(q)), "wrongly sized mask accepted")
    if c["d"] > 1:
        raises(ValueError, lambda: A(hidden_dim=c["d"], num_heads=c["d"] + 1), "indivisible head count accepted")
    return Info(c["heads"] > 1 and c["q"] > 1, "mask" if mask is not None else "nomask", f"k{c['k']}")


@PROP.sub("dropout", cases, quick=60, thorough=500,
          rule="extreme drop rates in training: dropped attention, projections and residual branches vanish, and only those")
def dropout(c):
    import torch
    from projects.torch_vct.neural.entropy_model_layers import TransformerBlock
    from projects.torch_vct.neural.layers_utils import MLP, WindowMultiHeadAttention as A

    x = rnd((c["b"], c["q"], c["d"]), c["seed"], "normal")
    kw = dict(hidden_dim=c["d"], num_heads=c["heads"])
    free = build(A, dict(c, drop=0.0), **kw)
    for ad, pd in ((1.0, 0.0), (0.0, 1.0)):
        m = build(A, c, attn_drop=ad, proj_drop=pd, **kw)
        m.load_state_dict(free.state_dict())
        with torch.no_grad():
            want = free.eval()(x, x, x)
            for mode in (False, True):
                out, attn = m.train(mode)(x, x, x)
                if not mode:
                    close(out, want[0], 1e-5, 1e-5, "evaluated attention depends on the drop rates")
                    continue
                if ad:
                    equal(attn, torch.zeros_like(attn), "attention dropped with rate 1")
                    close(out, m.proj.bias.expand_as(out), 1e-5, 1e-6, "output of dropped attention")
                else:
                    close(attn, want[1], 1e-5, 1e-6, "the projection's drop rate changes the attention")
                    equal(out, torch.zeros_like(out), "projection dropped with rate 1")
    mlp = build(MLP, c, in_features=c["d"], mlp_dim=2 * c["d"], dropout=1.0).train()
    with torch.no_grad():
        equal(mlp(x), torch.zeros_like(x), "MLP dropped with rate 1")
    dec = c["mask"] != "none"
    blk = build(TransformerBlock, c, seq_length=c["q"], mlp_dim=c["d"], drop_out_rate=0.0, drop_path_rate=1 - 1e-7, is_decoder=dec, **kw).train()
    with torch.no_grad():
        y = blk(x, encoder_output=x if dec else None)
    equal(y, x, "a block whose residual branches are all dropped is not the identity")
    # fresh weights of the linear layers: within two standard deviations of 0.02, biases 0.01
    for m in (A(**kw), MLP(c["d"], 3 * c["d"], 0.0)):
        for n, p in m.named_parameters():
            if p.dim() == 2:
                ensure(float(p.detach().abs().max()) <= 0.04 + 1e-6, f"initial {n} reaches {float(p.detach().abs().max())}")
                ensure(p.numel() < 2000 or abs(float(p.detach().std()) - 0.0176) < 0.002, f"initial {n} has deviation {float(p.detach().std())}")
            else:
                close(p.detach(), torch.full_like(p, 0.01), 1e-6, 0, f"initial {n}")
    return Info(c["heads"] > 1)


def ln(sd, n, x):
    import torch

    return torch.nn.functional.layer_norm(x, x.shape[-1:], sd[n + ".weight"].double(), sd[n + ".bias"].double(), 1e-6)


def sub_sd(sd, pre):
    return {k[len(pre):]: v for k, v in sd.items() if k.startswith(pre)}


def ref_mlp(sd, n, x):
    import torch

    return lin(sd, n + ".fc2", torch.nn.functional.gelu(lin(sd, n + ".fc1", x)))


def ref_block(sd, heads, x, enc, causal):
    import torch

    x = x.double()
    y = ln(sd, "ln_1a", x)
    mask = torch.triu(torch.ones(x.shape[1], x.shape[1]), diagonal=1) if causal else None
    a, _ = ref_attn(sub_sd(sd, "self_attention."), heads, y, y, y, mask)
    x = x + a
    x = x + ref_mlp(sd, "mlp1", ln(sd, "ln_1b", x))
    y = ln(sd, "ln_2a", x)
    kv = y if enc is None else enc.double()
    a, _ = ref_attn(sub_sd(sd, "cross_attention."), heads, y, kv, kv, None)
    y = x + a
    return y + ref_mlp(sd, "mlp2", ln(sd, "ln_2b", y))


@PROP.sub("transformer", cases, quick=250, thorough=4000)
def transformer(c):
    import torch
    from projects.torch_vct.neural.entropy_model_layers import EncoderSection, Transformer

    dec = c["mask"] != "none"
    kw = dict(num_layers=c["layers"], num_heads=c["heads"], hidden_dim=c["d"], mlp_expansion=2, dropout=c["drop"])
    if dec:
        m = build(Transformer, c, seq_length=c["q"], is_decoder=True, **kw)
    else:
        m = build(EncoderSection, c, **kw)
    x = viewed(rnd((c["b"], c["q"], c["d"]), c["seed"], "normal"), c["seed"])
    enc = rnd((c["b"], c["q"] * c["k"], c["d"]), c["seed"] + 1, "normal") if dec else None
    keep = x.clone()
    with torch.no_grad():
        y = m(input=x, encoder_output=enc) if dec else m(x)
        y2 = m(input=x, encoder_output=enc) if dec else m(x)
    equal(x, keep, "input modified")
    close(y2, y, 1e-5, 1e-5, "evaluation is not deterministic")
    r = x.double()
    sd = m.state_dict()
    for i in range(c["layers"]):
        r = ref_block(sub_sd(sd, f"layers.encoder_layer_{i}."), c["heads"], r, enc, dec)
    close(y, r, 2e-3, 2e-3 * (1 + float(r.abs().max())), "transformer output")
    if dec:
        # causality
        t = c["seed"] % c["q"]
        x2 = x.clone()
        x2[:, t] += 3.0
        with torch.no_grad():
            z = m(input=x2, encoder_output=enc)
        if t:
            close(z[:, :t], y[:, :t], 1e-4, 1e-4, "a token sees its future")
        raises((ValueError, TypeError), lambda: m(input=x, encoder_output=None), "a decoder without encoder output")
        raises((ValueError, RuntimeError), lambda: m(input=x, encoder_output=torch.zeros(c["b"], c["q"], c["d"] + 1)), "width mismatch accepted")
    return Info(c["heads"] > 1 and c["q"] > 1, "decoder" if dec else "encoder")


@PROP.sub("pieces", cases, quick=300, thorough=4000)
def pieces(c):
    """Start symbol shifts by one, positions add, MLP is token-wise, stochastic depth keeps or drops whole samples."""
    import torch
    from projects.torch_vct.neural.entropy_model_layers import LearnedPosition, StartSym
    from projects.torch_vct.neural.layers_utils import MLP, StochasticDepth, make_conv, make_deconv, make_embedding

    x = rnd((c["b"], c["q"], c["d"]), c["seed"], "normal")
    s = StartSym(c["d"])
    y = s(x)
    ensure(tuple(y.shape) == tuple(x.shape), "shape changed by the start symbol")
    equal(y[:, 1:], x[:, :-1], "tokens are not shifted by one")
    equal(y[:, 0], s.sym.detach().expand(c["b"], -1), "first token is not the learnt symbol")
    equal(StartSym(c["d"]).sym, s.sym, "start symbol initialisation is not reproducible")
    g = torch.autograd.grad(s(x).sum(), s.sym)[0]
    close(g, torch.full((c["d"],), float(c["b"])), 1e-6, 0, "start symbol gradient")

    p = LearnedPosition(c["q"], c["d"])
    y = p(x)
    off = p(torch.zeros(1, c["q"], c["d"]))
    close(y, x + off, 1e-5, 1e-6, "position is not added")
    raises(AssertionError, lambda: p(x[:, :, :-1]) if c["d"] > 1 else p(x[0]), "wrong width accepted")
    raises(AssertionError, lambda: p(torch.zeros(1, c["q"] + 1, c["d"])), "wrong length accepted")

    m = build(MLP, c, in_features=c["d"], mlp_dim=2 * c["d"], dropout=c["drop"])
    with torch.no_grad():
        z = m(x)
        sd = {"a." + k: v for k, v in m.state_dict().items()}
        close(z, ref_mlp(sd, "a", x.double()), 1e-3, 1e-4, "MLP")

    sdp = StochasticDepth(c["drop"])
    sdp.eval()
    equal(sdp(x), x, "stochastic depth acts in evaluation mode")
    sdp.train()
    big = rnd((40, c["q"], c["d"]), c["seed"], "normal") + 5
    y = sdp(big)
    keep = 1 - c["drop"]
    kept = 0
    for i in range(40):
        if bool((y[i] == 0).all()):
            continue
        kept += 1
        close(y[i], big[i] / keep, 1e-5, 1e-6, "a kept sample is not rescaled")
    if c["drop"] == 0.0:
        ensure(kept == 40, "rate 0 drops samples")
    elif c["drop"] == 0.3:
        ensure(10 <= kept <= 40, f"{kept} of 40 kept at drop rate 0.3")
    else:
        ensure(kept <= 22, f"{kept} of 40 kept at drop rate 0.9")

    e = make_embedding(c["d"], 5)
    lim = c["d"] ** -0.5
    for t in e.parameters():
        ensure(float(t.abs().max()) <= lim + 1e-6, "embedding initialised outside its range")
    ks = 2 * (c["k"] - 1) + 3
    h = 2 * c["q"] + 2
    st_ = 1 + c["seed"] % 2
    im = rnd((1, 2, h, h + 2), c["seed"], "normal")
    down = make_conv(2, 3, ks, st_)(im)
    ensure(tuple(down.shape) == (1, 3, -(-h // st_), -(-(h + 2) // st_)), "convolution does not divide the size by the stride")
    up = make_deconv(2, 3, ks, st_)(im)
    ensure(tuple(up.shape) == (1, 3, h * st_, (h + 2) * st_), "transposed convolution does not multiply the size by the stride")
    return Info(c["q"] > 1)
