"""P35: U-Net discriminators score every location of every image, at the requested resolution."""
import hypothesis.strategies as st

from ..core import Info, Prop, Unsupported, Violation, close, ensure, equal, raises, rnd, seed_all, viewed
from ..gen import fixed, fl, ints, pick, seeds

PROP = Prop(
    "P35",
    "cases = channel lists, downsampling factors, norm types, class counts, image sizes, contexts, training histories; oracle = a "
    "functional residual U-Net evaluated on the state dict, shape and batch-independence relations; non-trivial = at least two levels",
)


@st.composite
def strat(draw):
    cond = draw(st.booleans())
    levels = draw(ints(1, 4))
    cout = draw(ints(1, 3))
    # equal neighbouring widths switch the 1x1 shortcut convolution off
    mid = [draw(pick(2, 3, 4, 4)) for _ in range(levels)]
    first = 3 + cout if cond else draw(pick(3, 3, 1, 4))
    d = draw(ints(0, levels - 1))
    norm = draw(pick("identity", "spectral", "spectral", "instance", "batch"))
    s = 2 ** (levels + (norm in ("instance", "batch")))  # statistics need more than one location at the bottom
    return dict(
        cond=cond, chans=[first] + mid, d=d, out=draw(ints(1, 6)), norm=norm, cin=draw(ints(1, 4)), cout=cout,
        b=draw(ints(1, 3)), h=s * draw(ints(1, 3)) * (2 if levels < 3 else 1), w=s * draw(ints(1, 3)) * (2 if levels < 3 else 1), ch=draw(ints(2, 6)), cw=draw(ints(2, 6)),
        wseed=draw(ints(0, 1000)), seed=draw(seeds), kind=draw(pick("uniform", "normal", "zeros", "impulse")), train=draw(ints(0, 2)),
    )


def build(c, **kw):
    import torch
    from neuralcompression.models import ConditionalUnetDiscriminator, UnetDiscriminator

    seed_all(c["wseed"])
    a = dict(output_channels=c["out"], output_downsampling_factor=2 ** c["d"], chans=list(c["chans"]), norm_type=c["norm"])
    a.update(kw)
    if c["cond"]:
        m = ConditionalUnetDiscriminator(context_in=c["cin"], context_out=c["cout"], **a)
    else:
        m = UnetDiscriminator(**a)
    with torch.no_grad():
        for p in m.parameters():
            p.add_(0.2 * torch.randn_like(p))
    return m.double()


class Ref:
    """Evaluates the network from its state dict; ``inplace``: activations in front of a shortcut also apply to the shortcut."""

    def __init__(self, sd, norm, inplace):
        self.sd, self.norm, self.inplace = sd, norm, inplace

    def conv(self, key, x, pad):
        import torch.nn.functional as F

        sd = self.sd
        if key + ".weight" in sd:
            ensure(not (self.norm == "spectral" and "model.0." in key), f"{key} is not spectrally normalised")
            w = sd[key + ".weight"]
        else:
            o = sd[key + ".parametrizations.weight.original"]
            u, v = sd[key + ".parametrizations.weight.0._u"], sd[key + ".parametrizations.weight.0._v"]
            w = o / (u @ (o.flatten(1) @ v))
        return F.conv2d(x, w, sd.get(key + ".bias"), padding=pad)

    def nrm(self, key, x):
        import torch.nn.functional as F

        if self.norm == "batch":
            sd = self.sd
            return F.batch_norm(x, sd[key + ".running_mean"], sd[key + ".running_var"], sd[key + ".weight"], sd[key + ".bias"], False, 0.0, 1e-5)
        if self.norm == "instance":
            return F.instance_norm(x)
        return x

    def has(self, key):
        return any(k.startswith(key + ".") for k in self.sd)

    def level(self, pre, x, level, n, d, inner):
        import torch.nn.functional as F

        act = lambda t: F.leaky_relu(t, 0.2)
        plain = self.norm in ("identity", "spectral")
        top = level == 0
        h = x if top else act(self.nrm(pre + "left_block.0", x))
        sx = h if (self.inplace and plain and not top) else x
        h = self.conv(pre + "left_block.2", h, 1)
        h = self.conv(pre + "left_block.5", act(self.nrm(pre + "left_block.3", h)), 1)
        if self.has(pre + "left_shortcut.0"):
            sx = self.conv(pre + "left_shortcut.0", sx, 0)
        x = F.avg_pool2d(h, 2) + F.avg_pool2d(sx, 2)
        if level < n - 1:
            x = self.level(pre + "child.", x, level + 1, n, d, inner)
        if level < d:
            return x
        h = act(self.nrm(pre + "right_block.0", x))
        sx = h if (self.inplace and plain) else x
        h = self.conv(pre + "right_block.3", F.interpolate(h, scale_factor=2, mode="nearest"), 1)
        h = self.conv(pre + "right_block.6", act(self.nrm(pre + "right_block.4", h)), 1)
        if self.has(pre + "right_shortcut.0"):
            sx = self.conv(pre + "right_shortcut.0", sx, 0)
        return h + F.interpolate(sx, scale_factor=2, mode="nearest")

    def unet(self, pre, x, n, d):
        return self.conv(pre + "model.1", self.level(pre + "model.0.", x, 0, n, d, None), 0)


def reference(c, sd, x, ctx, inplace):
    import torch
    import torch.nn.functional as F

    r = Ref(sd, c["norm"], inplace)
    n = len(c["chans"]) - 1
    if not c["cond"]:
        return r.unet("", x, n, c["d"])
    h = F.leaky_relu(r.conv("input_sequence.0", F.pad(ctx, (1, 1, 1, 1), mode="reflect"), 0), 0.2)
    iy = (torch.arange(c["h"]) * h.shape[2]) // c["h"]
    ix = (torch.arange(c["w"]) * h.shape[3]) // c["w"]
    return r.unet("_unet.", torch.cat((x, h[:, :, iy][:, :, :, ix]), 1), n, c["d"])


@PROP.sub("forward", strat, quick=200, thorough=3000)
def forward(case):
    import torch

    c = case
    m = build(c)
    ensure(m.is_conditional is c["cond"], "is_conditional flag")
    cimg = c["chans"][0] - (c["cout"] if c["cond"] else 0)
    x = viewed(rnd((c["b"], cimg, c["h"], c["w"]), c["seed"], c["kind"], torch.float64), c["seed"])
    ctx = viewed(rnd((c["b"], c["cin"], c["ch"], c["cw"]), c["seed"] + 1, "normal", torch.float64), c["seed"] // 5)
    run = (lambda a, b: m(a, b)) if c["cond"] else (lambda a, b: m(a))
    m.train()
    for k in range(c["train"]):  # running statistics / power iterations move
        y = run(x * (k + 1) + 0.1, ctx)
        y.sum().backward()
    m.eval()
    x0, c0 = x.clone(), ctx.clone()
    sd0 = {k: v.clone() for k, v in m.state_dict().items()}
    with torch.no_grad():
        y = run(x, ctx)
    equal(x, x0, "image modified by the call")
    equal(ctx, c0, "context modified by the call")
    for k, v in m.state_dict().items():
        equal(v, sd0[k], f"state {k} changed in evaluation mode")
    f = 2 ** c["d"]
    ensure(tuple(y.shape) == (c["b"], c["out"], c["h"] // f, c["w"] // f), lambda: f"output shape {tuple(y.shape)} for {tuple(x.shape)}, factor {f}, {c['out']} classes")
    with torch.no_grad():
        for i in range(c["b"]):
            close(run(x[i : i + 1], ctx[i : i + 1])[0], y[i], 1e-9, 1e-9, f"image {i} scored alone vs in its batch")
    try:
        refs = [reference(c, {k: v.detach() for k, v in m.state_dict().items()}, x, ctx, q) for q in (True, False)]
    except (KeyError, IndexError) as e:
        raise Unsupported(f"state-dict layout: {e!r}")
    errs = []
    for r in refs:
        try:
            close(y, r, 1e-7, 1e-7, "scores")
            break
        except Violation as e:
            errs.append(str(e))
    else:
        raise Violation("scores differ from the residual U-Net: " + errs[0])
    return Info(len(c["chans"]) > 2, c["norm"], f"d{c['d']}", "cond" if c["cond"] else "plain")


def strat_refuse():
    return fixed(cond=st.booleans(), factor=pick(0, 3, 5, 6, 7, 12, 24, -1, -2, -4), norm=pick("layer", "", "Batch", "group"), bad=pick("factor", "norm"), out=ints(1, 3))


@PROP.sub("refused", strat_refuse, quick=40, thorough=200)
def refused(case):
    c = dict(cond=case["cond"], chans=[5 if case["cond"] else 3, 4, 4], d=1, out=case["out"], norm="identity", cin=2, cout=2, wseed=0)
    kw = {"output_downsampling_factor": case["factor"]} if case["bad"] == "factor" else {"norm_type": case["norm"]}
    raises(ValueError, lambda: build(c, **kw), f"{kw}")
    return Info(True, case["bad"])


def strat_default():
    return fixed(cond=st.booleans(), d=ints(0, 5), out=ints(1, 5), seed=seeds)


@PROP.sub("default_widths", strat_default, quick=6, thorough=24, shards=6, examples=[{"cond": bool(d % 2), "d": d, "out": 1 + d % 3, "seed": d} for d in range(6)])
def default_widths(case):
    import torch
    from neuralcompression.models import ConditionalUnetDiscriminator, UnetDiscriminator

    seed_all(3)
    x = rnd((1, 3, 64, 128), case["seed"], "uniform")
    f = 2 ** case["d"]
    with torch.no_grad():
        if case["cond"]:
            m = ConditionalUnetDiscriminator(case["out"], f, context_in=7).eval()
            y = m(x, rnd((1, 7, 4, 8), case["seed"], "normal"))
            unet = {k[len("_unet.") :]: v for k, v in m.state_dict().items() if k.startswith("_unet.")}
        else:
            m = UnetDiscriminator(case["out"], f).eval()
            y = m(x)
            unet = m.state_dict()
    ensure(tuple(y.shape) == (1, case["out"], 64 // f, 128 // f), lambda: f"shape {tuple(y.shape)}")
    if unet:
        pre, widths = "model.0.", []
        while pre + "left_block.2.weight" in unet:
            widths.append(tuple(unet[pre + "left_block.2.weight"].shape[:2]))
            pre += "child."
        first = 3 + (16 if case["cond"] else 0)
        want = [first, 128, 128, 256, 256, 512, 512]
        ensure(not widths or widths == [(b, a) for a, b in zip(want, want[1:])], lambda: f"default widths {widths}")
    return Info(True, f"d{case['d']}")
