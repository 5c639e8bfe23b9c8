"""P05: the video codec's P-frame strings decode to what the evaluated model predicts, frame after frame."""
import pickle

import hypothesis.strategies as st
import numpy as np

from ..core import IMAGE_KINDS, Info, Prop, close, ensure, equal, raises, rnd, viewed
from ..gen import fixed, ints, pick, seeds
from ..models import dvc_cfgs, make_dvc, mismatch

PROP = Prop(
    "P05",
    "cases = model composition (default or custom sub-modules of varying depth, with GDN or batch norm) and weights x frame size "
    "(odd sizes included) x batch x frame content x number of chained frames; oracle = evaluated forward pass; "
    "non-trivial = a side that is not a multiple of 16 or more than one frame or batch item",
    preload=lambda: __import__("neuralcompression.models.deep_video_compression"),
    assumptions=["compressai's entropy coder", "a mismatch must persist on jittered frames (rounding ties are not violations)"],
)


@st.composite
def cases(draw, maxside=70):
    c = draw(dvc_cfgs())
    side = st.one_of(ints(16, 40), ints(16, maxside), pick(16, 17, 31, 32, 33, 48, 64, 50))
    c.update(b=draw(ints(1, 3)), h=draw(side), w=draw(side), seed=draw(seeds), k1=draw(pick(*IMAGE_KINDS)), k2=draw(pick("uniform", "shift", "same", *IMAGE_KINDS)),
             alias=draw(pick(None, None, None, None, "reference", "warped")))
    return c


def frames(c):
    sh = (c["b"], 3, c["h"], c["w"])
    a = viewed(rnd(sh, c["seed"], c["k1"]), c["seed"])
    if c["k2"] == "shift":
        b = a.roll((1, -2), (2, 3))
    elif c["k2"] == "same":
        b = a.clone()
    else:
        b = rnd(sh, c["seed"] ^ 0x5555, c["k2"])
    return a, b


def passthrough(which):
    from torch import nn

    class Pass(nn.Module):
        def forward(self, image1, image2, flow):
            return image1 if which == "reference" else image2

    return Pass()


def _nt(c):
    return c["h"] % 16 or c["w"] % 16 or c["b"] > 1


@PROP.sub("roundtrip", cases, quick=220, thorough=4000, shards=8)
def roundtrip(c):
    import torch

    m = make_dvc(c)
    if c["alias"]:  # a composition whose compensation hands back one of its inputs
        m.motion_compensation = passthrough(c["alias"])
        m.update(force=False)
    a, b0 = frames(c)
    keep = {}

    def fn(b):
        with torch.no_grad():
            sa, sb = a.clone(), b.clone()
            comp = m.compress(a, b)
            y = m.decompress(a, comp)
            equal(a, sa, "the reference frame was modified")
            equal(b, sb, "the current frame was modified")
            o = m(a, b)
            equal(a, sa, "forward modified the reference frame")
            equal(b, sb, "forward modified the current frame")
        keep.update(comp=comp, o=o)
        ensure(tuple(y.shape) == tuple(b.shape), f"decoded shape {tuple(y.shape)} for {tuple(b.shape)}")
        ensure(bool((y >= 0).all() and (y <= 1).all()), "decoded values outside [0, 1]")
        return y, o.image2_est.clamp(0, 1)

    bad = mismatch(fn, b0, 2e-4)
    ensure(bad is None, f"decoded frame differs from the evaluated model: {bad}")
    o = keep["o"]
    ensure(tuple(o.flow.shape) == (c["b"], 2, c["h"], c["w"]), f"flow shape {tuple(o.flow.shape)}")
    ensure(tuple(o.residual.shape) == tuple(b0.shape), "residual shape")
    return Info(_nt(c), "default" if not c["small"] else "custom", "odd" if c["h"] % 2 or c["w"] % 2 else "even")


@PROP.sub("chain", lambda: st.builds(lambda c, n: dict(c, n=n), cases(40), ints(2, 4)), quick=60, thorough=1200, shards=6,
          rule="groups of pictures: each frame is predicted from the previous decoded one; a second decoder, given only the strings, tracks the encoder")
def chain(c):
    import torch

    m = make_dvc(c)
    other = make_dvc(dict(c, wseed=c["wseed"] + 1))
    other.load_state_dict(m.state_dict())
    other.eval()
    vids = [rnd((c["b"], 3, c["h"], c["w"]), c["seed"] + 7 * t, "uniform") for t in range(c["n"] + 1)]
    with torch.no_grad():
        ref, stream, enc = vids[0], [], []
        for f in vids[1:]:
            comp = m.compress(ref, f)
            stream.append(pickle.dumps(comp))
            ref = m.decompress(ref, comp)
            enc.append(ref)
        ref = vids[0]
        for k, s in enumerate(stream):
            ref = other.decompress(ref, pickle.loads(s))
            close(ref, enc[k], 0, 2e-4, f"decoder drifts from the encoder at frame {k + 1}")
    return Info(True, f"n{c['n']}")


@PROP.sub("rate", cases, quick=100, thorough=1500, shards=6, rule="reported probabilities are probabilities and predict the string length")
def rate(c):
    import torch

    # (symbols beyond the untrained quantiles are escape-coded at a cost the estimate does not model)
    c = dict(c, gm=min(c["gm"], 2.0), gr=min(c["gr"], 2.0))
    m = make_dvc(c)
    a, b = frames(c)
    seen = {}
    for part in ("motion", "residual"):
        getattr(m, part + "_encoder").register_forward_hook(lambda mod, i, out, part=part: seen.__setitem__(part, out[0].detach()))
    with torch.no_grad():
        o = m(a, b)
        comp = m.compress(a, b)

    def escapes(part):
        q, y = getattr(m, part + "_entropy_bottleneck").quantiles.detach(), seen[part]
        return bool(((y < q[:, 0, 0].view(1, -1, 1, 1) + 1) | (y > q[:, 0, 2].view(1, -1, 1, 1) - 1)).any())

    for name, part, p, strings in (("flow", "motion", o.flow_probabilities, comp.compressed_flow), ("residual", "residual", o.resid_probabilities, comp.compressed_residual)):
        ensure(bool((p > 0).all() and (p <= 1 + 1e-5).all()), f"{name} probabilities outside (0, 1]")
        ensure(p.shape[0] == c["b"] and len(strings) == c["b"], "one string per batch item")
        est = -np.log2(p.double().numpy()).reshape(c["b"], -1).sum(1)
        paid = np.array([8 * len(s) for s in strings])
        if float(p.min()) > 1e-4 and not escapes(part):
            ensure(np.all(np.abs(paid - est) <= 0.06 * est + 100), f"{name}: {paid} bits paid, {est} bits reported")
    return Info(_nt(c))


@PROP.sub("train", cases, quick=50, thorough=600, shards=4, rule="training mode: rate terms and reconstruction pass gradients to every sub-network")
def train(c):
    import torch

    m = make_dvc(c).train()
    a, b = frames(c)
    if c["b"] == 1 and not c["gdn"] and min(c["h"], c["w"]) < 33:
        c = dict(c, h=40, w=40)  # batch norm needs more than one value per channel
        a, b = frames(c)
    o = m(a, b)
    (((o.image2_est - b) ** 2).mean() - torch.log(o.flow_probabilities).mean() - torch.log(o.resid_probabilities).mean()).backward()
    for top in ("motion_estimator", "motion_encoder", "motion_decoder", "motion_compensation", "residual_encoder", "residual_decoder"):
        g = [p.grad for n, p in m.named_parameters() if n.startswith(top)]
        ensure(all(x is not None for x in g), f"no gradient reaches {top}")
    for top in ("motion_encoder", "residual_encoder", "motion_compensation"):
        g = sum(float(p.grad.abs().sum()) for n, p in m.named_parameters() if n.startswith(top))
        ensure(g > 0, f"zero gradient in {top}")
    return Info(_nt(c))


def soft_bottleneck():
    """stands in for an entropy bottleneck: deterministic and differentiable"""
    import torch
    from torch import nn

    class Soft(nn.Module):
        def forward(self, x, training=None):
            return x + 0.1 * torch.sin(x), torch.sigmoid(x)

    return Soft()


@PROP.sub("composed", lambda: st.builds(lambda c, soft: dict(c, soft=soft), cases(40), st.booleans()), quick=100, thorough=1200, shards=6,
          rule="forward is the documented chain of its sub-networks: every output and the gradient to every parameter agree with an independent composition")
def composed(c):
    import torch
    from neuralcompression.functional import dense_image_warp

    m = make_dvc(c)
    if c["soft"]:
        m.motion_entropy_bottleneck, m.residual_entropy_bottleneck = soft_bottleneck(), soft_bottleneck()
    m = m.double().eval()
    a, b = (t.double() for t in frames(c))

    def reference():
        z, s = m.motion_encoder(m.motion_estimator(a, b))
        z, pf = m.motion_entropy_bottleneck(z)
        flow = m.motion_decoder(z, s)
        est = m.motion_compensation(a, dense_image_warp(a, flow.permute(0, 2, 3, 1)), flow)
        z, s = m.residual_encoder(b - est)
        z, pr = m.residual_entropy_bottleneck(z)
        res = m.residual_decoder(z, s)
        return flow, est + res, res, pf, pr

    def grads(out):
        loss = sum((t * rnd(t.shape, c["seed"] + k).double()).mean() for k, t in enumerate(out))
        ps = [(n, p) for n, p in m.named_parameters() if not n.endswith("quantiles")]
        return dict(zip([n for n, _ in ps], torch.autograd.grad(loss, [p for _, p in ps], allow_unused=True)))

    ref = reference()
    o = m(a, b)
    got = (o.flow, o.image2_est, o.residual, o.flow_probabilities, o.resid_probabilities)
    for n, x, y in zip(("flow", "image2_est", "residual", "flow_probabilities", "resid_probabilities"), got, ref):
        close(x, y, 1e-8, 1e-8 * (1 + float(y.detach().abs().max())), f"forward's {n} is not that of its sub-networks")
    if c["soft"]:
        g, e = grads(got), grads(ref)
        for n in e:
            ensure((g[n] is None) == (e[n] is None), f"gradient to {n}: {'none' if g[n] is None else 'unexpected'}")
            if e[n] is not None:
                close(g[n], e[n], 1e-6, 1e-9 + 1e-6 * float(e[n].abs().max()), f"gradient to {n}")
    return Info(_nt(c), "soft" if c["soft"] else "hard")


@PROP.sub("tables", lambda: st.builds(lambda c, which, force: dict(c, which=which, force=force), cases(24), pick("motion", "residual", "both", "none"), pick(True, False, None)), quick=40, thorough=400, shards=4,
          rule="update builds every missing table, whichever bottleneck already has one, and says whether it did")
def tables(c):
    import torch
    from compressai.entropy_models import EntropyBottleneck

    m = make_dvc(c)
    for part in ("motion", "residual"):
        if c["which"] in (part, "both"):  # a recomposed model: this part comes without tables
            old = getattr(m, part + "_entropy_bottleneck")
            new = EntropyBottleneck(c["ch"], filters=old.filters)
            new.load_state_dict({k: v for k, v in old.state_dict().items() if k.split(".")[-1] not in ("_offset", "_quantized_cdf", "_cdf_length")}, strict=False)
            setattr(m, part + "_entropy_bottleneck", new.eval())
    a, b = frames(c)
    with torch.no_grad():
        if c["which"] != "none":
            raises(Exception, lambda: m.compress(a, b), "compress without coding tables")
        got = m.update() if c["force"] is None else m.update(force=c["force"])
        ensure(bool(got) == (c["which"] != "none" or c["force"] is not False), f"update() said {got}")

        def fn(x):
            return m.decompress(a, m.compress(a, x)), m(a, x).image2_est.clamp(0, 1)

        bad = mismatch(fn, b, 2e-4)
        ensure(bad is None, f"decoded frame differs from the evaluated model: {bad}")
    return Info(c["which"] != "none", c["which"])


PARTS = ("motion_estimator", "motion_encoder", "motion_entropy_bottleneck", "motion_decoder", "motion_compensation", "residual_encoder", "residual_entropy_bottleneck", "residual_decoder")


@PROP.sub("composition", lambda: fixed(given=st.sets(pick(*PARTS)).map(sorted), ch=ints(1, 9)), quick=60, thorough=300,
          rule="any subset of sub-modules is given; the others come in the requested width")
def composition(c):
    from compressai.entropy_models import EntropyBottleneck
    from neuralcompression.models.deep_video_compression import (
        DVC, DVCCompressionDecoder, DVCCompressionEncoder, DVCMotionCompensationModel, DVCPyramidFlowEstimator,
    )

    ch = c["ch"]
    own = dict(
        motion_estimator=DVCPyramidFlowEstimator(filter_counts=[4, 2], kernel_size=3, levels=2), motion_compensation=DVCMotionCompensationModel(model_channels=5, num_levels=2),
        motion_encoder=DVCCompressionEncoder(2, ch, 3, num_conv_layers=2), motion_decoder=DVCCompressionDecoder(ch, 2, 3, num_conv_layers=2),
        residual_encoder=DVCCompressionEncoder(3, ch, 3, num_conv_layers=2), residual_decoder=DVCCompressionDecoder(ch, 3, 3, num_conv_layers=2),
        motion_entropy_bottleneck=EntropyBottleneck(ch, filters=(2,)), residual_entropy_bottleneck=EntropyBottleneck(ch, filters=(2,)),
    )
    m = DVC(coder_channels=ch, **{k: own[k] for k in c["given"]})
    for k in PARTS:
        got = getattr(m, k)
        ensure((got is own[k]) == (k in c["given"]), lambda: f"{k}: {'the given sub-module is not used' if k in c['given'] else 'not built'}")
    layout = lambda t: {k: tuple(v.shape) for k, v in t.state_dict().items()}
    plain = dict(
        motion_encoder=DVCCompressionEncoder(2, ch, ch, 3, 2, 4, True), motion_decoder=DVCCompressionDecoder(ch, 2, ch, 3, 2, 4, True),
        residual_encoder=DVCCompressionEncoder(3, ch, ch, 5, 2, 4, True), residual_decoder=DVCCompressionDecoder(ch, 3, ch, 5, 2, 4, True),
        motion_entropy_bottleneck=EntropyBottleneck(ch), residual_entropy_bottleneck=EntropyBottleneck(ch),
    )
    for k in set(plain) - set(c["given"]):
        ensure(layout(getattr(m, k)) == layout(plain[k]), lambda: f"default {k} for {ch} channels: {sorted(layout(getattr(m, k)).items())[:4]}")
    return Info(0 < len(c["given"]) < len(PARTS), f"{len(c['given'])} given")
