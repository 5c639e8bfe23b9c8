"""Builders for the codecs under test, with weights that make the bitstream non-trivial."""
import hypothesis.strategies as st

from .core import rnd, seed_all
from .gen import fl, ints, pick, seeds


@st.composite
def hific_cfgs(draw, rate=False):
    return dict(
        cin=draw(pick(3, 3, 1, 4)), lat=draw(ints(2, 8)), hyp=draw(ints(2, 7)),
        res=draw(pick(0, 0, 1)), wseed=draw(ints(0, 50)),
        ge=draw(fl(1.0, 8.0)), ga=draw(fl(1.0, 3.0)), gs=draw(fl(0.5, 2.0)),
        sigma=draw(fl(0.3, 20.0)),
    )


def make_hific(c, update=True, **kw):
    import torch
    from neuralcompression.models import HiFiCAutoencoder

    seed_all(c["wseed"])
    m = HiFiCAutoencoder(c["cin"], c["lat"], c["hyp"], c["res"], **kw)
    with torch.no_grad():
        for n, p in m.named_parameters():
            if p.dim() == 4:
                if n.startswith("encoder"):
                    p.mul_(c["ge"])
                elif n.startswith("hyper_analysis"):
                    p.mul_(c["ga"])
                elif n.startswith("hyper_synthesis"):
                    p.mul_(c["gs"])
                elif n.startswith("decoder") and p.shape[0] == c["cin"]:
                    p.mul_(0.12 * c.get("gd", 1.0))
            elif p.dim() == 1 and n.startswith("decoder") and p.shape[0] == c["cin"]:
                p.add_(0.5)
            elif p.dim() == 1 and n.startswith("hyper_synthesis_mean"):
                p.add_(c.get("mu", 1.0) * torch.randn_like(p))
            elif p.dim() == 1 and n.startswith("hyper_synthesis_scale") and p.shape[0] == c["lat"]:
                p.add_(c["sigma"] * (0.5 + torch.rand_like(p)))
            elif n.endswith("quantiles"):
                # shift the learnt medians off zero
                p[:, :, :] += torch.randn(p.shape[0], 1, 1) * 0.3
    m.eval()
    if update:
        m.update()
    return m


def image(c, b, ch, h, w):
    return rnd((b, ch, h, w), c["seed"], c.get("kind", "uniform"))


def jitter(x, k):
    """A slightly different image: separates systematic mismatches from rounding ties."""
    lo, hi = min(0.0, float(x.min())), max(1.0, float(x.max()))
    return (x + 2e-3 * (k + 1) * (rnd(x.shape, 977 + k, "uniform") - 0.5)).clamp(lo, hi)


def mismatch(fn, x, tol, tries=3):
    """fn(x) -> (a, b) that should agree.  A rounding tie may legitimately flip one symbol on one
    input when an implementation reorders float operations, so a mismatch only counts when it
    also shows on jittered copies of the input.  Returns None or the size of the mismatch."""
    worst = None
    for k in range(-1, tries):
        a, b = fn(x if k < 0 else jitter(x, k))
        if tuple(a.shape) != tuple(b.shape):
            return f"shapes {tuple(a.shape)} vs {tuple(b.shape)}"
        d = float((a - b).abs().max())
        if d <= tol:  # (NaN compares false: a mismatch)
            return None
        worst = d
    return f"max difference {worst} (tolerance {tol})"


@st.composite
def dvc_cfgs(draw):
    return dict(
        small=draw(st.booleans()), ch=draw(pick(3, 4, 8)), levels=draw(ints(1, 4)), mclevels=draw(ints(1, 3)),
        mlayers=draw(ints(1, 4)), rlayers=draw(ints(1, 4)), gdn=draw(pick(True, True, True, False)),
        wseed=draw(ints(0, 50)), gm=draw(fl(1.0, 6.0)), gr=draw(fl(1.0, 6.0)), gf=draw(fl(1.0, 3.0)),
        median=draw(st.booleans()),
    )


def make_dvc(c, update=True):
    import torch
    from neuralcompression.models.deep_video_compression import (
        DVC, DVCCompressionDecoder, DVCCompressionEncoder, DVCMotionCompensationModel, DVCPyramidFlowEstimator,
    )

    from compressai.entropy_models import EntropyBottleneck

    seed_all(c["wseed"])
    ch = c["ch"]
    if c["small"]:
        kw = dict(filter_channels=ch, use_gdn=c["gdn"])
        own = {}
        if (c["mlayers"] + c["rlayers"]) % 3 != 0:
            own["motion_entropy_bottleneck"] = EntropyBottleneck(ch, filters=(2, 3), init_scale=12.0)
        if (c["mlayers"] + c["rlayers"]) % 3 != 1:
            own["residual_entropy_bottleneck"] = EntropyBottleneck(ch, filters=(3,), init_scale=16.0)
        m = DVC(
            coder_channels=ch,
            motion_estimator=DVCPyramidFlowEstimator(filter_counts=[6, 2], kernel_size=3, levels=c["levels"]),
            motion_encoder=DVCCompressionEncoder(out_channels=ch, num_conv_layers=c["mlayers"], **kw),
            motion_decoder=DVCCompressionDecoder(in_channels=ch, num_conv_layers=c["mlayers"], **kw),
            motion_compensation=DVCMotionCompensationModel(model_channels=6, num_levels=c["mclevels"]),
            residual_encoder=DVCCompressionEncoder(in_channels=3, out_channels=ch, num_conv_layers=c["rlayers"], kernel_size=5, **kw),
            residual_decoder=DVCCompressionDecoder(in_channels=ch, out_channels=3, num_conv_layers=c["rlayers"], kernel_size=5, **kw),
            **own,
        )
    else:
        m = DVC(coder_channels=ch)
    with torch.no_grad():
        for n, p in m.named_parameters():
            if p.dim() == 4:
                if n.startswith("motion_encoder"):
                    p.mul_(c["gm"])
                elif n.startswith("residual_encoder"):
                    p.mul_(c["gr"])
                elif n.startswith("motion_estimator"):
                    p.mul_(c["gf"])
            elif n.endswith("quantiles") and c["median"]:
                p[:, :, :] += torch.randn(p.shape[0], 1, 1) * 0.4
            elif p.dim() == 1 and n.startswith("motion_compensation") and p.shape[0] == 3:
                p.add_(0.5)
    m.eval()
    if update:
        m.update(force=True)
    return m
