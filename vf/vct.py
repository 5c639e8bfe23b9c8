"""Access to the VCT project, whose modules import each other as top-level packages."""
import os
import sys


def repo():
    return os.environ.get("VF_REPO", "/repo")


def ensure_path():
    p = os.path.join(repo(), "projects", "torch_vct")
    if p not in sys.path:
        sys.path.insert(0, p)
    return p


_BN = {}


def bottleneck(num_scales=256, num_means=100, min_scale=0.01, tail=2**-8, fresh=False, cls=None):
    """An updated bottleneck (building the default tables takes ~1 s, so they are shared)."""
    from projects.torch_vct.neural.bottlenecks import GsnConditionalLocScaleShift as G

    G = cls or G
    key = (G, num_scales, num_means, min_scale, tail)
    if fresh or key not in _BN:
        b = G(num_scales=num_scales, num_means=num_means, min_scale=min_scale, tail_mass=tail)
        b.eval()
        b.update(force=True)
        if fresh:
            return b
        _BN[key] = b
    return _BN[key]


def entropy_model(c, geom=(32, 8, 0.05, 2**-8)):
    """A small temporal entropy model whose predictions vary (the default init predicts a constant)."""
    import torch
    from .core import seed_all
    from projects.torch_vct.neural.entropy_model import VCTEntropyModel

    seed_all(c["wseed"])
    m = VCTEntropyModel(
        num_channels=c["C"], context_len=c["ctx"], window_size_enc=c["enc"], window_size_dec=c["dec"],
        num_layers_encoder_sep=c["ls"], num_layers_encoder_joint=c["lj"], num_layers_decoder=c["ld"],
        d_model=c["d"], num_head=c["heads"], mlp_expansion=2,
    )
    spread_weights(m, c["gain"])
    m.bottleneck = bottleneck(*geom)
    return m.eval()


def spread_weights(m, gain):
    import torch

    with torch.no_grad():
        for n, p in m.named_parameters():
            if p.dim() == 2:
                p.copy_(torch.randn_like(p) * gain / p.shape[1] ** 0.5)
            elif n.endswith("bias"):
                p.add_(torch.randn_like(p) * 0.3)
            elif n.endswith("_emb"):
                p.copy_(torch.randn_like(p))


def pipeline(c):
    """A VCTPipeline around a small entropy model and small transforms."""
    import functools

    import torch

    from .core import seed_all

    ensure_path()
    import model_pipeline
    import neural.entropy_model as em
    import neural.transforms as T

    orig = em.VCTEntropyModel
    small = functools.partial(
        orig, window_size_enc=c["enc"], window_size_dec=c["dec"], num_layers_encoder_sep=1,
        num_layers_encoder_joint=1, num_layers_decoder=1, d_model=8, num_head=2, mlp_expansion=2,
    )
    seed_all(c["wseed"])
    C = c["C"]
    if c["kind"] == "gdn":
        a, s = T.ConvGDNAnalysis(6, C), T.ConvGDNSynthesis(6, C)
    else:
        a = T.ELICAnalysis(1, [4, 4, 6, C], max_frames=c.get("mf"))
        s = T.ELICSynthesis(1, [C, 6, 4, 3], max_frames=c.get("mf"))
    had = getattr(model_pipeline, "VCTEntropyModel", None)
    try:
        model_pipeline.VCTEntropyModel = small
        em.VCTEntropyModel = small
        m = model_pipeline.VCTPipeline(a, s, C, context_len=c["ctx"])
    finally:
        em.VCTEntropyModel = orig
        if had is not None:
            model_pipeline.VCTEntropyModel = had
    spread_weights(m.entropy_model, c["gain"])
    with torch.no_grad():
        for n, p in m.named_parameters():
            if p.dim() == 4 and n.startswith("analysis"):
                p.mul_(c["ga"])
    m.entropy_model.bottleneck = bottleneck(32, 8, 0.05, 2**-8, cls=__import__("neural.bottlenecks", fromlist=["x"]).GsnConditionalLocScaleShift)
    return m.eval()


def video(t):
    ensure_path()
    from datamodules.video_data_api import VideoDataset

    return VideoDataset(t)
