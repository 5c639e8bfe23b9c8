"""The DVC project's training stages over a small deterministic DVC model in float64."""
import math

import hypothesis.strategies as st

from . import stubs
from .core import rnd, seed_all
from .gen import fl, ints, pick, seeds

STAGES = ("1_motion_estimation", "2_motion_compression", "3_motion_compensation", "4_total_2frame", "5_total")
_READY = None


def modules():
    global _READY
    stubs.project("deep_video_compression")
    import torchmetrics

    if not hasattr(torchmetrics, "PSNR"):  # the project pins a torchmetrics that still has this name
        torchmetrics.PSNR = torchmetrics.PeakSignalNoiseRatio
    import compressai.zoo

    compressai.zoo.models["vf-iframe"] = make_iframe
    import dvc_module

    return dvc_module


IFRAME = {}


def make_iframe(quality, pretrained=False, **kw):
    import torch
    from torch import nn

    class IFrame(nn.Module):
        def __init__(self):
            super().__init__()
            self.w = nn.Parameter(torch.tensor([0.9, 0.05], dtype=torch.float64))
            self.updates = 0
            self.request = (quality, pretrained)

        def update(self, force=False):
            self.updates += 1

        def forward(self, x):
            noise = 0.3 if self.training else 0.0  # a training-mode pass would be different
            y = self.w[0] * x + self.w[1] + noise
            p = torch.sigmoid(x - 0.5 + 0.1 * quality)
            return {"x_hat": y, "likelihoods": {"y": p, "z": p[:, :1, ::2, ::2] * 0.9}}

    return IFrame()


def make_dvc(c):
    import torch
    import torch.nn.functional as F
    from torch import nn
    from neuralcompression.models import DVC

    kw = dict(dtype=torch.float64)

    class Est(nn.Module):
        def __init__(self):
            super().__init__()
            self.conv = nn.Conv2d(6, 2, 3, padding=1, **kw)

        def forward(self, a, b):
            return self.conv(torch.cat((a, b), 1))

        def calculate_flow_with_image_pairs(self, a, b):
            import neuralcompression.functional as ncF

            pairs = []
            flow = torch.zeros_like(a[:, :2])
            for k in range(c["nlev"]):
                flow = self.conv(torch.cat((a, b), 1)) * (k + 1) / c["nlev"] + 0.1 * flow
                pairs.append((ncF.dense_image_warp(a, flow.permute(0, 2, 3, 1)), b * (1 - 0.1 * k)))
            return flow, pairs

    class Enc(nn.Module):
        def __init__(self, i, o):
            super().__init__()
            self.conv = nn.Conv2d(i, o, 2, stride=2, **kw)

        def forward(self, x):
            return self.conv(F.pad(x, (0, x.shape[-1] % 2, 0, x.shape[-2] % 2))), [x.shape]

    class Dec(nn.Module):
        def __init__(self, i, o):
            super().__init__()
            self.conv = nn.ConvTranspose2d(i, o, 2, stride=2, **kw)

        def forward(self, x, sizes):
            return self.conv(x)[..., : sizes[-1][-2], : sizes[-1][-1]]

    class Bot(nn.Module):
        def __init__(self, n):
            super().__init__()
            self.scale = nn.Parameter(torch.rand(1, n, 1, 1, **kw) + 0.5)
            self.quantiles = nn.Parameter(torch.randn(n, **kw))
            self.updates = []
            self.built = False

        def forward(self, x):
            return x * 0.98, torch.sigmoid(self.scale * x + 0.5)

        def loss(self):
            return (self.quantiles**2 * torch.arange(1, self.quantiles.numel() + 1)).sum()

        def update(self, force=False):
            if self.built and not force:  # like compressai: existing tables are kept unless forced
                return False
            self.built = True
            self.updates.append(force)
            return True

    class Comp(nn.Module):
        def __init__(self):
            super().__init__()
            self.conv = nn.Conv2d(8, 3, 3, padding=1, **kw)

        def forward(self, a, b, flow):
            return 0.8 * b + 0.2 * self.conv(torch.cat((a, b, flow), 1))

    seed_all(c["wseed"])
    m = DVC(coder_channels=2, motion_estimator=Est(), motion_encoder=Enc(2, 3), motion_entropy_bottleneck=Bot(3), motion_decoder=Dec(3, 2), motion_compensation=Comp(),
            residual_encoder=Enc(3, 2), residual_entropy_bottleneck=Bot(2), residual_decoder=Dec(2, 3))
    if c["frozen"]:
        m.motion_estimator.conv.bias.requires_grad_(False)
    return m


@st.composite
def cases(draw):
    stage = draw(pick(*STAGES))
    return dict(
        stage=stage, wseed=draw(ints(0, 300)), nlev=draw(ints(1, 3)), frozen=draw(pick(False, False, True)), b=draw(ints(1, 3)), h=draw(ints(2, 9)), w=draw(ints(2, 9)),
        np=draw(ints(1, 4)), extra=draw(ints(0, 2)), seed=draw(seeds), lam=draw(fl(0.1, 300.0)), lr=draw(pick(1e-4, 1e-3, 0.01)), alr=draw(pick(1e-3, 0.05)),
        sched=draw(pick(None, [1, 0.5], [2, 0.3])), clip=draw(pick(1e-3, 0.1, 1.0, 1e6)), steps=draw(ints(1, 3)), q=draw(ints(1, 8)),
    )


PARTS = {"1": ("motion_estimator",), "2": ("motion_estimator", "motion_encoder", "motion_entropy_bottleneck", "motion_decoder"),
         "3": ("motion_estimator", "motion_encoder", "motion_entropy_bottleneck", "motion_decoder", "motion_compensation")}


def in_stage(c, name):
    parts = PARTS.get(c["stage"][0])
    return parts is None or name.split(".")[0] in parts


def warp(image, flow):
    """Bilinear backward warp with border clamping (the oracle of the warp itself is P07)."""
    import neuralcompression.functional as ncF

    return ncF.dense_image_warp(image, flow.permute(0, 2, 3, 1))


def nbits(p):
    return -(p.log() / math.log(2.0)).sum()


def ref_frame(c, m, a, b):
    """(distortion, flow rate or None, residual rate or None, estimate) of one P-frame."""
    n = a.shape[0] * a.shape[-1] * a.shape[-2]
    s = c["stage"][0]
    mse = lambda x, y: c["lam"] * ((x - y) ** 2).mean()
    if s == "1":
        flow, pairs = m.motion_estimator.calculate_flow_with_image_pairs(a, b)
        return sum(mse(x, y) for x, y in pairs) / len(pairs), None, None, warp(a, flow).detach()
    lat, sizes = m.motion_encoder(m.motion_estimator(a, b))
    lat, p = m.motion_entropy_bottleneck(lat)
    flow = m.motion_decoder(lat, sizes)
    est = warp(a, flow)
    if s == "2":
        return mse(est, b), nbits(p) / n, None, est.detach()
    est = m.motion_compensation(a, est, flow)
    if s == "3":
        return mse(est, b), nbits(p) / n, None, est.detach()
    res, sizes = m.residual_encoder(b - est)
    res, rp = m.residual_entropy_bottleneck(res)
    est = est + m.residual_decoder(res, sizes)
    return mse(est, b), nbits(p) / n, nbits(rp) / n, est.detach()


class Adam:
    def __init__(self, params, lr):
        import torch

        self.p, self.lr, self.t = params, lr, 0
        self.m = [torch.zeros_like(p) for p in params]
        self.v = [torch.zeros_like(p) for p in params]

    def step(self, grads):
        """Parameters that did not take part get no update (PyTorch skips a missing gradient)."""
        import torch

        self.t += 1
        with torch.no_grad():
            for i, (p, g) in enumerate(zip(self.p, grads)):
                if g is None:
                    continue
                self.m[i] = 0.9 * self.m[i] + 0.1 * g
                self.v[i] = 0.999 * self.v[i] + 0.001 * g * g
                p.sub_(self.lr * (self.m[i] / (1 - 0.9**self.t)) / ((self.v[i] / (1 - 0.999**self.t)).sqrt() + 1e-8))


def iframe_ref(c, x):
    import torch

    y = 0.9 * x + 0.05
    p = torch.sigmoid(x - 0.5 + 0.1 * c["q"])
    n = x.shape[0] * x.shape[-1] * x.shape[-2]
    return y, (nbits(p) + nbits(p[:, :1, ::2, ::2] * 0.9)) / n


def batches(c):
    import torch

    for i in range(c["steps"]):
        yield rnd((c["b"], c["np"] + 1 + c["extra"], 3, c["h"], c["w"]), c["seed"] + i, "uniform", torch.float64)
