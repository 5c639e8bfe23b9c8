"""The illm project's modules over a small deterministic model, and an independent reference of
their training steps."""
import copy
import math

import hypothesis.strategies as st

from . import stubs
from .core import rnd, seed_all
from .gen import fl, ints, pick, seeds

LN2 = math.log(2.0)


def stub_metrics():
    """Metrics with pretrained backbones (or minimum image sizes) become recorders."""
    import torch
    from torch import nn

    class Recorder(nn.Module):
        def __init__(self, *a, **k):
            super().__init__()
            self.calls = []
            self.resets = 0

        def forward(self, a, b):
            self.calls.append((a.detach().clone(), b.detach().clone()))
            return (a.double() - b.double()).abs().mean() + 0.25

        def update(self, x, real=None):
            self.calls.append((x.detach().clone(), bool(real)))

        def compute(self):
            tot = torch.tensor(float(len(self.calls)), dtype=torch.float64)
            for x, r in self.calls:
                tot = tot + x.double().mean() * (2.0 if r else 3.0)
            return tot

        def reset(self):
            self.calls = []
            self.resets += 1

    class KID(Recorder):
        def compute(self):
            return super().compute() + 1.0, torch.tensor(-1.0)

    return Recorder, KID


_READY = None


def modules():
    """(image_module, target_compression_module, gan_compression_module) with metric stand-ins."""
    global _READY
    stubs.project("illm")
    if _READY is None:
        import torchmetrics.image as tmi
        import neuralcompression.metrics as ncm

        R, K = stub_metrics()
        for ns, names in ((tmi, ("FrechetInceptionDistance", "LearnedPerceptualImagePatchSimilarity")),
                          (ncm, ("MultiscaleStructuralSimilarity", "DeepImageStructureTextureSimilarity", "FrechetInceptionDistance",
                                 "FrechetInceptionDistanceSwAV"))):
            for n in names:
                setattr(ns, n, R)
        ncm.KernelInceptionDistance = K
        import gan_compression_module
        import image_module
        import target_compression_module

        for m in (image_module, target_compression_module, gan_compression_module):
            for n in ("MultiscaleStructuralSimilarity", "FrechetInceptionDistance", "LearnedPerceptualImagePatchSimilarity"):
                if hasattr(m, n):
                    setattr(m, n, R)
        _READY = (image_module, target_compression_module, gan_compression_module)
    return _READY


def make_model(c):
    import torch
    from torch import nn
    from neuralcompression import HyperpriorOutput

    class Bottleneck(nn.Module):
        def __init__(self, n):
            super().__init__()
            if n:
                self.quantiles = nn.Parameter(torch.randn(n, dtype=torch.float64))
            self.goal = torch.linspace(-1, 1, max(n, 1), dtype=torch.float64)
            # a density parameter, trained with the model; as in compressai the
            # quantile loss follows it without giving it a gradient
            self.matrix = nn.Parameter(torch.rand(1, dtype=torch.float64) + 0.5)

        def loss(self):
            goal = self.goal * self.matrix.detach()
            return ((self.quantiles - goal) ** 2 * (1 + self.goal**2)).sum()

    class Model(nn.Module):
        def __init__(self):
            super().__init__()
            L = c["lat"]
            kw = dict(dtype=torch.float64)
            self.encoder = nn.Conv2d(3, L, 4, stride=4, **kw)
            self.decoder = nn.ConvTranspose2d(L, 3, 4, stride=4, **kw)
            self.prior = nn.Parameter(torch.rand(2, L, 1, 1, **kw) + 0.5)
            self.hyper = nn.Conv2d(L, 2, 1, **kw)
            self.hyper_bottleneck = Bottleneck(c["nq"])
            self.extra = nn.Parameter(torch.randn(3, **kw))  # may be frozen; shifts the image

        def forward(self, x):
            y = self.encoder(x)
            img = self.decoder(y) + 0.1 * self.extra.view(1, 3, 1, 1)
            z = self.hyper(y).mean((2, 3), keepdim=True)
            lik = torch.sigmoid(self.prior[0] * y + 1.0)
            qlik = torch.sigmoid(self.prior[0] * y.round() + 0.6)
            zl = torch.sigmoid(z * self.prior[1, :1] + 0.6 * self.hyper_bottleneck.matrix)
            qzl = torch.sigmoid(z.round() * self.prior[1, :1] - 0.2 * self.hyper_bottleneck.matrix)
            return HyperpriorOutput(
                image=img, latent=y, latent_likelihoods=lik, quantized_latent_likelihoods=qlik, hyper_latent=z,
                hyper_latent_likelihoods=zl, quantized_hyper_latent_likelihoods=qzl, quantized_latent=y.round(), quantized_hyper_latent=z.round(),
            )

        def collect_parameters(self):
            ps = [(n, p) for n, p in self.named_parameters() if p.requires_grad]
            return [p for n, p in ps if not n.endswith(".quantiles")], [p for n, p in ps if n.endswith(".quantiles")]

    seed_all(c["wseed"])
    m = Model()
    with torch.no_grad():
        m.encoder.weight.mul_(c["gain"])
        m.decoder.weight.mul_(0.5)
        m.decoder.bias.add_(0.5)
    if c["frozen"]:
        m.extra.requires_grad_(False)
        m.encoder.bias.requires_grad_(False)
    return m


def make_disc(c):
    import torch
    from torch import nn

    class Disc(nn.Module):
        def __init__(self):
            super().__init__()
            kw = dict(dtype=torch.float64)
            self.is_conditional = c["cond"]
            self.a = nn.Conv2d(3, c["K"], 4, stride=4, **kw)
            if c["cond"]:
                self.b = nn.Conv2d(c["lat"], c["K"], 1, **kw)

        if c["cond"]:
            def forward(self, image, context):
                return torch.tanh(self.a(image) + self.b(context))
        else:
            def forward(self, image):
                return torch.tanh(self.a(image))

    seed_all(c["wseed"] + 1)
    return Disc()


def make_gan_losses():
    from neuralcompression.loss_fn import DiscriminatorLoss, GeneratorLoss

    class D(DiscriminatorLoss):
        def __call__(self, real_logits, fake_logits, target):
            t = 0.3 * target.double()
            return ((real_logits - t) ** 2).mean() + 0.7 * ((fake_logits + 0.4) ** 2).mean()

    class G(GeneratorLoss):
        def __call__(self, logits, target):
            return ((logits - 0.2 * target.double()) ** 2).mean() * 1.3

    return D(), G()


def make_projector(c):
    import torch
    from torch import nn

    class P(nn.Module):
        def __init__(self):
            super().__init__()
            self.w = nn.Parameter(torch.ones(1, dtype=torch.float64))

        def forward(self, x):
            z = torch.nn.functional.avg_pool2d((x * self.w).mean(1, keepdim=True), 4)
            return (z * c["K"]).floor().clamp(0, c["K"] - 1) if c["proj"] == "hard" else z * c["K"]

    return P()


def opt_cfg(c):
    def opt(k, lr):
        if c["opt"] == "sgd":
            return {"_target_": "torch.optim.SGD", "lr": lr, "momentum": 0.5}
        return {"_target_": "torch.optim.AdamW", "lr": lr / 10, "weight_decay": 0.01, "eps": 1e-3}

    def sched(g):
        return {"_target_": "torch.optim.lr_scheduler.StepLR", "step_size": 1, "gamma": g}

    d = {"model_opt": opt("m", c["lr"]), "model_opt_schedule": sched(0.8), "aux_opt": opt("q", 0.05), "aux_opt_schedule": sched(0.7),
         "discriminator_opt": opt("d", 0.1), "discriminator_opt_schedule": sched(0.6)}
    return stubs.DictConfig(d)


@st.composite
def schedule(draw, n=3, hi=8):
    k = draw(ints(0, n))
    steps = sorted(draw(st.lists(ints(0, hi), min_size=k, max_size=k)))
    return [draw(st.lists(fl(0.2, 3.0), min_size=k + 1, max_size=k + 1)), steps]


@st.composite
def train_cases(draw, gan=False, max_steps=4):
    c = dict(
        lat=draw(ints(1, 4)), nq=draw(ints(0, 3)) if gan else draw(ints(1, 3)), wseed=draw(ints(0, 200)), gain=draw(fl(0.3, 6.0)), frozen=draw(st.booleans()),
        b=draw(ints(1, 5)), h=4 * draw(ints(1, 4)), w=4 * draw(ints(1, 4)), seed=draw(seeds), lam=draw(fl(0.0, 2.0)),
        dist=draw(pick("default", "default", "one", "custom")), clip=draw(pick(None, None, 0.05, 1.0, 1e6)), alg=draw(pick("norm", "value")),
        opt=draw(pick("sgd", "sgd", "adamw")), lr=draw(pick(1e-4, 1e-3, 0.02)),
        target=draw(fl(0.05, 2.0)), tsched=draw(schedule()), lams=sorted([draw(fl(0.1, 4.0)), draw(fl(0.1, 4.0))]), lsched=draw(schedule()),
        gs=draw(st.lists(ints(0, 3), min_size=draw(pick(1, 2, 3)), max_size=max_steps)), between=draw(pick(None, 0, 0, 1, 2)),
    )
    if c["dist"] == "default" and c["opt"] == "sgd" and c["clip"] not in (0.05, 1.0):
        c["lr"] /= 3000  # the default loss is scaled by 255**2: do not diverge
    if gan:
        c.update(K=draw(ints(1, 4)), cond=draw(st.booleans()), proj=draw(pick("none", "hard", "soft")), gw=draw(pick(0.0, 0.5, 1.0, 3.0)),
                 mc=draw(st.booleans()))
        if c["mc"]:
            c["b"] = max(2, c["b"])
    return c


def distortion(c):
    from neuralcompression.loss_fn import DistortionLoss, MSELoss

    if c["dist"] == "default":
        return None, lambda a, b: 255.0**2 * ((a - b) ** 2).mean()
    if c["dist"] == "one":
        return MSELoss(scale_param=1.0), lambda a, b: ((a - b) ** 2).mean()

    class L(DistortionLoss):
        def __call__(self, image, reference):
            return (0.5 * (image - reference) ** 2 + 0.1 * image * reference).mean()

    return L(), lambda a, b: (0.5 * (a - b) ** 2 + 0.1 * a * b).mean()


def rate_config(c):
    from neuralcompression.loss_fn import TargetRateConfig

    return TargetRateConfig(c["target"], list(c["tsched"][0]), list(c["tsched"][1]), tuple(c["lams"]), list(c["lsched"][0]), list(c["lsched"][1]))


def scheduled(base, sched, step):
    for f, s in zip(*sched):
        if step < s:
            return base * f
    return base * sched[0][-1]


def bits(lik):
    return -(lik.log() / LN2).flatten(1).sum(1)


def ref_rate(c, x, out, step):
    """Reference of the rate loss; also says how far each image is from the target (tie guard)."""
    import torch

    n = x.shape[-1] * x.shape[-2]
    lat, qlat = bits(out.latent_likelihoods) / n, bits(out.quantized_latent_likelihoods) / n
    hyp, qhyp = bits(out.hyper_latent_likelihoods) / n, bits(out.quantized_hyper_latent_likelihoods) / n
    target = scheduled(c["target"], c["tsched"], step)
    lam2 = scheduled(c["lams"][1], c["lsched"], step)
    tot, qtot = lat + hyp, qlat + qhyp
    loss = 0.0
    over = 0
    margin = 1e9
    for i in range(x.shape[0]):
        above = float(qtot[i]) > target
        over += above
        margin = min(margin, abs(float(qtot[i]) - target))
        loss = loss + (lam2 if above else c["lams"][0]) * tot[i]
    loss = loss / x.shape[0]
    d = dict(rate_loss=loss, total_bpp=tot.mean(), quantized_total_bpp=qtot.mean(), latent_bpp=lat.mean(), quantized_latent_bpp=qlat.mean(),
             hyper_bpp=hyp.mean(), quantized_hyper_bpp=qhyp.mean(), target=target, lam2=lam2)
    return d, margin, over


class RefOpt:
    """SGD with momentum / AdamW written out, with one exponential schedule per group."""

    def __init__(self, c, params, lr, gamma):
        import torch

        self.c, self.params, self.gamma, self.t = c, params, gamma, 0
        self.lr = lr if c["opt"] == "sgd" else lr / 10
        self.m = [torch.zeros_like(p) for p in params]
        self.v = [torch.zeros_like(p) for p in params]

    def step(self, grads, clip=None, alg="norm"):
        import torch

        grads = [torch.zeros_like(p) if g is None else g for p, g in zip(self.params, grads)]
        if clip is not None:
            if alg == "norm":
                n = math.sqrt(sum(float((g**2).sum()) for g in grads))
                k = min(1.0, clip / (n + 1e-6))
                grads = [g * k for g in grads]
            else:
                grads = [g.clamp(-clip, clip) for g in grads]
        self.t += 1
        with torch.no_grad():
            for i, (p, g) in enumerate(zip(self.params, grads)):
                if self.c["opt"] == "sgd":
                    self.m[i] = g.clone() if self.t == 1 else 0.5 * self.m[i] + g
                    p.sub_(self.lr * self.m[i])
                else:
                    p.mul_(1 - self.lr * 0.01)
                    self.m[i] = 0.9 * self.m[i] + 0.1 * g
                    self.v[i] = 0.999 * self.v[i] + 0.001 * g * g
                    mh, vh = self.m[i] / (1 - 0.9**self.t), self.v[i] / (1 - 0.999**self.t)
                    p.sub_(self.lr * mh / (vh.sqrt() + 1e-3))
        self.lr *= self.gamma


def twin(m):
    """A copy whose parameters are all plain tensors the reference differentiates explicitly."""
    r = copy.deepcopy(m)
    for p in r.parameters():
        p.requires_grad_(True)
    return r


def trainable(m, names):
    return [p for n, p in m.named_parameters() if n in names]


def batches(c):
    import torch

    for i, g in enumerate(c["gs"]):
        x = rnd((c["b"], 3, c["h"], c["w"]), c["seed"] + i, "uniform", torch.float64)
        k = rnd((c["b"], 2, 1, 1), c["seed"] + i + 7919, "uniform", torch.float64)  # images of different brightness and contrast
        yield g, ((x - 0.5) * k[:, :1] + 0.25 + 0.5 * k[:, 1:]).clamp(0, 1)


def aim(c, m):
    """Place the target between the rates of two images of the first batch (if the case says so)."""
    import torch

    if c.get("between") is None:
        return c
    with torch.no_grad():
        g, x = next(iter(batches(c)))
        if c.get("mc"):
            x = x[: x.shape[0] // 2]
        q = m(x)
        r = sorted(float(v) for v in (bits(q.quantized_latent_likelihoods) + bits(q.quantized_hyper_latent_likelihoods)) / (x.shape[-1] * x.shape[-2]))
    k = c["between"] % len(r)
    mid = (r[k] + r[k + 1]) / 2 if k + 1 < len(r) else r[k] * 1.1
    return dict(c, target=max(1e-3, mid / scheduled(1.0, c["tsched"], g)))


def diverged(loss, grads):
    """Training blew up (likelihoods underflow, products of infinities): nothing left to compare."""
    import torch

    return not (float(loss.detach().abs()) < 1e7 and all(g is None or bool((g.abs() < 1e7).all()) for g in grads))
