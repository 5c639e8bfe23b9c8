"""P43: the loss, the metrics and the reported rates of the transformer video codec's training module."""
import math

import hypothesis.strategies as st

from .. import stubs, vct
from ..core import Info, Prop, close, ensure, equal, raises, rnd
from ..gen import fl, ints, pick, seeds
from .p37_rate_training import collect

PROP = Prop(
    "P43",
    "cases = (clip shape, reconstruction errors from tiny to beyond the displayable range, likelihoods, loss weight, optimizer config) and real small "
    "codecs for the test loop; oracle = float64 formulas for loss, gradient, PSNR and bits per pixel; non-trivial = several frames",
    assumptions=["pytorch_lightning, hydra and omegaconf are not installed: minimal stand-ins with their documented contract are used"],
)


def module():
    vct.ensure_path()
    stubs.project("torch_vct")
    import model_lightning

    return model_lightning


def preload():
    module()
    import neural.bottlenecks as nb

    vct.bottleneck(32, 8, 0.05, 2**-8, cls=nb.GsnConditionalLocScaleShift)


PROP.preload = preload


def make_model(c):
    import torch
    from torch import nn

    class Model(nn.Module):
        def __init__(self):
            super().__init__()
            self.err = nn.Parameter(rnd((c["B"], c["T"], 3, c["h"], c["w"]), c["seed"] + 1, "normal", torch.float64, c["scale"]) + c["shift"])
            self.lik = nn.Parameter(rnd((c["T"], c["B"] * 2, 3, 4), c["seed"] + 2, "uniform", torch.float64) * 0.9 + 0.05)
            self.frozen = nn.Parameter(torch.ones(2, dtype=torch.float64), requires_grad=False)
            self.bot = nn.Module()
            self.bot.quantiles = nn.Parameter(torch.ones(3, dtype=torch.float64))

        def forward(self, video):
            return video.video_tensor + self.err, [self.lik]

        def compute_rate(self, scenes_likelihoods, per_frame=False):
            b = -scenes_likelihoods.log2()
            return b.flatten(1).sum(1) if per_frame else b.sum()

    return Model()


def video(x):
    vct.ensure_path()
    from datamodules.video_data_api import VideoDataset

    return VideoDataset(x)


def cfg(c):
    return stubs.DictConfig(
        optim={"_target_": "torch.optim.SGD", "lr": c["lr"]}, scheduler={"_target_": "torch.optim.lr_scheduler.StepLR", "step_size": 3, "gamma": 0.5},
        training_loop={"lr_annealing_frequency": c["freq"], "distortion_lambda": c["lam"]},
    )


@st.composite
def cases(draw):
    return dict(B=draw(ints(1, 3)), T=draw(ints(1, 5)), h=draw(ints(1, 6)), w=draw(ints(1, 6)), seed=draw(seeds), scale=draw(pick(1e-3, 0.02, 0.1, 0.5, 2.0)),
                shift=draw(pick(0.0, 0.0, 0.1, -0.3, 0.7)), lam=draw(st.one_of(fl(1e-4, 0.1), fl(0.1, 20.0))), lr=draw(fl(1e-4, 0.1)), freq=draw(ints(1, 9)))


def psnr(a, b, peak):
    """Mean over frames of the per-frame PSNR."""
    import torch

    mse = ((a.double() - b.double()) ** 2).mean((2, 3, 4))
    return float((10 * torch.log10(peak**2 / mse)).mean())


def levels(x):
    return (x.clamp(0, 1) * 255 + 0.5).floor()


def reference(c, m, x):
    import torch

    rec = x + m.err
    n = c["B"] * c["h"] * c["w"]
    d = torch.stack([((rec[:, t] - x[:, t]) ** 2).mean() for t in range(c["T"])])
    r = torch.stack([-(m.lik[t].log() / math.log(2)).sum() / n for t in range(c["T"])])
    comb = c["lam"] * 255.0**2 * d + r
    w = torch.tensor([1.0] + [10.0] * (c["T"] - 1), dtype=torch.float64)
    return rec, d, r, comb, (comb * w).mean()


def tie(*xs):
    return any(bool((((x.clamp(0, 1) * 255 + 0.5) - (x.clamp(0, 1) * 255 + 0.5).round()).abs() < 1e-6).any() and ((x > 0) & (x < 1)).any()) for x in xs)


def check_metrics(c, got, rec, x, d, r, comb, weighted, pre, names):
    import torch

    for k, v in (("distortion_loss", d.mean()), ("rate_loss", r.mean()), ("combined_loss", comb.mean()), ("combined_loss_weighted", weighted)):
        close(float(got[pre + k]), float(v), 1e-5, 1e-9, pre + k)
    close(float(got[pre + "PSNR"]), psnr(rec, x, 1.0), 1e-5, 1e-4, pre + "PSNR")
    a, b = levels(rec), levels(x)
    if bool((((a - b) ** 2).flatten(2).sum(2) == 0).any()):
        return  # an exact frame has infinite PSNR
    close(float(got[pre + "PSNR_int"]), psnr(a, b, 255.0), 1e-4, 1e-3, pre + "PSNR_int")


@PROP.sub("training_step", cases, quick=300, thorough=8000)
def training_step(c):
    import torch

    m = make_model(c)
    mod = module().VCTModule(m, cfg(c))
    mod.train()
    x = rnd((c["B"], c["T"], 3, c["h"], c["w"]), c["seed"], "uniform", torch.float64)
    loss = mod.training_step(video(x), 0)
    rec, d, r, comb, want = reference(c, m, x)
    if tie(rec.detach(), x):
        return Info(False, "tie")
    close(loss.detach(), want.detach(), 1e-5, 1e-9, "returned loss")
    got = torch.autograd.grad(loss, [m.err, m.lik])
    exp = torch.autograd.grad(want, [m.err, m.lik])
    for a, b, n in zip(got, exp, ("reconstruction", "likelihoods")):
        close(a, b, 1e-5, 1e-9 * max(1.0, float(b.abs().max())), f"gradient of the {n}")
    check_metrics(c, collect(mod, 0), rec.detach(), x, d.detach(), r.detach(), comb.detach(), want.detach(), "", ())
    # validation reports the same quantities on the same data
    mod.eval()
    start = len(mod.logged)
    with torch.no_grad():
        mod.validation_step(video(x), 0)
    check_metrics(c, collect(mod, start), rec.detach(), x, d.detach(), r.detach(), comb.detach(), want.detach(), "val_", ())
    # rates per frame and over the clip
    n = c["B"] * c["h"] * c["w"]
    bits = [float(-(m.lik[t].log() / math.log(2)).sum()) for t in range(c["T"])]
    with torch.no_grad():
        close(mod.rate_loss(video(x), [m.lik], per_frame=True), [b / n for b in bits], 1e-6, 1e-9, "bits per pixel of each frame")
        close(float(mod.rate_loss(video(x), [m.lik], per_frame=False)), sum(bits) / (n * c["T"]), 1e-6, 1e-9, "bits per pixel of the clip")
    return Info(c["T"] > 1, f"T{c['T']}", f"scale{c['scale']}")


@PROP.sub("optimizers", cases, quick=60, thorough=600)
def optimizers(c):
    import torch

    m = make_model(c)
    mod = module().VCTModule(m, cfg(c))
    conf = mod.configure_optimizers()
    opt, s = conf["optimizer"], conf["lr_scheduler"]
    ids = {id(p) for g in opt.param_groups for p in g["params"]}
    ensure(ids == {id(m.err), id(m.lik)}, "the optimizer does not hold exactly the trainable parameters that are not quantiles")
    close(opt.param_groups[0]["lr"], c["lr"], 0, 0, "learning rate")
    ensure(s["scheduler"].optimizer is opt and s["interval"] == "step" and s["frequency"] == c["freq"], "scheduler")
    return Info(True)


@st.composite
def test_cases(draw):
    dec = draw(pick(2, 2, 1))
    return dict(kind=draw(pick("gdn", "elic")), T=draw(ints(2, 4)), B=1, h=draw(ints(33, 64)), w=draw(ints(33, 64)), C=draw(ints(3, 5)), ctx=2, dec=dec,
                enc=draw(pick(dec, dec * 2) if dec == 2 else pick(1, 3)), wseed=draw(ints(0, 40)), gain=draw(fl(0.6, 1.3)), ga=draw(fl(1.5, 4.0)), seed=draw(seeds), mf=None,
                fwd=draw(pick(True, True, False)), reps=draw(ints(1, 2)))


@PROP.sub("test_step", test_cases, quick=12, thorough=200)
def test_step(c):
    import torch

    M = module().VCTModule
    pipe = vct.pipeline(c)
    mod = M(pipe, stubs.DictConfig())
    mod.eval()
    n = c["h"] * c["w"]
    for k in range(c["reps"]):
        x = rnd((1, c["T"], 3, c["h"], c["w"]), c["seed"] + k, "uniform")
        v = vct.video(x)
        start = len(mod.logged)
        ret = mod.test_step(v, k, run_fwd=c["fwd"])
        got = collect(mod, start)
        with torch.no_grad():
            *out, bits = pipe.compress_video(v, force_cpu=False)
            rec = pipe.decompress_video(v.shape, bottleneck_args=out, force_cpu=False)
        ensure(len(bits) == c["T"], "one rate per frame")
        ref = levels(x[0])

        def total(r):
            mse = float(((levels(r[0]).double() - ref.double()) ** 2).mean())
            return 10 * math.log10(255.0**2 / mse)

        want = (total(rec), sum(bits) / (n * c["T"]), sum(bits[1:]) / (n * (c["T"] - 1)))
        for a, b, w in zip(ret, want, ("PSNR", "bits per pixel", "bits per pixel without the first frame")):
            close(float(a), b, 2e-3, 2e-3 if w == "PSNR" else 1e-6, f"returned {w}")
        close(float(got["bpp"]), want[1], 2e-3, 1e-6, "logged bpp")
        close(float(got["bpp_xfirst"]), want[2], 2e-3, 1e-6, "logged bpp_xfirst")
        if c["fwd"]:
            with torch.no_grad():
                pipe._code_to_strings = False  # a plain forward pass, as the test loop runs it
                frec, (lik,) = pipe(v)
            fb = [-float((l.double().log() / math.log(2)).sum()) for l in lik]
            close(float(got["cts_rate"]), sum(fb) / (n * c["T"]), 2e-3, 1e-6, "logged cts_rate")
            close(float(got["cts_rate_x1"]), sum(fb[1:]) / (n * (c["T"] - 1)), 2e-3, 1e-6, "logged cts_rate_x1")
            close(float(got["cts_psnr"]), total(frec), 1e-3, 2e-3, "logged cts_psnr")
        else:
            ensure(not any(k.startswith("cts") for k in got), "forward-pass metrics without a forward pass")
    two = vct.video(rnd((2, 2, 3, 33, 33), 1, "uniform"))
    raises(AssertionError, lambda: mod.test_step(two, 0), "test step on a batch of two clips")
    return Info(True, c["kind"], "fwd" if c["fwd"] else "strings")


@PROP.sub("test_metrics", cases, quick=200, thorough=4000)
def test_metrics(c):
    """The test loop's formulas for codecs of any quality, far better ones than random weights give."""
    import torch

    c = dict(c, B=1, T=max(2, c["T"]))
    m = make_model(c)
    bits = [float(8 * (3 + (c["seed"] >> k) % 50)) for k in range(c["T"])]
    dec_err = rnd((1, c["T"], 3, c["h"], c["w"]), c["seed"] + 3, "normal", torch.float64, c["scale"]) + c["shift"]

    def forward(v):
        return v.video_tensor + m.err, [m.lik]

    m.forward = forward
    m.compress_video = lambda video, force_cpu=True: (video, bits)
    m.decompress_video = lambda frames_shape, bottleneck_args, force_cpu=True: bottleneck_args[0].video_tensor + dec_err
    mod = module().VCTModule(m, cfg(c))
    mod.eval()
    x = rnd((1, c["T"], 3, c["h"], c["w"]), c["seed"], "uniform", torch.float64)
    start = len(mod.logged)
    ret = mod.test_step(video(x), 0)
    got = collect(mod, start)
    n = c["h"] * c["w"]
    if tie(x, x + dec_err, x + m.err.detach()):
        return Info(False, "tie")

    def total(rec):
        return float(((levels(rec[0]) - levels(x[0])) ** 2).mean())

    for key, val, rec in (("PSNR", ret[0], x + dec_err), ("cts_psnr", got["cts_psnr"], x + m.err.detach())):
        mse = total(rec)
        if mse > 0:
            close(float(val), 10 * math.log10(255.0**2 / mse), 1e-4, 1e-3, key)
    close(float(ret[1]), sum(bits) / (n * c["T"]), 1e-6, 0, "bits per pixel")
    close(float(ret[2]), sum(bits[1:]) / (n * (c["T"] - 1)), 1e-6, 0, "bits per pixel without the first frame")
    fb = -m.lik.detach().log2().flatten(1).sum(1)
    close(float(got["cts_rate"]), float(fb.sum()) / (n * c["T"]), 1e-6, 1e-9, "cts_rate")
    close(float(got["cts_rate_x1"]), float(fb[1:].sum()) / (n * (c["T"] - 1)), 1e-6, 1e-9, "cts_rate_x1")
    return Info(True, f"scale{c['scale']}")
