"""P41: adversarial fine-tuning alternates a generator, a discriminator and a quantile step."""
import hypothesis.strategies as st

from .. import illm
from ..core import Info, Prop, close, ensure, equal, rnd
from .p37_rate_training import check_logs, collect, near_half, rate_names, scaled

PROP = Prop(
    "P41",
    "cases = (model and discriminator weights, conditional or not, with/without latent projector, Monte-Carlo batch splitting, quantile "
    "optimizer or none, frozen parameters, clipping, optimizers) and histories of 1-4 training steps; oracle = an independent float64 "
    "re-implementation of the three updates; non-trivial = at least two steps, or a projector / a split batch is used",
    preload=lambda: illm.modules(),
    assumptions=["Lightning, hydra and omegaconf are not installed: minimal stand-ins with their documented contract are used"],
)


def module(c):
    _, _, G = illm.modules()
    m = illm.make_model(c)
    c.update(illm.aim(c, m))
    d = illm.make_disc(c)
    loss, ref = illm.distortion(c)
    dl, gl = illm.make_gan_losses()
    proj = None if c["proj"] == "none" else illm.make_projector(c)
    mod = G.GANCompressionModule(
        model=m, target_rate_config=illm.rate_config(c), discriminator=d, discriminator_loss=dl, generator_loss=gl, optimizer_config=illm.opt_cfg(c),
        distortion_lam=c["lam"], distortion_loss=loss, latent_projector=proj, generator_weight=c["gw"], gradient_clip_val=c["clip"],
        gradient_clip_algorithm=c["alg"], mc_sampling=c["mc"],
    )
    return mod, m, d, proj, ref, dl, gl


def run_disc(d, img, lat):
    return d(img, lat) if d.is_conditional else d(img)


def params(mod):
    return dict(mod.named_parameters())


@PROP.sub("training_step", lambda: illm.train_cases(gan=True), quick=250, thorough=5000)
def training_step(c):
    import torch

    mod, m, d, proj, dref, dl, gl = module(c)
    r, rd = illm.twin(m), illm.twin(d)
    names = {n for n, p in m.named_parameters() if p.requires_grad}
    frozen = {n: p.detach().clone() for n, p in m.named_parameters() if n not in names}
    mn, qn = {n for n in names if not n.endswith("quantiles")}, {n for n in names if n.endswith("quantiles")}
    opts, scheds = mod.configure_optimizers()
    ensure(len(opts) == len(scheds) == (3 if qn else 2), f"{len(opts)} optimizers with {len(qn)} quantile parameters")
    want_groups = [{id(p) for n, p in m.named_parameters() if n in mn}, {id(p) for p in d.parameters()}, {id(p) for n, p in m.named_parameters() if n in qn}]
    for o, w, what in zip(opts, want_groups, ("model", "discriminator", "quantile")):
        ensure({id(p) for g in o.param_groups for p in g["params"]} == w, f"parameters of the {what} optimizer")
    mod.use(opts, scheds)
    mopt = illm.RefOpt(c, illm.trainable(r, mn), c["lr"], 0.8)
    dopt = illm.RefOpt(c, list(rd.parameters()), 0.1, 0.6)
    qopt = illm.RefOpt(c, illm.trainable(r, qn), 0.05, 0.7) if qn else None
    mod.train()
    step = done = 0
    projkeep = None if proj is None else proj.w.detach().clone()
    for k, (g, x) in enumerate(illm.batches(c)):
        step += g
        mod.trainer.global_step = step
        half = x.shape[0] // 2
        xm, xd = (x[:half], x[half : 2 * half]) if c["mc"] else (x, x)
        with torch.no_grad():
            ft, rt = (torch.tensor(1), torch.tensor(1)) if proj is None else (proj(xm), proj(xd))
        out = r(xm)
        dist = dref(out.image, xm)
        rate, margin, _ = illm.ref_rate(c, xm, out, step)
        if margin < 1e-6 or near_half(out.image.detach()):
            return Info(False, "tie")
        gloss = gl(run_disc(rd, out.image, out.latent.detach()), ft)
        loss = c["lam"] * dist + rate["rate_loss"] + c["gw"] * gloss
        grads = torch.autograd.grad(loss, mopt.params, allow_unused=True)
        if illm.diverged(loss, grads):
            break
        mopt.step(grads, c["clip"], c["alg"])
        scale = max(1.0, max(float(p.abs().max()) for p in mopt.params))
        if not scale < 1e4:
            break
        with torch.no_grad():
            ctx = r(xd).latent if c["mc"] else out.latent.detach()
        dloss = dl(run_disc(rd, xd, ctx), run_disc(rd, out.image.detach(), out.latent.detach()), rt)
        dopt.step(torch.autograd.grad(dloss, dopt.params, allow_unused=True), c["clip"], c["alg"])
        ql = 0.0
        if qopt is not None:
            ql = r.hyper_bottleneck.loss()
            qopt.step(torch.autograd.grad(ql, qopt.params))

        start = len(mod.logged)
        keep = x.clone()
        mod.training_step(x, k)
        equal(x, keep, "training modified the batch")
        done += 1
        for n, p in m.named_parameters():
            if n in frozen:
                equal(p, frozen[n], f"frozen parameter {n} after step {k}")
            else:
                close(p, dict(r.named_parameters())[n], 1e-5, 1e-6 * scale, f"model parameter {n} after step {k}")
        for n, p in d.named_parameters():
            close(p, dict(rd.named_parameters())[n], 1e-5, 1e-6, f"discriminator parameter {n} after step {k}")
        if proj is not None:
            equal(proj.w, projkeep, "the latent projector was trained")
        got = collect(mod, start)
        check_logs(got, {"total_model_loss": loss, "distortion_loss": dist, "generator_loss": gloss, "discriminator_loss": dloss, "quantile_loss": ql,
                         **rate_names(rate, True)}, "train")
        a, b = got["train/ms_ssim"].calls[-1]
        close(a, scaled(out.image.detach()), 0, 1e-3, "prediction given to MS-SSIM")
        close(b, scaled(xm), 0, 1e-3, "reference given to MS-SSIM")
        with torch.no_grad():
            for src, dst in ((m, r), (d, rd)):
                for n, p in dst.named_parameters():
                    p.copy_(dict(src.named_parameters())[n])
    return Info(done > 1 or c["mc"] or proj is not None, f"steps{done}", "mc" if c["mc"] else "full", "cond" if c["cond"] else "uncond", "proj-" + c["proj"], f"opts{len(opts)}")


@PROP.sub("validation", lambda: illm.train_cases(gan=True), quick=120, thorough=3000)
def validation(c):
    """Also between training steps: validation sees the whole batch and changes nothing."""
    import torch

    mod, m, d, proj, dref, dl, gl = module(c)
    opts, scheds = mod.configure_optimizers()
    mod.use(opts, scheds)
    step = 0
    for k, (g, x) in enumerate(illm.batches(c)):
        step += g
        mod.trainer.global_step = step
        mod.eval()
        with torch.no_grad():
            out = m(x)
            if not bool(torch.isfinite(out.image).all()) or float(out.image.abs().max()) > 1e4:
                break
            if illm.diverged(dref(out.image, x), []) or float(out.latent_likelihoods.min()) < 1e-200 or float(out.quantized_latent_likelihoods.min()) < 1e-200:
                break
            rate, margin, _ = illm.ref_rate(c, x, out, step)
            if margin < 1e-6 or near_half(out.image):
                return Info(False, "tie")
            before = {n: v.clone() for n, v in list(m.state_dict().items()) + list(d.state_dict().items())}
            start = len(mod.logged)
            mod.validation_step(x, k)
            t = torch.tensor(1) if proj is None else proj(x)
            gloss = gl(run_disc(d, out.image, out.latent), t)
            dist = dref(out.image, x)
        check_logs(collect(mod, start), {"total_model_loss": c["lam"] * dist + rate["rate_loss"] + c["gw"] * gloss, "distortion_loss": dist, "generator_loss": gloss,
                                         **rate_names(rate, False)}, "val")
        for n, v in list(m.state_dict().items()) + list(d.state_dict().items()):
            equal(v, before[n], f"validation changed {n}")
        mod.train()
        with torch.enable_grad():
            mod.training_step(x, k)
    return Info(True, "cond" if c["cond"] else "uncond", "proj-" + c["proj"])
