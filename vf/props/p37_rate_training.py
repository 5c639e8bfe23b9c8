"""P37: rate-targeted training of the image codec: loss, parameter updates, logs."""
import hypothesis.strategies as st

from .. import illm
from ..core import Info, Prop, Unsupported, close, ensure, equal, raises, rnd
from ..gen import fixed, fl, ints, pick, seeds

PROP = Prop(
    "P37",
    "cases = (model weights, frozen subsets, batches, target-rate configs with generated step schedules, global steps, distortion losses, "
    "clipping, optimizers) and histories of 1-4 training steps; oracle = an independent float64 re-implementation of loss, clipping, "
    "optimizer and schedule; non-trivial = a schedule boundary is crossed, clipping acts, or images lie on both sides of the target",
    preload=lambda: illm.modules(),
    assumptions=["Lightning, hydra and omegaconf are not installed: minimal stand-ins with their documented contract are used",
                 "metrics that need pretrained backbones are replaced by recorders"],
)


@st.composite
def config_cases(draw):
    n = [draw(ints(0, 4)) for _ in range(4)]
    if draw(st.booleans()):
        n[0], n[2] = n[1] + 1, n[3] + 1
    return dict(t=draw(fl(0.01, 3.0)), tf=[draw(fl(0.1, 2.0)) for _ in range(n[0])], ts=sorted(draw(ints(0, 9)) for _ in range(n[1])),
                ll=[draw(fl(0.1, 2.0)), draw(fl(0.1, 2.0))], lf=[draw(fl(0.1, 2.0)) for _ in range(n[2])], ls=sorted(draw(ints(0, 9)) for _ in range(n[3])))


@PROP.sub("config", config_cases, quick=500, thorough=10000)
def config(c):
    from neuralcompression.loss_fn import TargetRateConfig

    ok = len(c["tf"]) == len(c["ts"]) + 1 and len(c["lf"]) == len(c["ls"]) + 1
    build = lambda: TargetRateConfig(target_bpp=c["t"], target_factors=list(c["tf"]), target_steps=list(c["ts"]), lam_levels=tuple(c["ll"]), lam2_factors=list(c["lf"]),
                                     lam2_steps=list(c["ls"]))
    if not ok:
        raises(ValueError, build, "mismatched factor and step lists")
        return Info(True, "refused")
    r = build()
    ensure((r.target_bpp, list(r.target_factors), list(r.target_steps), list(r.lam_levels), list(r.lam2_factors), list(r.lam2_steps))
           == (c["t"], c["tf"], c["ts"], c["ll"], c["lf"], c["ls"]), "the configuration is not returned unchanged")
    return Info(len(c["ts"]) + len(c["ls"]) > 0, f"steps{len(c['ts'])}/{len(c['ls'])}")


def module(c, gan=False):
    _, T, G = illm.modules()
    m = illm.make_model(c)
    c.update(illm.aim(c, m))
    loss, ref = illm.distortion(c)
    kw = dict(distortion_lam=c["lam"], distortion_loss=loss, gradient_clip_val=c["clip"], gradient_clip_algorithm=c["alg"])
    mod = T.TargetRateCompressionModule(m, illm.rate_config(c), illm.opt_cfg(c), **kw)
    return mod, m, ref


def collect(mod, start):
    d = {}
    for n, v in mod.logged[start:]:
        ensure(n not in d, f"{n} is logged twice")
        d[n] = v
    return d


def check_logs(got, want, prefix):
    for k, v in want.items():
        ensure(f"{prefix}/{k}" in got, f"{prefix}/{k} is not logged (logged: {sorted(got)})")
        close(float(got[f"{prefix}/{k}"]), float(v), 1e-5, 1e-7, f"logged {prefix}/{k}")


def rate_names(r, train):
    k = "noisy_" if train else ""
    return {"rate_loss": r["rate_loss"], f"{k}total_bpp": r["total_bpp"], "quantized_total_bpp": r["quantized_total_bpp"], f"{k}hyper_bpp": r["hyper_bpp"],
            "quantized_hyper_bpp": r["quantized_hyper_bpp"], f"{k}latent_bpp": r["latent_bpp"], "quantized_latent_bpp": r["quantized_latent_bpp"],
            "target": r["target"], "lam2": r["lam2"]}


def scaled(x):
    return (x.clamp(0, 1) * 255).round()


def near_half(x):
    v = (x.clamp(0, 1) * 255)
    return bool((((v - v.floor()) - 0.5).abs() < 1e-6).any())


@PROP.sub("training_step", lambda: illm.train_cases(), quick=150, thorough=4000)
def training_step(c):
    import torch

    mod, m, dref = module(c)
    r = illm.twin(m)
    names = {n for n, p in m.named_parameters() if p.requires_grad}
    frozen = {n: p.detach().clone() for n, p in m.named_parameters() if n not in names}
    mn, qn = {n for n in names if not n.endswith("quantiles")}, {n for n in names if n.endswith("quantiles")}
    opts, scheds = mod.configure_optimizers()
    groups = [{id(p) for g in o.param_groups for p in g["params"]} for o in opts]
    byid = {id(p): n for n, p in m.named_parameters()}
    ensure({byid.get(i) for i in groups[0]} == mn and {byid.get(i) for i in groups[1]} == qn, "optimizers do not split the trainable parameters into model and quantile parameters")
    mod.use(opts, scheds)
    mopt = illm.RefOpt(c, illm.trainable(r, mn), c["lr"], 0.8)
    qopt = illm.RefOpt(c, illm.trainable(r, qn), 0.05, 0.7)
    step = 0
    clipped = crossed = mixed = False
    sq, count = 0.0, 0
    mod.train()
    mod.on_train_epoch_start()
    last_targets = None
    for k, (g, x) in enumerate(illm.batches(c)):
        step += g
        mod.trainer.global_step = step
        out = r(x)
        if not bool(torch.isfinite(out.image).all()):
            break
        dist = dref(out.image, x)
        rate, margin, over = illm.ref_rate(c, x, out, step)
        if margin < 1e-6 or near_half(out.image.detach()):
            return Info(False, "tie")
        mixed |= 0 < over < c["b"]
        crossed |= last_targets not in (None, (rate["target"], rate["lam2"]))
        last_targets = (rate["target"], rate["lam2"])
        loss = c["lam"] * dist + rate["rate_loss"]
        grads = torch.autograd.grad(loss, mopt.params, allow_unused=True)
        if illm.diverged(loss, grads):
            break
        start = len(mod.logged)
        xk = x.clone()
        mod.training_step(x, k)
        equal(x, xk, "training modified the batch")
        if c["clip"] is not None:
            n = float(sum((gg**2).sum() for gg in grads if gg is not None) ** 0.5)
            clipped |= n > c["clip"]
        mopt.step(grads, c["clip"], c["alg"])
        ql = r.hyper_bottleneck.loss()
        qopt.step(torch.autograd.grad(ql, qopt.params))
        scale = max(1.0, max(float(p.abs().max()) for p in mopt.params))
        if scale > 1e4:
            break
        for n, p in m.named_parameters():
            want = dict(r.named_parameters())[n]
            if n in frozen:
                equal(p, frozen[n], f"frozen parameter {n} after step {k}")
            else:
                close(p, want, 1e-5, 1e-6 * scale, f"parameter {n} after step {k}")
        got = collect(mod, start)
        check_logs(got, {"total_loss": loss, "distortion_loss": dist, "quantile_loss": ql, **rate_names(rate, True)}, "train")
        # quality metrics follow the reconstruction that was trained on
        pred, ref = scaled(out.image.detach()), scaled(x)
        sq += float(((pred - ref) ** 2).sum())
        count += pred.numel()
        close(float(got["train/mse"].compute()), sq / count, 1e-4, 1e-6, "train/mse")
        a, b = got["train/ms_ssim"].calls[-1]
        close(a, pred, 0, 1e-3, "prediction given to MS-SSIM")
        close(b, ref, 0, 1e-3, "reference given to MS-SSIM")
        # keep the reference from drifting
        with torch.no_grad():
            for n, p in r.named_parameters():
                p.copy_(dict(m.named_parameters())[n])
    return Info(crossed or clipped or mixed, *[k for k, v in (("schedule", crossed), ("clip-" + c["alg"], clipped), ("both-sides", mixed), ("frozen", c["frozen"])) if v])


@st.composite
def rate_cases(draw):
    c = draw(illm.train_cases(max_steps=6))
    c["free"] = draw(pick(False, False, False, False, True))
    if c["free"]:
        c["target"] = 0.0
    return c


@PROP.sub("rate_loss", rate_cases, quick=250, thorough=6000)
def rate_loss(c):
    import torch

    mod, m, dref = module(c)
    step = 0
    mixed = False
    seen = set()
    for g, x in illm.batches(c):
        step += g
        mod.trainer.global_step = step
        with torch.no_grad():
            out = m(x)
        if c["free"]:  # a certain image costs exactly nothing, which does not exceed a target of zero
            out.quantized_latent_likelihoods[0] = 1.0
            out.quantized_hyper_latent_likelihoods[0] = 1.0
        lik = [t.clone().requires_grad_(True) for t in (out.latent_likelihoods, out.quantized_latent_likelihoods, out.hyper_latent_likelihoods, out.quantized_hyper_latent_likelihoods)]
        o2 = out._replace(latent_likelihoods=lik[0], quantized_latent_likelihoods=lik[1], hyper_latent_likelihoods=lik[2], quantized_hyper_latent_likelihoods=lik[3])
        want, margin, over = illm.ref_rate(c, x, o2, step)
        if margin < 1e-6 and not c["free"]:
            return Info(False, "tie")
        mixed |= 0 < over < c["b"]
        seen.add((want["target"], want["lam2"]))
        got = mod.rate_loss(original=x, latent_likelihoods=lik[0], quantized_latent_likelihoods=lik[1], hyper_latent_likelihoods=lik[2], quantized_hyper_latent_likelihoods=lik[3])
        for k, v in want.items():
            close(float(getattr(got, k)), float(v), 1e-5, 1e-8, k)
        gg = torch.autograd.grad(got.rate_loss, lik, allow_unused=True)
        ww = torch.autograd.grad(want["rate_loss"], lik, allow_unused=True)
        for a, b, n in zip(gg, ww, ("latent", "quantized latent", "hyper", "quantized hyper")):
            close(torch.zeros(1) if a is None else a, torch.zeros(1) if b is None else b, 1e-5, 1e-9, f"gradient of the {n} likelihoods")
    return Info(mixed or len(seen) > 1, f"levels{len(seen)}", "both-sides" if mixed else "one-side")


def uint8(x):
    import torch

    return scaled(x).to(torch.uint8)


@PROP.sub("validation", lambda: illm.train_cases(), quick=120, thorough=3000)
def validation(c):
    import torch

    mod, m, dref = module(c)
    mod.eval()
    mod.on_validation_epoch_start()
    ensure(mod.eval_fid.resets > 0 and mod.eval_lpips.resets > 0, "metrics are not reset at the start of validation")
    before = {k: v.clone() for k, v in m.state_dict().items()}
    sq = count = step = 0
    fid = []
    for k, (g, x) in enumerate(illm.batches(c)):
        step += g
        mod.trainer.global_step = step
        start = len(mod.logged)
        with torch.no_grad():
            out = m(x)
            rate, margin, over = illm.ref_rate(c, x, out, step)
            if margin < 1e-6 or near_half(out.image):
                return Info(False, "tie")
            mod.validation_step(x, k)
        dist = dref(out.image, x)
        got = collect(mod, start)
        check_logs(got, {"total_loss": c["lam"] * dist + rate["rate_loss"], "distortion_loss": dist, **rate_names(rate, False)}, "val")
        pred, ref = out.image.clamp(0, 1), x
        mse = ((scaled(pred) - scaled(ref)) ** 2).mean()
        lp = (pred - ref).abs().mean() + 0.25  # the recorder's value
        close(float(got["val/hific_distortion"]), float(0.075 * 2**-5 * mse + lp), 1e-4, 1e-6, "val/hific_distortion")
        sq += float(((scaled(pred) - scaled(ref)) ** 2).sum())
        count += pred.numel()
        close(float(got["val/mse"].compute()), sq / count, 1e-4, 1e-6, "val/mse")
        psnr = 10 * torch.log10(torch.tensor(255.0**2 / (sq / count))) if sq else torch.tensor(float("inf"))
        close(float(got["val/psnr"].compute()), float(psnr), 1e-4, 1e-3, "val/psnr")
        for key, a, b in (("val/ms_ssim", scaled(pred), scaled(ref)), ("val/lpips", pred, ref)):
            close(got[key].calls[-1][0], a, 0, 1e-6, f"prediction given to {key}")
            close(got[key].calls[-1][1], b, 0, 1e-6, f"reference given to {key}")
        fid += [(uint8(ref), True), (uint8(pred), False)]
    ensure(len(mod.eval_fid.calls) == len(fid), "number of FID updates")
    for kind in (True, False):
        for (a, _), (b, _) in zip([f for f in mod.eval_fid.calls if f[1] == kind], [f for f in fid if f[1] == kind]):
            ensure(a.dtype == torch.uint8, "FID is not given uint8 images")
            equal(a, b, f"FID images, real={kind}")
    want = float(mod.eval_fid.compute())
    start = len(mod.logged)
    mod.on_validation_epoch_end()
    close(float(collect(mod, start)["val/fid"]), want, 1e-6, 1e-9, "val/fid")
    ensure(len(mod.eval_fid.calls) == 0, "FID state survives the validation epoch")
    for k, v in m.state_dict().items():
        equal(v, before[k], f"validation changed {k}")
    return Info(True, f"batches{len(c['gs'])}")


@st.composite
def test_cases(draw):
    from ..models import hific_cfgs

    c = draw(hific_cfgs())
    c["cin"] = 3
    c.update(b=draw(ints(1, 3)), h=64 * draw(ints(1, 2)), w=64 * draw(ints(1, 2)), seed=draw(seeds), n=draw(ints(1, 2)),
             name=draw(pick("kodak", "clic2020", "div2k", "mydata", "my_clic_x")), tup=draw(st.booleans()), named=draw(pick(True, True, True, False)),
             patch=draw(pick(32, 64)))
    return c


@PROP.sub("test_epoch", test_cases, quick=14, thorough=250)
def test_epoch(c):
    import pickle
    import torch
    import neuralcompression.metrics as ncm
    from ..models import image, make_hific

    _, T, _ = illm.modules()
    m = make_hific(c, update=False)
    cc = dict(target=0.5, tsched=[[1.0], []], lams=[0.5, 1.0], lsched=[[1.0], []], opt="sgd", lr=0.1)
    mod = T.TargetRateCompressionModule(m, illm.rate_config(cc), illm.opt_cfg(cc))
    mod.eval()
    x0 = image(c, c["b"], 3, c["h"], c["w"])
    if not c["named"]:
        raises(ValueError, lambda: mod.test_step(x0, 0), "test step before a dataset name was set")
        return Info(True, "unnamed")
    mod.update_test_dataset_name(c["name"])
    ensure(mod.patch_size == 256, f"FID patches of {mod.patch_size} pixels")
    mod.patch_size = c["patch"]
    name = c["name"]
    mod.on_test_epoch_start()
    for i in range(c["n"]):
        x = image(dict(c, seed=c["seed"] + i), c["b"], 3, c["h"], c["w"])
        start = len(mod.logged)
        counts = [len(f.calls) for f in (mod.test_fid, mod.test_fid_swav, mod.test_kid)]
        with torch.no_grad():
            ret = mod.test_step((x, torch.zeros(c["b"])) if c["tup"] else x, i)
            comp = m.compress(x, force_cpu=False)
            rec = m.decompress(comp, force_cpu=False)
        got = collect(mod, start)
        close(float(got[f"test/{name}_bpp"]), len(pickle.dumps(comp)) * 8 / (c["b"] * c["h"] * c["w"]), 1e-6, 0, "test bpp")
        want = 255.0**2 * ((rec - x) ** 2).mean()
        close(float(got[f"test/{name}_test_distortion"]), float(want), 1e-4, 1e-5, "test distortion")
        close(float(ret), float(want), 1e-4, 1e-5, "returned distortion")
        pred = rec.clamp(0, 1)
        sp, sx = scaled(pred), scaled(x)
        mse = ((sp - sx) ** 2).mean()
        if float(mse) > 0:
            close(float(got[f"test/{name}_psnr"]), float(10 * torch.log10(255.0**2 / mse)), 1e-4, 1e-3, "test psnr")
        lp = (pred - x).double().abs().mean() + 0.25
        close(float(got[f"test/{name}_hific_distortion"]), float(0.075 * 2**-5 * mse + lp), 1e-3, 1e-5, "test hific distortion")
        for key, a, b in (("ms_ssim", sp, sx), ("lpips", pred, x), ("dists", pred, x)):
            close(got[f"test/{name}_{key}"].calls[-1][0], a, 0, 1e-5, f"prediction given to {key}")
            close(got[f"test/{name}_{key}"].calls[-1][1], b, 0, 1e-5, f"reference given to {key}")
        patched = "clic" in name or "div2k" in name
        for f, n0, R in zip((mod.test_fid, mod.test_fid_swav, mod.test_kid), counts, (0, 1, 2)):
            for real, img in ((True, x), (False, pred)):
                seen = [t for t, r in f.calls[n0:] if r == real]
                ensure(all(t.dtype == torch.uint8 for t in seen), "FID/KID are not given uint8 images")
                if patched:
                    ensure(all(tuple(t.shape[-2:]) == (c["patch"], c["patch"]) for t in seen), "patch size of the patch FID")
                    q, p = sum(t.shape[0] for t in seen), c["patch"]
                    full = (c["h"] // p) * (c["w"] // p) * c["b"]
                    half = ((c["h"] - p // 2) // p) * ((c["w"] - p // 2) // p) * c["b"]
                    ensure(q == full + half, f"number of patches {q}, expected {full} + {half}")
                else:
                    ensure(len(seen) == 1, "FID/KID updates per batch")
                    equal(seen[0], uint8(img), f"images given to FID/KID real={real}")
    start = len(mod.logged)
    vals = (float(mod.test_fid.compute()), float(mod.test_fid_swav.compute()), float(mod.test_kid.compute()[0]))
    mod.on_test_epoch_end()
    got = collect(mod, start)
    for k, v in zip(("fid", "fid_swav", "kid"), vals):
        close(float(got[f"test/{name}_{k}"]), 0.0 if name == "kodak" else v, 1e-6, 0, f"test/{name}_{k}")
    # a new epoch on another dataset starts from clean metrics
    mod.update_test_dataset_name("other")
    mod.on_test_epoch_start()
    for f in (mod.test_fid, mod.test_fid_swav, mod.test_kid, mod.test_lpips, mod.test_dists, mod.test_msssim):
        ensure(len(f.calls) == 0, "metrics of the previous dataset leak into the next test epoch")
    close(float(len(got)), 3, 0, 0, "epoch-end logs")
    return Info(True, name, f"batches{c['n']}")
