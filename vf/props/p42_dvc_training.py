"""P42: the staged training of the video codec."""
import copy

from .. import dvc_train as T
from ..core import Info, Prop, close, ensure, equal, raises
from ..gen import fixed, pick, ints
from .p37_rate_training import collect

PROP = Prop(
    "P42",
    "cases = (stage, weights, group-of-pictures length, batch and frame size, loss weight, learning rates, schedules, clipping) and histories of "
    "1-3 training steps; oracle = an independent float64 re-implementation of the P-frame chain, the losses, clipping and Adam; "
    "non-trivial = several P-frames or several steps",
    preload=lambda: T.modules(),
    assumptions=["pytorch_lightning is not installed: a minimal stand-in with its documented contract is used",
                 "the pretrained I-frame model is a stand-in registered in compressai.zoo.models"],
)


def build(c):
    mod = T.modules()
    m = T.make_dvc(c)
    sched = None if c["sched"] is None else dict(step_size=c["sched"][0], gamma=c["sched"][1])
    module = mod.DvcModule(m, c["stage"], "vf-iframe", c["q"], num_pframes=c["np"], distortion_lambda=c["lam"], learning_rate=c["lr"], aux_learning_rate=c["alr"],
                           lr_scheduler_params=sched, grad_clip_value=c["clip"])
    ensure(module.iframe_model.request == (c["q"], True), "the I-frame model is not the pretrained one of the requested quality")
    return module, m


def gop(c, r, x, step=None):
    """Chain the P-frames on the reference; step(loss) runs after each.  Returns the logged sums."""
    a, ibpp = T.iframe_ref(c, x[:, 0])
    tot = dict(loss=0.0, distortion_loss=0.0, bpp=float(ibpp), flow_bpp=0.0, residual_bpp=0.0)
    have = [True, True]
    ests, last = [], None
    for i in range(c["np"]):
        d, f, rr, est = T.ref_frame(c, r, a, x[:, i + 1])
        loss = d + (0 if f is None else f) + (0 if rr is None else rr)
        tot["loss"] += float(loss)
        tot["distortion_loss"] += float(d)
        for k, v in (("flow_bpp", f), ("residual_bpp", rr)):
            if v is None:
                tot[k] = None
            else:
                tot[k] += float(v)
                tot["bpp"] += float(v)
        if step is not None:
            step(loss)
        a = est
        ests.append(est)
        last = float(loss)
    return tot, ests, last


def check_gop_logs(c, got, prefix, tot, x, ests):
    import torch

    for k, v in tot.items():
        key = f"{c['stage']}/{prefix}_gop_{k}"
        if v is None:
            ensure(key not in got, f"{key} is logged in a stage without that rate")
            continue
        ensure(key in got, f"{key} is not logged ({sorted(got)})")
        close(float(got[key]), v / (c["np"] + 1), 1e-6, 1e-9, f"logged {key}")
    # PSNR over all P-frames of the batch


def psnr_of(pairs):
    import torch

    sq = sum(float(((a - b) ** 2).sum()) for a, b in pairs)
    n = sum(a.numel() for a, _ in pairs)
    return 10 * torch.log10(torch.tensor(n / sq, dtype=torch.float64))


@PROP.sub("training_step", T.cases, quick=220, thorough=5000)
def training_step(c):
    import torch

    module, m = build(c)
    r = copy.deepcopy(m)
    trainable = {n for n, p in m.named_parameters() if p.requires_grad and T.in_stage(c, n)}
    start_vals = {n: p.detach().clone() for n, p in m.named_parameters()}
    iw = module.iframe_model.w.detach().clone()
    confs = module.configure_optimizers()
    mn, qn = {n for n in trainable if not n.endswith("quantiles")}, {n for n in trainable if n.endswith("quantiles")}
    confs = confs if isinstance(confs, (list, tuple)) else [confs]
    byid = {id(p): n for n, p in m.named_parameters()}
    groups = [{byid.get(id(p)) for g in o["optimizer"].param_groups for p in g["params"]} for o in confs]
    ensure(groups == ([mn, qn] if qn else [mn]), f"optimizer parameters in {c['stage']}: {groups}")
    scheds = []
    for o in confs:
        if "lr_scheduler" in o:
            s = o["lr_scheduler"]
            scheds.append(s["scheduler"] if isinstance(s, dict) else s)
    ensure(len(scheds) == (0 if c["sched"] is None else 1), "number of schedulers")
    module.use([o["optimizer"] for o in confs], scheds)
    P = dict(r.named_parameters())
    opt = T.Adam([P[n] for n in sorted(mn)], c["lr"])
    qopt = T.Adam([P[n] for n in sorted(qn)], c["alr"]) if qn else None
    clipped = [False]

    def step(loss):
        grads = torch.autograd.grad(loss, opt.p, allow_unused=True)
        n = float(sum((g**2).sum() for g in grads if g is not None) ** 0.5)
        k = min(1.0, c["clip"] / (n + 1e-6))
        clipped[0] |= k < 1
        opt.step([None if g is None else g * k for g in grads])

    module.train()
    pairs = []
    for i, x in enumerate(T.batches(c)):
        tot, ests, _ = gop(c, r, x, step)
        ql = None
        if qopt is not None:
            ql = r.motion_entropy_bottleneck.loss()
            if c["stage"][0] in "45":
                ql = ql + r.residual_entropy_bottleneck.loss()
            qopt.step(torch.autograd.grad(ql, qopt.p))
        if c["sched"] is not None and (i + 1) % c["sched"][0] == 0:
            opt.lr *= c["sched"][1]
        start = len(module.logged)
        module.training_step(x.clone(), i)
        # Adam's first steps are +-lr whatever the gradient's size: tiny gradients are compared by sign only where they count
        for n, p in m.named_parameters():
            if n in trainable:
                close(p, P[n], 1e-6, 1e-7 + 1e-5 * c["lr"] if not n.endswith("quantiles") else 1e-7, f"{n} after step {i} of {c['stage']}")
            else:
                equal(p, start_vals[n], f"{n} is not trained in {c['stage']}")
        equal(module.iframe_model.w, iw, "the I-frame model was trained")
        got = collect(module, start)
        check_gop_logs(c, got, "train", tot, x, ests)
        if ql is not None:
            close(float(got[f"{c['stage']}/train_quantile_loss"]), float(ql), 1e-6, 1e-9, "quantile loss")
        pairs += [(e, x[:, k + 1]) for k, e in enumerate(ests)]
        close(float(got[f"{c['stage']}/train_psnr"].compute()), float(psnr_of(pairs)), 1e-4, 1e-3, "PSNR")
    return Info(c["np"] > 1 or c["steps"] > 1, c["stage"], f"pframes{c['np']}", "clipped" if clipped[0] else "free", "sched" if c["sched"] else "const")


@PROP.sub("validation", T.cases, quick=150, thorough=4000)
def validation(c):
    import torch

    module, m = build(c)
    before = {n: p.detach().clone() for n, p in m.named_parameters()}
    module.eval()
    pairs = []
    for i, x in enumerate(T.batches(c)):
        start = len(module.logged)
        with torch.no_grad():
            module.validation_step(x.clone(), i)
            tot, ests, last = gop(c, m, x)
        got = collect(module, start)
        check_gop_logs(c, got, "val", tot, x, ests)
        close(float(got["val_loss"]), last, 1e-6, 1e-9, "val_loss")
        pairs += [(e, x[:, k + 1]) for k, e in enumerate(ests)]
        close(float(got[f"{c['stage']}/val_psnr"].compute()), float(psnr_of(pairs)), 1e-4, 1e-3, "PSNR")
    for n, p in m.named_parameters():
        equal(p, before[n], f"validation changed {n}")
    return Info(c["np"] > 1, c["stage"], f"pframes{c['np']}")


@PROP.sub("recompose", T.cases, quick=60, thorough=800)
def recompose(c):
    """A stage's result goes back into a full codec: trained parts from the stage, the rest untouched."""
    import torch

    module, m = build(c)
    with torch.no_grad():
        for n, p in m.named_parameters():
            p.add_(1.0)
    other = T.make_dvc(dict(c, wseed=c["wseed"] + 1))
    keep = {n: p.detach().clone() for n, p in other.named_parameters()}
    full = module.recompose_model(other)
    a = dict(m.named_parameters())
    b = dict(full.named_parameters())
    ensure(set(a) == set(b), "recomposed model has other parameters")
    for n in b:
        equal(b[n], a[n] if T.in_stage(c, n) else keep[n], f"{n} after recomposing {c['stage']}")
    # the fixed part of the codec's tables is refreshed for the bottlenecks the stage owns
    bots = (m.motion_entropy_bottleneck, m.residual_entropy_bottleneck)
    owned = {"1": (), "2": bots[:1], "3": bots[:1]}.get(c["stage"][0], bots)
    for k, force in enumerate((False, True, True) if c["wseed"] % 2 else (True, False, True)):
        if c["wseed"] % 3 == 1 and k == 0:
            bots[0].update()  # built earlier, as after a previous stage
        before = [len(b.updates) for b in bots]
        need = [b in owned and (force or not b.built) for b in bots]
        ret = module.update(force=force)
        ensure([len(b.updates) - n for b, n in zip(bots, before)] == [int(x) for x in need], f"update(force={force}) of the stage's entropy bottlenecks")
        if owned:
            ensure(bool(ret) == any(need), f"update(force={force}) returns {ret}")
    bad = dict(c, stage="6_none")
    raises(ValueError, lambda: build(bad), "unknown stage")
    D = T.modules().DvcModule
    raises(ValueError, lambda: D(m, c["stage"], "vf-iframe", 1, distortion_type="L7"), "unknown distortion type")
    return Info(True, c["stage"])


@PROP.sub("iframe", T.cases, quick=60, thorough=1000)
def iframe(c):
    """Coding the I-frame: pretrained model in evaluation mode, tables refreshed, other frames and the caller's batch untouched."""
    import torch

    module, m = build(c)
    module.train()
    for x in T.batches(c):
        keep = x.clone()
        for k in range(2):  # the logging callback codes the same batch after every validation
            out, bpp = module.compress_iframe(x)
            y, want = T.iframe_ref(c, keep[:, 0])
            equal(x, keep, f"the caller's batch after coding the I-frame {k + 1} times")
            close(out[:, 0], y, 1e-9, 1e-9, "I-frame reconstruction")
            equal(out[:, 1:], keep[:, 1:], "P-frames")
            close(float(bpp), float(want), 1e-6, 1e-9, "I-frame bits per pixel")
            ensure(not out.requires_grad and not torch.as_tensor(bpp).requires_grad, "the I-frame model takes part in training")
        ensure(module.iframe_model.updates > 0, "the I-frame model's tables were not refreshed")
    return Info(c["b"] > 1, f"frames{c['np'] + 1 + c['extra']}")
