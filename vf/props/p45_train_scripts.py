"""P45: the training scripts never lose or silently ignore checkpoints and build what the config says."""
import contextlib
import copy
import math
import os

import hypothesis.strategies as st

from .. import dvc_train, illm, stubs, vct
from ..core import Info, Prop, Reject, close, ensure, equal, raises, rnd, seed_all
from ..gen import fixed, fl, ints, pick, seeds
from ..scratch import scratch

PROP = Prop(
    "P45",
    "cases = contents of the checkpoint directory x overwrite/resume flags x configurations (models, losses, projectors, pretrained weights, "
    "test datasets, stages); oracle = a decision table for checkpoints, a directly built module trained one step next to the configured one, and "
    "recorded framework calls; non-trivial = a checkpoint exists, weights are loaded, or a run is refused",
    assumptions=["Lightning, hydra, omegaconf and wandb are stand-ins that record calls"],
)


def train(project):
    stubs.project(project)
    if project == "illm":
        illm.modules()
    if project == "deep_video_compression":
        dvc_train.modules()
    import train as t

    ensure(project in t.__file__, f"harness: wrong train module {t.__file__}")
    return t


@contextlib.contextmanager
def inside(d):
    old = os.getcwd()
    os.chdir(d)
    stubs.RECORD.clear()
    stubs.Trainer.on_fit = stubs.Trainer.on_test = None
    try:
        yield
    finally:
        os.chdir(old)
        stubs.Trainer.on_fit = stubs.Trainer.on_test = None


def calls(name):
    return [v for n, v in stubs.RECORD if n == name]


FILES = ("last.ckpt", "epoch=3-step=90.ckpt", "best.ckpt", "notes.txt", "sub/last.ckpt", "last.ckpt.bak", "ckpt")


@st.composite
def ckpt_dirs(draw):
    files = draw(st.lists(pick(*FILES), unique=True, max_size=4))
    if draw(st.booleans()) and "last.ckpt" not in files:
        files.append("last.ckpt")
    return dict(files=files, exists=draw(st.booleans()), overwrite=draw(st.booleans()), resume=draw(st.booleans()),
                rel=draw(st.booleans()), deep=draw(st.booleans()))


def fill(d, c, content=lambda n: n.encode()):
    if c["files"] or c["exists"]:
        d.mkdir(parents=True, exist_ok=True)
    for f in c["files"]:
        p = d / f
        p.parent.mkdir(parents=True, exist_ok=True)
        p.write_bytes(content(f))


def snapshot(d):
    return {str(p.relative_to(d)): p.read_bytes() for p in d.rglob("*") if p.is_file()} if d.exists() else {}


def refused(c):
    return not c["overwrite"] and not c["resume"] and any(f.endswith(".ckpt") and "/" not in f for f in c["files"])


@PROP.sub("illm_checkpoint", ckpt_dirs, quick=250, thorough=4000)
def illm_checkpoint(c):
    t = train("illm")
    with scratch() as d, inside(d):
        rel = "a/b/checkpoints" if c["deep"] else "checkpoints"
        base = d / rel
        fill(base, c)
        before = snapshot(base)
        cfg = stubs.DictConfig(checkpoint=dict(callback=dict(dirpath=rel if c["rel"] else str(base)), overwrite=c["overwrite"], resume_training=c["resume"]))
        if refused(c):
            raises(RuntimeError, lambda: t.fetch_checkpoint(cfg), "existing checkpoints without overwrite or resume_training")
        else:
            got = t.fetch_checkpoint(cfg)
            want = str(base / "last.ckpt") if "last.ckpt" in c["files"] and not c["overwrite"] else None
            ensure(got == want or (want and got and os.path.isabs(got) and os.path.realpath(got) == os.path.realpath(want)), lambda: f"resumes from {got}, expected {want}")
            ensure(base.is_dir(), "the checkpoint directory was not created")
        ensure(snapshot(base) == before, "looking for checkpoints changed the checkpoint directory")
        return Info(any(f.endswith(".ckpt") for f in c["files"]), "refused" if refused(c) else "ok")


# ------------------------------------------------------------------ illm: configuration to module


def build_model(c):
    return illm.make_model(dict(c))


def build_disc(c):
    return illm.make_disc(dict(c))


def build_loss(c, which):
    if which == "dist":
        return illm.distortion(c)[0]
    return illm.make_gan_losses()[0 if which == "d" else 1]


def build_rate(c):
    return illm.rate_config(c)


def _latent_autoencoder():
    import torch
    from torch import nn

    class A(nn.Module):
        def __init__(self):
            super().__init__()
            self.w = nn.Parameter(torch.ones(1, dtype=torch.float64))
            self.conv = nn.Conv2d(2, 2, 1, dtype=torch.float64)
            self.lin = nn.Linear(2, 2, dtype=torch.float64)
            self.drop = nn.Dropout(0.5)

    state = torch.random.get_rng_state()
    torch.manual_seed(5)
    a = A()
    torch.random.set_rng_state(state)
    return a


def build_latent(c):
    return _latent_autoencoder()


def build_projector(auto, c):
    import torch
    from torch import nn

    class P(nn.Module):
        def __init__(self):
            super().__init__()
            self.auto = auto

        def forward(self, x):
            ensure(not self.training and not self.auto.training, "the latent projector is in training mode")
            z = torch.nn.functional.avg_pool2d((x * self.auto.w).mean(1, keepdim=True), 4)
            return (z * c["K"]).floor().clamp(0, c["K"] - 1)

    return P()


HERE = "vf.props.p45_train_scripts."


@st.composite
def build_cases(draw):
    c = draw(illm.train_cases(gan=True, max_steps=3))
    c["gan"] = draw(st.booleans())
    c["nq"] = max(1, c["nq"])
    c["dist"] = draw(pick("one", "custom"))
    c.update(pre=draw(pick(None, "path", "path", "hub")), prel=draw(pick(None, "path", "path", "hub")), noloss=draw(pick(*[False] * 9, True)), pseed=draw(ints(0, 99)), junk=draw(st.booleans()), cut=draw(pick(*[None] * 7, "auto", "latent")))
    return c


def module_cfg(c, d):
    """The hydra configuration for a case; returns (cfg, expected model, expected projector weight)."""
    import torch

    base = {k: v for k, v in c.items()}
    tgt = lambda fn, **kw: dict(_target_=HERE + fn, c=Opaque(base), **kw)
    lm = dict(distortion_lam=c["lam"], gradient_clip_val=c["clip"], gradient_clip_algorithm=c["alg"])
    cfg = dict(model=tgt("build_model"), distortion_loss=tgt("build_loss", which="dist"), rate_target=tgt("build_rate"), optimizer=illm.opt_cfg(c), lightning_module=lm)
    if c["noloss"]:
        cfg["distortion_loss"] = {"which": "dist"}
    model = illm.make_model(c)
    if c["pre"]:
        with torch.no_grad():
            seed_all(c["pseed"])
            for p in model.parameters():
                p.add_(torch.rand_like(p) * 0.1)
        save(d / "auto.ckpt", model.state_dict(), c["junk"], c["cut"] == "auto" and c["pre"] == "path")
        cfg["pretrained_autoencoder"] = {"path": str(d / "auto.ckpt")} if c["pre"] == "path" else {"torchhub": {"github": "some/repo", "model": "the_model"}}
    w = 1.0
    if c["gan"]:
        lm.update(generator_weight=c["gw"], mc_sampling=c["mc"])
        cfg["discriminator"] = dict(model=tgt("build_disc"), discriminator_loss=tgt("build_loss", which="d"), generator_loss=tgt("build_loss", which="g"))
        if c["proj"] != "none":
            cfg["latent_projector"] = dict(autoencoder=tgt("build_latent"), projector=tgt("build_projector"))
            if c["prel"]:
                w = 0.5 + c["pseed"] / 100
                a = _latent_autoencoder()
                with torch.no_grad():
                    a.w.fill_(w)
                save(d / "latent.ckpt", a.state_dict(), c["junk"], c["cut"] == "latent" and c["prel"] == "path")
                cfg["pretrained_latent_autoencoder"] = {"path": str(d / "latent.ckpt")} if c["prel"] == "path" else {"torchhub": {"github": "other/repo", "model": "the_latent"}}
    return stubs.DictConfig(cfg), model, w


class Opaque(dict):
    """A plain dictionary the config stand-in passes on unchanged."""


def save(path, sd, junk, cut=False):
    import torch

    out = {"model." + k: v for k, v in sd.items()}
    if cut:
        del out[sorted(out)[len(out) // 2]]
    if junk:  # a training checkpoint also holds the discriminator and names that merely contain the prefix
        out.update({"discriminator.a.weight": torch.zeros(2), "model_ema.x": torch.ones(1), "other.model.w": torch.ones(3)})
    torch.save({"state_dict": out, "global_step": 5}, path)


@contextlib.contextmanager
def hub(answers):
    import torch

    asked = []
    real = torch.hub.load

    def load(repo_or_dir, model, *a, **k):
        asked.append((repo_or_dir, model))
        return answers[model]()

    torch.hub.load = load
    try:
        yield asked
    finally:
        torch.hub.load = real


@PROP.sub("illm_build", build_cases, quick=160, thorough=2500)
def illm_build(c):
    import warnings

    import torch

    t = train("illm")
    _, T, G = illm.modules()
    with scratch() as d, inside(d):
        cfg, model, w = module_cfg(c, d)

        def latent():
            a = _latent_autoencoder()
            with torch.no_grad():
                a.w.fill_(w)
            return a

        with hub({"the_model": lambda: copy.deepcopy(model), "the_latent": latent}) as asked, warnings.catch_warnings():
            warnings.simplefilter("ignore")
            if c["noloss"]:
                raises(ValueError, lambda: t.build_module(cfg), "a configuration without a distortion loss")
                return Info(True, "refused")
            if c["cut"] == "auto" and c["pre"] == "path" or c["cut"] == "latent" and c["prel"] == "path" and c["gan"] and c["proj"] != "none":
                raises(Exception, lambda: t.build_module(cfg), "a pretrained checkpoint with a missing tensor")
                return Info(True, "damaged")
            mod = t.build_module(cfg)
        want = ([("some/repo", "the_model")] if c["pre"] == "hub" else []) + ([("other/repo", "the_latent")] if c["gan"] and c["proj"] != "none" and c["prel"] == "hub" else [])
        ensure(asked == want, lambda: f"torch.hub was asked for {asked}, expected {want}")
        ensure(type(mod) is (G.GANCompressionModule if c["gan"] else T.TargetRateCompressionModule), lambda: f"module {type(mod)} with discriminator={c['gan']}")
        for n, v in model.state_dict().items():
            equal(mod.model.state_dict()[n], v, f"model weight {n}")
        proj = None
        if c["gan"]:
            proj = mod.latent_projector
            ensure((proj is not None) == (c["proj"] != "none"), "latent projector")
            if proj is not None:
                close(proj.auto.w, [w], 0, 0, "weights of the latent projector")
                ensure(not any(m.training for m in proj.modules()) and not any(p.requires_grad for p in proj.parameters()), "the latent projector is not frozen in evaluation mode")
        # the same module built by hand
        kw = dict(distortion_lam=c["lam"], distortion_loss=illm.distortion(c)[0], gradient_clip_val=c["clip"], gradient_clip_algorithm=c["alg"])
        if c["gan"]:
            dl, gl = illm.make_gan_losses()
            p2 = None
            if proj is not None:
                p2 = build_projector(latent() if c["prel"] else _latent_autoencoder(), c).eval().requires_grad_(False)
            ref = G.GANCompressionModule(model=model, target_rate_config=illm.rate_config(c), discriminator=illm.make_disc(c), discriminator_loss=dl, generator_loss=gl,
                                         optimizer_config=illm.opt_cfg(c), latent_projector=p2, generator_weight=c["gw"], mc_sampling=c["mc"], **kw)
        else:
            ref = T.TargetRateCompressionModule(model, illm.rate_config(c), illm.opt_cfg(c), **kw)
        step = 0
        for m in (mod, ref):
            o, s = m.configure_optimizers()
            m.use(o, s)
            m.train()
            if c["gan"] and m.latent_projector is not None:
                m.latent_projector.eval()
        for k, (g, x) in enumerate(illm.batches(c)):
            step += g
            for m in (mod, ref):
                m.trainer.global_step = step
                m.training_step(x.clone(), k)
            a, b = mod.state_dict(), ref.state_dict()
            if not all(bool(torch.isfinite(v).all()) and float(v.abs().max()) < 1e4 for v in b.values() if v.numel()):
                break
            ensure(set(a) == set(b), "state of the module")
            for n in b:
                close(a[n], b[n], 1e-6, 1e-8, f"{n} after training step {k} of the configured module")
        return Info(True, "gan" if c["gan"] else "rate", f"pre-{c['pre']}", f"proj-{c['proj']}")


# ------------------------------------------------------------------ illm: main


class FakeData:
    def __init__(self, tag, val_batch_size="missing"):
        self.tag = tag
        self.val_batch_size = val_batch_size
        self.setups = 0

    def setup(self, stage=None):
        import torch

        self.setups += 1
        self.train_dataset = [torch.full((3, 4, 4), float(i) / 10) for i in range(6)]
        self.eval_dataset = [torch.full((3, 4, 4), float(i) / 10 + 0.05) for i in range(6)]


def build_loader(name):
    return ("loader", name)


@st.composite
def main_cases(draw):
    c = draw(build_cases())
    c.update(noloss=False, cut=None, pre=draw(pick(None, "path")), prel=draw(pick(None, "path")), mode=draw(pick("train", "test", "test")), ngpu=draw(pick(0, 1, 1, 2)), steps=draw(ints(1, 9)),
             names=draw(st.lists(pick("kodak", "clic", "div2k", "mine", "zz"), unique=True, max_size=4)), seed0=draw(ints(0, 99)), group=draw(pick("dev", "x")))
    c["dir"] = draw(ckpt_dirs())
    if draw(st.booleans()) and "last.ckpt" not in c["dir"]["files"]:
        c["dir"]["files"].append("last.ckpt")
    c["tr"] = draw(st.lists(ints(0, 5), min_size=1, max_size=3))
    c["va"] = draw(st.lists(ints(0, 5), min_size=1, max_size=3))
    return c


@PROP.sub("illm_main", main_cases, quick=140, thorough=2500)
def illm_main(c):
    import warnings

    import torch

    t = train("illm")
    dc = c["dir"]
    with scratch() as d, inside(d):
        cfg, model, w = module_cfg(c, d)
        base = d / "ck"
        last = illm.make_model(dict(c, wseed=c["wseed"] + 77))

        def content(name):
            import io

            buf = io.BytesIO()
            sd = {"model." + k: v for k, v in last.state_dict().items()}
            sd["discriminator.a.weight"] = torch.zeros(1)
            torch.save({"state_dict": sd}, buf)
            return buf.getvalue()

        fill(base, dc, content)
        before = snapshot(base)
        cb = dict(dirpath="ck" if dc["rel"] else str(base), save_last=True, monitor="val/x")
        cfg.update(stubs.DictConfig(
            checkpoint=dict(callback=cb, overwrite=dc["overwrite"], resume_training=dc["resume"]), training_mode=c["mode"], ngpu=c["ngpu"], seed=c["seed0"],
            data=dict(_target_=HERE + "FakeData", tag=c["seed0"]), logger=dict(group=c["group"]), trainer=dict(max_steps=c["steps"], precision=32),
            image_logs=dict(log_cache_dir=str(d / "cache" / "imgs"), train_log_indices=c["tr"], val_log_indices=c["va"]),
            test_dataloaders={f"k{i}": dict(name=n, class_params=dict(_target_=HERE + "build_loader", name=n)) for i, n in enumerate(c["names"])},
        ))
        cfg.test_dataloaders = stubs.DictConfig(cfg.test_dataloaders)
        seen = []
        stubs.Trainer.on_test = lambda tr, m: seen.append((m, m.training, {k: v.clone() for k, v in m.model.state_dict().items()}, _name(m)))
        run = lambda: t.main(cfg)
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            if refused(dc):
                raises(RuntimeError, run, "existing checkpoints without overwrite or resume_training")
                ensure(not calls("fit") and not calls("test"), "training or testing started all the same")
                ensure(snapshot(base) == before, "the checkpoint directory changed")
                return Info(True, "refused")
            resume = "last.ckpt" in dc["files"] and not dc["overwrite"]
            if c["mode"] == "test" and (not resume or c["ngpu"] > 1):
                raises((AssertionError, ValueError) if not resume else ValueError, run, f"test with checkpoint={resume}, ngpu={c['ngpu']}")
                ensure(not calls("fit") and not calls("test"), "testing started all the same")
                return Info(True, "refused-test")
            run()
        ensure(snapshot(base) == before, "the script itself changed the checkpoint directory")
        ensure(calls("seed") == [c["seed0"]], "seeding")
        nopt = 2 + bool(c["gan"])
        trainers = calls("Trainer")
        ensure(len(trainers) == 1, "number of trainers")
        kw = trainers[0].kw
        ensure(kw["max_steps"] == c["steps"] * nopt, lambda: f"max_steps {kw['max_steps']} for {c['steps']} steps of {nopt} optimizers")
        ensure(kw.get("precision") == 32, "trainer options are not passed on")
        cbs = [x for x in calls("ModelCheckpoint") if x in kw["callbacks"]]
        ensure(len(cbs) == 1 and cbs[0].kw == cb, "the checkpoint callback does not carry the configured options")
        img = [x for x in kw["callbacks"] if hasattr(x, "train_batch")]
        if img:
            close(img[0].train_batch[:, 0, 0, 0], [i / 10 for i in c["tr"]], 1e-6, 1e-6, "logged training images")
            close(img[0].eval_batch[:, 0, 0, 0], [i / 10 + 0.05 for i in c["va"]], 1e-6, 1e-6, "logged validation images")
            # the same cache directory, other indices
            for tr, va in ((c["tr"], c["va"][::-1] + [0]), ([1] + c["tr"], c["va"]), (c["tr"], c["va"])):
                other = t.build_wandb_image_logger(stubs.DictConfig(data=cfg.data, image_logs=dict(log_cache_dir=str(d / "cache" / "imgs"), train_log_indices=tr, val_log_indices=va)), FakeData(0))
                close(other.train_batch[:, 0, 0, 0], [i / 10 for i in tr], 1e-6, 1e-6, "logged training images after another selection")
                close(other.eval_batch[:, 0, 0, 0], [i / 10 + 0.05 for i in va], 1e-6, 1e-6, "logged validation images after another selection")
        if c["mode"] == "train":
            fits = calls("fit")
            ensure(len(fits) == 1 and not calls("test"), "train mode")
            want = str(base / "last.ckpt") if resume else None
            got = fits[0]["ckpt_path"]
            ensure(got == want or (want and got and os.path.realpath(got) == os.path.realpath(want)), lambda: f"training resumes from {got}, expected {want}")
            ensure(isinstance(fits[0]["datamodule"], FakeData) and fits[0]["datamodule"].tag == c["seed0"], "data module")
            for n, v in model.state_dict().items():
                equal(fits[0]["model"].model.state_dict()[n], v, f"model weight {n} at the start of training")
        else:
            ensure(not calls("fit"), "test mode trains")
            got = [x["dataloaders"] for x in calls("test")]
            ensure([x[0] if isinstance(x, (list,)) else x for x in got] == [("loader", n) for n in c["names"]], lambda: f"tested loaders {got}")
            for n, (m, training, sd, name) in zip(c["names"], seen):
                ensure(not training, "the module is tested in training mode")
                ensure(n in name and not name & (set(c["names"]) - {n}), lambda: f"dataset {n} is tested under the name {name}")
                for k, v in last.state_dict().items():
                    equal(sd[k], v, f"tested weight {k} is not the checkpoint's")
        return Info(True, c["mode"], "resumed" if resume else "fresh")


def _name(m):
    """The strings the module holds: the name under which it would log a test result is among them."""
    return {v for v in vars(m).values() if isinstance(v, str)}


# ------------------------------------------------------------------ DVC stages


@st.composite
def stage_cases(draw):
    c = draw(dvc_train.cases())
    c["dir"] = draw(ckpt_dirs())
    c.update(save_dir=draw(st.booleans()), epochs=draw(ints(1, 5)), over=draw(st.booleans()))
    return c


def fit_shift(tr, m):
    import torch

    with torch.no_grad():
        for p in m.model.parameters():
            p.add_(1.0)


@PROP.sub("dvc_stage", stage_cases, quick=160, thorough=2500)
def dvc_stage(c):
    from pathlib import Path

    t = train("deep_video_compression")
    dc = c["dir"]
    with scratch() as d, inside(d):
        model = dvc_train.make_dvc(c)
        start = {n: p.detach().clone() for n, p in model.named_parameters()}
        base = d / "own" / "place" if c["save_dir"] else d / "root" / c["stage"]
        fill(base, dc)
        before = snapshot(base)
        stage_module = dict(training_stage=c["stage"], num_pframes=c["np"], learning_rate=c["lr"])
        if c["over"]:
            stage_module["distortion_lambda"] = c["lam"]
        cfg = stubs.DictConfig(
            module=dict(pretrained_model_name="vf-iframe", pretrained_model_quality_level=c["q"], distortion_lambda=7.5, aux_learning_rate=c["alr"]),
            trainer=dict(gpus=0, max_epochs=99, precision=16), checkpoint=dict(overwrite=dc["overwrite"], resume_training=dc["resume"], model_checkpoint=dict(save_last=True, save_top_k=1)),
            training_stages={c["stage"]: dict(save_dir=str(base) if c["save_dir"] else None, module=stage_module, trainer=dict(max_epochs=c["epochs"]))},
        )
        keep = copy.deepcopy(dict(cfg))
        stubs.Trainer.on_fit = fit_shift
        logger, image_logger, data = object(), object(), object()
        run = lambda: t.run_training_stage(c["stage"], Path("root"), model, data, logger, image_logger, cfg)
        if refused(dc):
            raises(RuntimeError, run, "existing checkpoints without overwrite or resume_training")
            ensure(not calls("fit") and snapshot(base) == before, "training started all the same")
            return Info(True, "refused")
        out = run()
        ensure(snapshot(base) == before and base.is_dir(), "the checkpoint directory changed")
        ensure(dict(cfg) == keep, "running a stage changed the configuration of the next one")
        (tr,), (fit,) = calls("Trainer"), calls("fit")
        want = str(base / "last.ckpt") if "last.ckpt" in dc["files"] and not dc["overwrite"] else None
        got = tr.kw.get("resume_from_checkpoint") or fit["ckpt_path"]
        ensure((got is None) == (want is None) and (want is None or os.path.realpath(str(got)) == os.path.realpath(want)), lambda: f"resumes from {got}, expected {want}")
        ensure(tr.kw["max_epochs"] == c["epochs"] and tr.kw["precision"] == 16 and tr.kw["gpus"] == 0, "trainer options: the stage's override the common ones")
        ensure(tr.kw["logger"] is logger and image_logger in tr.kw["callbacks"] and fit["datamodule"] is data, "logger, callback or data")
        (mc,) = calls("ModelCheckpoint")
        ensure(os.path.realpath(str(mc.kw["dirpath"])) == os.path.realpath(base) and mc.kw["save_last"] is True and mc.kw["save_top_k"] == 1, "checkpoints are not written to the stage's directory")
        m = fit["model"]
        ensure(m.training_stage == c["stage"] and m.num_pframes == c["np"], "stage configuration")
        ensure(m.iframe_model.request == (c["q"], True), "I-frame model")
        for n, p in out.named_parameters():
            close(p, start[n] + (1.0 if dvc_train.in_stage(c, n) else 0.0), 1e-12, 1e-12, f"{n} after stage {c['stage']}")
        # the loss weight in force: the stage's or else the common one
        x = rnd((1, c["np"] + 1, 3, 4, 4), c["seed"], "uniform", start[next(iter(start))].dtype)
        import torch

        with torch.no_grad():
            m.eval()
            m.logged.clear()
            m.validation_step(x.clone(), 0)
            got = dict((k, v) for k, v in m.logged if not hasattr(v, "compute"))
            rc = dict(c, lam=c["lam"] if c["over"] else 7.5, b=1)
            from .p42_dvc_training import gop

            tot, _, lastl = gop(rc, out, x)
        close(float(got["val_loss"]), lastl, 1e-6, 1e-9, "loss of the configured stage")
        return Info(True, c["stage"], "resumed" if want else "fresh")


class FakeVimeo:
    made = []

    def __init__(self, **kw):
        self.kw = kw
        FakeVimeo.made.append(self)
        self.val_dataset = None

    def setup(self, stage=None):
        import torch

        self.val_dataset = [torch.full((7, 3, 4, 4), float(i)) for i in range(9)]


@PROP.sub("dvc_main", lambda: fixed(stages=st.lists(pick(*dvc_train.STAGES), unique=True, min_size=1, max_size=5), nlog=ints(1, 12), seed=ints(0, 50), ngpu=ints(0, 2), order=seeds), quick=24, thorough=300)
def dvc_main(c):
    """Stages run in sorted order, each on the model the previous one returned."""
    import random

    t = train("deep_video_compression")
    FakeVimeo.made.clear()
    with scratch() as d, inside(d), stubs.patched((t, "Vimeo90kSeptupletLightning", FakeVimeo)):
        stages = list(c["stages"])
        random.Random(c["order"]).shuffle(stages)
        cfg = stubs.DictConfig(
            model=dict(coder_channels=2), logging=dict(save_root="runs", image_seed=c["seed"], num_log_images=c["nlog"]), data=dict(data_dir="/nowhere"), ngpu=c["ngpu"],
            module=dict(pretrained_model_name="vf-iframe", pretrained_model_quality_level=1), trainer=dict(),
            checkpoint=dict(overwrite=False, resume_training=True, model_checkpoint=dict(save_last=True)),
            training_stages={s: dict(save_dir=None, module=dict(training_stage=s, num_pframes=1), trainer=dict()) for s in stages},
        )
        trace = []

        def fit(tr, m):
            import torch

            with torch.no_grad():
                p = next(iter(m.model.parameters()))
                trace.append((m.training_stage, float(p.reshape(-1)[0])))
                p.reshape(-1)[0] += 1.0

        stubs.Trainer.on_fit = fit
        t.main(cfg)
        ensure([s for s, _ in trace] == sorted(c["stages"]), lambda: f"stages ran in the order {[s for s, _ in trace]}")
        for k in range(1, len(trace)):
            close(trace[k][1], trace[0][1] + k, 1e-6, 1e-6, f"stage {trace[k][0]} does not start from the model stage {trace[k - 1][0]} trained")
        (data,) = FakeVimeo.made
        ensure(data.kw.get("frames_per_group") == 7 and data.kw.get("data_dir") == "/nowhere" and data.kw.get("pin_memory") is (c["ngpu"] != 0), lambda: f"data module options {data.kw}")
        for tr in calls("Trainer"):
            img = [x for x in tr.kw["callbacks"] if hasattr(x, "batch")]
            ensure(len(img) == 1 and img[0].batch.shape[0] == min(c["nlog"], 9), "number of logged clips")
            v = img[0].batch[:, 0, 0, 0, 0].tolist()
            ensure(len(set(v)) == len(v), "a clip is logged twice")
        return Info(len(c["stages"]) > 1, f"stages{len(c['stages'])}")


# ------------------------------------------------------------------ VCT


class FakeVCTData:
    def __init__(self, tag, pin_memory=None):
        self.tag, self.pin = tag, pin_memory

    def setup(self, stage=None):
        pass

    def train_dataloader(self):
        return iter([vct.video(rnd((1, 2, 3, 4, 4), 1, "uniform"))])

    val_dataloader = train_dataloader


def build_vct(tag):
    import torch

    m = torch.nn.Linear(2, 2)
    m.tag = tag
    return m


@st.composite
def vct_main_cases(draw):
    return dict(dir=draw(ckpt_dirs()), seed=draw(pick(None, 0, 3, 17)), ngpu=draw(ints(0, 2)), test=draw(st.booleans()), steps=draw(ints(1, 50)), tag=draw(ints(0, 9)))


@PROP.sub("vct_main", vct_main_cases, quick=160, thorough=2500)
def vct_main(c):
    import torch.distributed

    vct.ensure_path()
    stubs.project("torch_vct")
    import model_train as t

    dc = c["dir"]
    if dc["overwrite"] and dc["resume"]:
        raise Reject
    with scratch() as d, inside(d), stubs.patched((torch.distributed, "destroy_process_group", lambda *a, **k: None)):
        base = d / "checkpoints"
        fill(base, dc)
        before = snapshot(base)
        cfg = stubs.DictConfig(
            checkpoint=dict(overwrite=dc["overwrite"], resume_training=dc["resume"], callback=dict(dirpath="checkpoints", save_last=True)), logger=dict(project="p"), ngpu=c["ngpu"],
            datamodule=dict(_target_=HERE + "FakeVCTData", tag=c["tag"]), model=dict(_target_=HERE + "build_vct", tag=c["tag"]), trainer=dict(max_steps=c["steps"]), tester=dict(devices=1),
        )
        if c["seed"] is not None:
            cfg["seed"] = c["seed"]
        if c["test"]:
            cfg["test_datamodule"] = stubs.DictConfig(_target_=HERE + "FakeVCTData", tag=c["tag"] + 100)
        if refused(dc):
            raises(RuntimeError, lambda: t.main(cfg), "existing checkpoints without overwrite or resume_training")
            ensure(not calls("fit") and snapshot(base) == before, "training started all the same")
            return Info(True, "refused")
        t.main(cfg)
        ensure(snapshot(base) == before and base.is_dir(), "the checkpoint directory changed")
        (fit,) = calls("fit")
        want = str(base / "last.ckpt") if "last.ckpt" in dc["files"] and dc["resume"] else None
        got = fit["ckpt_path"]
        ensure((got is None) == (want is None) and (want is None or os.path.realpath(str(got)) == os.path.realpath(want)), lambda: f"resumes from {got}, expected {want}")
        ensure(fit["trainer"].kw["max_steps"] == c["steps"], "trainer options")
        ensure(fit["datamodule"].tag == c["tag"] and fit["datamodule"].pin is (c["ngpu"] != 0), "data module")
        ensure(fit["model"].model.tag == c["tag"], "model")
        ensure(calls("seed") == ([c["seed"]] if c["seed"] else []), "seeding")
        (mc,) = calls("ModelCheckpoint")
        ensure(mc.kw == {"dirpath": "checkpoints", "save_last": True} and mc in fit["trainer"].kw["callbacks"], "checkpoint callback")
        tests = calls("test")
        ensure(len(tests) == int(c["test"]), "testing")
        if c["test"]:
            ensure(tests[0]["datamodule"].tag == c["tag"] + 100 and tests[0]["model"] is fit["model"] and not fit["model"].training, "test data, model or mode")
            ensure(tests[0]["trainer"].kw.get("devices") == 1, "the tester's options")
        return Info(True, "resumed" if want else "fresh")


def build_pipeline(c):
    return vct.pipeline(dict(c))


@st.composite
def load_cases(draw):
    dec = draw(pick(2, 1))
    return dict(kind=draw(pick("gdn", "elic")), T=2, h=draw(ints(33, 48)), w=draw(ints(33, 48)), C=draw(ints(3, 5)), ctx=2, dec=dec, enc=dec * 2 if dec == 2 else 3, wseed=draw(ints(0, 40)),
                gain=draw(fl(0.6, 1.3)), ga=draw(fl(1.5, 4.0)), seed=draw(seeds), mf=None, other=draw(ints(41, 60)), plain=draw(st.booleans()), copy=draw(st.booleans()), junk=draw(st.booleans()),
                bad=draw(pick(None, None, None, None, "config", "missing")))


@PROP.sub("vct_load", load_cases, quick=16, thorough=200)
def vct_load(c):
    """A loaded checkpoint is the saved model, in evaluation mode, ready to code."""
    import torch
    import yaml

    vct.ensure_path()
    stubs.project("torch_vct")
    from utils.checkpoint_loaders import load_model_checkpoint_from_config as load

    with scratch() as d:
        m = vct.pipeline(c)
        sd = {"model." + k: v for k, v in m.state_dict().items()}
        if c["junk"]:
            sd["other.weight"] = torch.ones(2)
        if c["bad"] == "missing":
            sd.pop(sorted(k for k in sd if k.endswith("weight"))[c["seed"] % 5])
        torch.save(sd if c["plain"] else {"state_dict": sd, "epoch": 3}, d / "x.ckpt")
        geo = {k: v for k, v in c.items() if k not in ("bad", "copy", "plain", "junk", "other")}
        conf = {"model": {"value": {"_target_": HERE + "build_pipeline", "c": dict(geo, wseed=c["other"])}}, "seed": {"value": 1}}
        (d / "config.yaml").write_text(yaml.safe_dump(conf))
        args = dict(path_to_checkpoint=str(d), checkpoint_name="x.ckpt", path_to_config=str(d / ("nope.yaml" if c["bad"] == "config" else "config.yaml")), save_copy_of_ckpt=c["copy"])
        if c["bad"] == "config":
            raises(FileNotFoundError, lambda: load(**args), "missing configuration")
            return Info(True, "refused")
        if c["bad"] == "missing":
            raises(RuntimeError, lambda: load(**args), "a checkpoint with a missing tensor")
            return Info(True, "refused")
        got = load(**args)
        ensure(not any(x.training for x in got.modules()), "the loaded model is not in evaluation mode")
        for k, v in m.named_parameters():
            equal(dict(got.named_parameters())[k], v, f"loaded {k}")
        copies = [p for p in d.iterdir() if p.name.startswith("eval_last_")]
        ensure(len(copies) == int(c["copy"]), "copy of the checkpoint")
        for p in copies:
            again = torch.load(p)
            ensure(set(again) == set(sd) and all(torch.equal(again[k], sd[k]) for k in sd), "the copy differs from the checkpoint")
        v = vct.video(rnd((1, c["T"], 3, c["h"], c["w"]), c["seed"], "uniform"))
        with torch.no_grad():
            m.entropy_model.update()
            *a, bits_a = m.compress_video(v, force_cpu=False)
            *b, bits_b = got.compress_video(v, force_cpu=False)
            ensure(list(bits_a) == list(bits_b), "rates of the loaded model")
            close(got.decompress_video(v.shape, bottleneck_args=b, force_cpu=False), m.decompress_video(v.shape, bottleneck_args=a, force_cpu=False), 1e-5, 1e-5, "video decoded by the loaded model")
        return Info(True, c["kind"], "plain" if c["plain"] else "lightning")


# ------------------------------------------------------------------ image logging
class _Experiment:
    def __init__(self):
        self.rows = []

    def log(self, d, **kw):
        self.rows.append(dict(d))


class _NS:
    def __init__(self, **kw):
        self.__dict__.update(kw)


def grid(x, nrow):
    """images side by side (nrow per line) with two pixels of black around each"""
    import torch

    n, ch, h, w = x.shape
    if n == 1:
        return (x[0].expand(3, h, w) if ch == 1 else x[0])
    cols = min(nrow, n)
    out = torch.zeros(max(ch, 3), (h + 2) * -(-n // cols) + 2, (w + 2) * cols + 2, dtype=x.dtype)
    for i in range(n):
        r, k = divmod(i, cols)
        out[:, r * (h + 2) + 2 : (r + 1) * (h + 2), k * (w + 2) + 2 : (k + 1) * (w + 2)] = x[i]
    return out


def pictures(exp):
    got = {}
    for row in exp.rows:
        for k, v in row.items():
            if k != "global_step":
                ensure(k not in got, f"{k} logged twice")
                got[k] = ((v.args[0] if v.args else v.kw["data_or_path"]), row.get("global_step"))
    return got


def logging_cases():
    return fixed(which=pick("illm", "vct", "dvc"), nt=ints(1, 4), ne=ints(1, 10), T=ints(2, 9), h=ints(1, 6), w=ints(1, 6), step=ints(0, 10**6), seed=seeds, drop=st.sets(pick(0, 1, 2), max_size=2).map(sorted), rounds=ints(1, 3))


@PROP.sub("image_logging", logging_cases, quick=150, thorough=2500)
def image_logging(c):
    """After every validation the callbacks show their fixed batches and what the model of the moment makes of them."""
    import torch

    exp = _Experiment()
    trainer = _NS(logger=_NS(experiment=exp), global_step=c["step"])
    h, w = c["h"], c["w"]

    def expect(got, want):
        ensure(sorted(got) == sorted(want), lambda: f"logged {sorted(got)}, expected {sorted(want)}")
        for k, v in want.items():
            close(got[k][0], v, 1e-6, 1e-6, k)
            ensure(got[k][1] == c["step"], lambda: f"{k}: step {got[k][1]}, expected {c['step']}")

    if c["which"] == "dvc":
        t = train("deep_video_compression")
        import _utils

        x = rnd((c["nt"], c["T"], 3, h, w), c["seed"], "uniform")
        keep = x.clone()
        gain = [1.0]
        names = ("flow", "image1", "image2", "image2_est")

        class Model:
            def compute_batch_loss(self, a, b):
                vals = [2 * gain[0] * (a - b)[:, :2], a, b, 0.7 * a + gain[0] * 0.6 * b - 0.1]
                return None, _utils.OutputTensors(*[None if i in c["drop"] else v for i, v in enumerate(vals)])

        pl_module = _NS(device=torch.device("cpu"), dtype=torch.float32, global_step=c["step"], num_pframes=c["T"] - 1, training_stage="7_vf", model=Model(),
                        compress_iframe=lambda b: (torch.cat((b[:, :1] * 0.5 + 0.2, b[:, 1:]), 1), 0.0))
        cb = t.WandbImageCallback(x)
        for r in range(c["rounds"]):
            gain[0] = 1.0 + 0.1 * r
            exp.rows.clear()
            cb.on_validation_end(trainer, pl_module)
            a = x[:, 0] * 0.5 + 0.2
            rows = {n: [] for n in names}
            for k in range(c["T"] - 1):
                b = x[:, k + 1]
                est = 0.7 * a + gain[0] * 0.6 * b - 0.1
                for n, v in zip(names, (2 * gain[0] * (a - b)[:, :2], a, b, est)):
                    rows[n].append(v)
                a = est
            want = {}
            for i, n in enumerate(names):
                if i in c["drop"]:
                    continue
                mosaic = torch.cat([torch.cat([f[j] for f in rows[n]], -1) for j in range(c["nt"])], -2)
                if n == "flow":
                    from neuralcompression.functional import optical_flow_to_color

                    mosaic = optical_flow_to_color(mosaic[None])[0]
                want[f"log_images_stage_7_vf/{n}"] = mosaic.clamp(0, 1)
            expect(pictures(exp), want)
        equal(x, keep, "logging changed the logged batch")
        return Info(c["T"] > 2 or c["nt"] > 1, "dvc")

    gain = [1.0]
    f = lambda v: gain[0] * 1.6 * v - 0.3
    if c["which"] == "illm":
        t = train("illm")
        a, b = rnd((c["nt"], 3, h, w), c["seed"], "uniform"), rnd((c["ne"], 3, h, w), c["seed"] + 1, "uniform")
        cb = t.WandbImageCallback(a, b)

        class Mod:
            device, dtype, global_step = torch.device("cpu"), torch.float32, c["step"]

            def __call__(self, v):
                ensure(not torch.is_grad_enabled(), "images are logged with gradients switched on")
                return _NS(image=f(v))

        shown, nrow = (lambda v: v), 8
    else:
        vct.ensure_path()
        stubs.project("torch_vct")
        import model_train as t
        from datamodules.video_data_api import VideoDataset

        a, b = rnd((c["nt"], c["T"], 3, h, w), c["seed"], "uniform"), rnd((c["ne"], c["T"], 3, h, w), c["seed"] + 1, "uniform")
        cb = t.WandbImageCallback(VideoDataset(video_tensor=a), VideoDataset(video_tensor=b))

        class Mod:
            device, dtype, global_step = torch.device("cpu"), torch.float32, c["step"]

            def __call__(self, v):
                return f(v.video_tensor), None

        shown, nrow = (lambda v: v[0]), 7
    ka, kb = a.clone(), b.clone()
    m = Mod()
    for r in range(c["rounds"]):
        gain[0] = 1.0 + 0.1 * r
        hooks = [("on_validation_end", "")] + ([("on_train_epoch_end", "model.training_")] if c["which"] == "illm" else [])
        for hook, pre in hooks:
            exp.rows.clear()
            getattr(cb, hook)(trainer, m)
            want = {}
            for base, v in (("train_images", ka), ("eval_images", kb)):
                want[f"{pre}{base}/image"] = grid(shown(v), nrow)
                want[f"{pre}{base}/image_compressed"] = grid(shown(f(v).clamp(0, 1)), nrow)
            expect(pictures(exp), want)
    equal(a, ka, "logging changed the logged batch")
    equal(b, kb, "logging changed the logged batch")
    return Info(c["nt"] > 1 or c["rounds"] > 1, c["which"])


@PROP.sub("vct_logged_batches", lambda: fixed(nt=ints(1, 4), nv=ints(1, 4), seed=seeds), quick=30, thorough=100)
def vct_logged_batches(c):
    """The VCT script shows the first training and the first validation batch under their own names."""
    vct.ensure_path()
    stubs.project("torch_vct")
    import model_train as t
    from datamodules.video_data_api import VideoDataset

    mk = lambda n, s: [VideoDataset(video_tensor=rnd((1, 2, 3, 4, 4), s + i, "uniform")) for i in range(n)]
    tr, va = mk(c["nt"], c["seed"]), mk(c["nv"], c["seed"] + 50)

    class Data:
        ready = False

        def setup(self, stage=None):
            self.ready = True

        def train_dataloader(self):
            ensure(self.ready, "data loaders are used before setup")
            return tr

        def val_dataloader(self):
            ensure(self.ready, "data loaders are used before setup")
            return va

    exp = _Experiment()
    cb = t.build_image_logger(Data())

    class Mod:
        import torch

        device, dtype, global_step = torch.device("cpu"), torch.float32, 3

        def __call__(self, v):
            return v.video_tensor, None

    cb.on_validation_end(_NS(logger=_NS(experiment=exp), global_step=3), Mod())
    got = pictures(exp)
    for base, v in (("train_images", tr), ("eval_images", va)):
        close(got[base + "/image"][0], grid(v[0].video_tensor[0], 7), 0, 1e-6, f"{base} do not show the first batch")
    return Info(True)
