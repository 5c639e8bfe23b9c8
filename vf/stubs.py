"""Stand-ins for the training frameworks the projects import and this sandbox lacks.

Only the documented contract the projects use is reproduced: `LightningModule` is an
`nn.Module` that records what is logged and, under manual optimization, hands out the
optimizers and schedulers it was given; `hydra.utils.instantiate` imports `_target_` and calls
it with the other entries and the call's keyword arguments; `DictConfig` is a dictionary with
attribute access.  Anything else a project touches raises AttributeError, which the checks
report as Unsupported where it comes from these modules.
"""
import contextlib
import importlib
import importlib.machinery
import os
import sys
import types

from .core import Unsupported
from .vct import repo


def _module(name, **attrs):
    m = sys.modules.get(name)
    if m is None or not getattr(m, "_vf_stub", False):
        m = types.ModuleType(name)
        m._vf_stub = True
        m.__spec__ = importlib.machinery.ModuleSpec(name, None)
        m.__path__ = []

        def missing(attr, name=name):
            if attr.startswith("__"):
                raise AttributeError(attr)
            raise AttributeError(f"the stand-in for {name} has no {attr!r}")

        m.__getattr__ = missing
        sys.modules[name] = m
        if "." in name:
            parent, child = name.rsplit(".", 1)
            setattr(sys.modules[parent], child, m)
    for k, v in attrs.items():
        setattr(m, k, v)
    return m


class DictConfig(dict):
    """Attribute access over nested dictionaries; a missing key reads as None through .get only."""

    def __init__(self, d=None, **kw):
        super().__init__()
        for k, v in {**(d or {}), **kw}.items():
            self[k] = DictConfig(v) if isinstance(v, dict) and not isinstance(v, DictConfig) else v

    def __getattr__(self, k):
        try:
            return self[k]
        except KeyError:
            raise AttributeError(k)

    def __setattr__(self, k, v):
        self[k] = v

    def copy(self):
        return DictConfig(self)


class Recorded:
    """A framework object of which only the constructor's arguments matter."""

    def __init__(self, *args, **kw):
        self.args, self.kw = args, kw
        self.experiment = self
        self.logs = []
        RECORD.append((type(self).__name__, self))

    def log(self, d, *a, **k):
        self.logs.append(d)


RECORD = []  # framework objects and calls, in order


def _recorded(name):
    return type(name, (Recorded,), {})


class Trainer(Recorded):
    global_rank = 0
    global_step = 0
    on_fit = None  # set by the check: called as on_fit(trainer, model, kwargs)
    on_test = None

    @property
    def logger(self):
        return self.kw.get("logger")

    def fit(self, model, train_dataloaders=None, val_dataloaders=None, datamodule=None, ckpt_path=None):
        RECORD.append(("fit", dict(trainer=self, model=model, datamodule=datamodule, ckpt_path=ckpt_path)))
        if Trainer.on_fit is not None:
            Trainer.on_fit(self, model)

    def test(self, model=None, dataloaders=None, ckpt_path=None, verbose=True, datamodule=None):
        RECORD.append(("test", dict(trainer=self, model=model, dataloaders=dataloaders, datamodule=datamodule)))
        if Trainer.on_test is not None:
            Trainer.on_test(self, model)


def seed_everything(seed=None, workers=False):
    RECORD.append(("seed", seed))
    return seed


def instantiate(config, *args, **kwargs):
    if config is None:
        return None
    cfg = dict(config)
    path = cfg.pop("_target_")
    cfg.pop("_recursive_", None)
    cfg.pop("_convert_", None)
    cfg = {k: instantiate(v) if isinstance(v, dict) and "_target_" in v else v for k, v in cfg.items()}
    cfg.update(kwargs)
    mod, name = path.rsplit(".", 1)
    return getattr(importlib.import_module(mod), name)(*args, **cfg)


def _lightning_classes():
    import torch
    from torch import nn

    class LightningModule(nn.Module):
        def __init__(self, *a, **k):
            super().__init__()
            self.logged = []
            self.trainer = types.SimpleNamespace(global_step=0)
            self._opts = None
            self._scheds = None
            self.automatic_optimization = True

        @property
        def global_step(self):
            return self.trainer.global_step

        @property
        def device(self):
            return next((p.device for p in self.parameters()), torch.device("cpu"))

        @property
        def dtype(self):
            return next((p.dtype for p in self.parameters()), torch.float32)

        def log(self, name, value, *a, **k):
            self.logged.append((name, _snapshot(value)))

        def log_dict(self, d, *a, **k):
            for n, v in d.items():
                self.log(n, v)

        def manual_backward(self, loss, *a, **k):
            loss.backward(*a, **k)

        def optimizers(self, use_pl_optimizer=True):
            o = self._opts
            return o[0] if len(o) == 1 else list(o)

        def lr_schedulers(self):
            s = self._scheds
            if not s:
                return None
            return s[0] if len(s) == 1 else list(s)

        def clip_gradients(self, optimizer, gradient_clip_val=None, gradient_clip_algorithm=None):
            ps = [p for g in optimizer.param_groups for p in g["params"] if p.grad is not None]
            if not gradient_clip_val or not ps:
                return
            if gradient_clip_algorithm in (None, "norm"):
                torch.nn.utils.clip_grad_norm_(ps, gradient_clip_val)
            elif gradient_clip_algorithm == "value":
                torch.nn.utils.clip_grad_value_(ps, gradient_clip_val)
            else:
                raise ValueError(gradient_clip_algorithm)

        def on_load_checkpoint(self, checkpoint):
            pass

        def on_test_epoch_start(self):
            pass

        def on_train_epoch_start(self):
            pass

        def save_hyperparameters(self, *a, **k):
            pass

        def use(self, optimizers, schedulers=()):
            """What the trainer does with the result of configure_optimizers."""
            object.__setattr__(self, "_opts", list(optimizers))
            object.__setattr__(self, "_scheds", list(schedulers))

    class LightningDataModule:
        def __init__(self, *a, **k):
            pass

        def prepare_data(self):
            pass

        def setup(self, stage=None):
            pass

        def save_hyperparameters(self, *a, **k):
            pass

    class Callback:
        pass

    return LightningModule, LightningDataModule, Callback


def _snapshot(v):
    """A logged metric is evaluated later by Lightning, a number or tensor now."""
    import torch

    if isinstance(v, torch.Tensor):
        return v.detach().clone()
    return v


_DONE = False


def install():
    """Register the stand-ins (only for packages that are really missing)."""
    global _DONE
    if _DONE:
        return
    _DONE = True
    import torch._dynamo  # inspects installed packages once; before the stand-ins exist

    LM, LDM, CB = _lightning_classes()
    for root in ("lightning", "pytorch_lightning"):
        try:
            importlib.import_module(root)
            continue
        except ImportError:
            pass
        names = dict(LightningModule=LM, LightningDataModule=LDM, Callback=CB, Trainer=Trainer, seed_everything=seed_everything)
        _module(root, **names)
        if root == "lightning":
            _module("lightning.pytorch", **names)
        for base in ([root, "lightning.pytorch"] if root == "lightning" else [root]):
            _module(base + ".utilities", rank_zero_only=lambda f: f)
            _module(base + ".callbacks", Callback=CB, LearningRateMonitor=_recorded("LearningRateMonitor"), ModelCheckpoint=_recorded("ModelCheckpoint"))
            _module(base + ".strategies", DDPStrategy=_recorded("DDPStrategy"))
            wl = _recorded("WandbLogger")
            _module(base + ".loggers", WandbLogger=wl)
            _module(base + ".loggers.wandb", WandbLogger=wl)
    try:
        import wandb  # noqa: F401
    except ImportError:
        _module("wandb", Image=_recorded("Image"))
    try:  # pytorchvideo still imports the name the project's pinned torchvision had
        import torchvision.transforms.functional_tensor  # noqa: F401
    except ImportError:
        import torchvision.transforms._functional_tensor as ft

        sys.modules["torchvision.transforms.functional_tensor"] = ft
    try:
        import hydra  # noqa: F401
    except ImportError:
        _module("hydra", main=lambda *a, **k: (lambda f: f))
        _module("hydra.utils", instantiate=instantiate)
    try:
        import omegaconf  # noqa: F401
    except ImportError:
        class OmegaConf:
            register_new_resolver = staticmethod(lambda *a, **k: None)
            has_resolver = staticmethod(lambda *a, **k: False)
            create = staticmethod(lambda d: DictConfig(d))
            to_container = staticmethod(lambda d, **k: dict(d))
            set_struct = staticmethod(lambda d, flag: None)

        _module("omegaconf", DictConfig=DictConfig, OmegaConf=OmegaConf)


@contextlib.contextmanager
def patched(*triples):
    """Replace attributes, also where a repository module imported the same object by name."""
    saved = []
    root = os.path.realpath(repo()) + os.sep
    try:
        for obj, name, val in triples:
            old = getattr(obj, name)
            saved.append((obj, name, old))
            setattr(obj, name, val)
            if callable(old):
                for m in list(sys.modules.values()):
                    f = getattr(m, "__file__", None)
                    if m is obj or not isinstance(f, str) or not os.path.realpath(f).startswith(root):
                        continue
                    for k, v in list(vars(m).items()):
                        if v is old:
                            saved.append((m, k, old))
                            setattr(m, k, val)
        yield
    finally:
        for obj, name, val in reversed(saved):
            setattr(obj, name, val)


# ----------------------------------------------------------------------- projects
CLASHING = ("_utils", "train", "data_module", "utils")


def project(name):
    """Put a project directory at the front of sys.path (its modules import each other by name)."""
    install()
    p = os.path.join(repo(), "projects", name)
    if not os.path.isdir(p):
        raise Unsupported(f"no project {name}")
    if sys.path[0] != p:
        with contextlib.suppress(ValueError):
            sys.path.remove(p)
        sys.path.insert(0, p)
        for m in CLASHING:
            old = sys.modules.get(m)
            if old is not None and not str(getattr(old, "__file__", "")).startswith(p):
                sys.modules.pop(m)
    return p
