"""Stand-ins for the packages projects/bits_back_diffusion imports and this sandbox lacks.

`craystack` (vectorised rANS in numpy), `improved_diffusion` (Gaussian diffusion, logger) and `plotly` are
reproduced as far as their documented contracts go: every craystack codec pops what it pushed and leaves the
message as it was.  The project's own code is the real one.
"""
import importlib
import os
import sys
import types
from collections import namedtuple

import numpy as np

from . import stubs
from .core import Unsupported
from .vct import repo

L = np.uint64(1 << 31)
Codec = namedtuple("Codec", ["push", "pop"])
U = np.uint64


# ------------------------------------------------------------------ rANS (heads of 64 bits, words of 32)
def _slice(stack, n):
    out = []
    while n > 0:
        if not stack:
            raise IndexError("popped from an empty message")
        arr, stack = stack
        if n >= len(arr):
            out.append(arr)
            n -= len(arr)
        else:
            out.append(arr[:n])
            stack = (arr[n:], stack)
            break
    return stack, np.concatenate(out)


def push(message, starts, freqs, precisions):
    head, tail = message
    starts, freqs, p = U(starts), U(freqs), U(precisions)
    if np.any(freqs == 0):
        raise ValueError("a symbol of frequency zero was pushed")
    idxs = np.broadcast_to(head >= (freqs << (U(63) - p)), head.shape)
    if np.any(idxs):
        tail = (head[idxs].astype(np.uint32), tail)
        head = np.copy(head)
        head[idxs] >>= U(32)
    d, m = np.divmod(head, freqs)
    return (d << p) + m + starts, tail


def pop(message, precisions):
    head_, tail_ = message
    p = U(precisions)
    cfs = head_ & U((U(1) << p) - U(1))

    def fun(starts, freqs):
        tail = tail_
        head = U(freqs) * (head_ >> p) + cfs - U(starts)
        idxs = head < L
        n = int(np.sum(idxs))
        if n:
            tail, new = _slice(tail, n)
            head[idxs] = (head[idxs] << U(32)) | new.astype(np.uint64)
        return head, tail

    return cfs, fun


def flatten(message):
    head, tail = message
    out = [(np.ravel(head) >> U(32)).astype(np.uint32), np.ravel(head).astype(np.uint32)]
    while tail:
        arr, tail = tail
        out.append(arr)
    return np.concatenate(out)


def _size(shape):
    return int(np.prod(np.asarray(shape, dtype=np.int64)))


def unflatten(arr, shape):
    n = _size(shape)
    head = (arr[:n].astype(np.uint64) << U(32)) | arr[n : 2 * n].astype(np.uint64)
    tail = arr[2 * n :].astype(np.uint32)
    return np.reshape(head, shape), ((tail, ()) if len(tail) else ())


def base_message(shape, randomize=False):
    head = np.full(shape, L, dtype=np.uint64)
    if randomize:
        head = head + np.random.randint(1 << 31, size=shape).astype(np.uint64)
    return head, ()


def random_message(flat_len, shape, rng=np.random):
    if flat_len < 2 * _size(shape):
        raise ValueError("flat_len is too small for the head")
    arr = rng.randint(1 << 32, size=flat_len, dtype="uint32")
    arr[: _size(shape)] %= np.uint32(1 << 31)  # heads lie in [2^31, 2^63)
    arr[: _size(shape)] += np.uint32(arr[: _size(shape)] == 0)
    return unflatten(arr, shape)


def message_equal(a, b):
    return np.array_equal(flatten(a), flatten(b))


# ------------------------------------------------------------------ codecs
def NonUniform(enc_statfun, dec_statfun, precision):
    def push_(message, symbol):
        start, freq = enc_statfun(symbol)
        return (push(message, start, freq, precision),)

    def pop_(message):
        cf, fun = pop(message, precision)
        symbol = dec_statfun(cf)
        start, freq = enc_statfun(symbol)
        start, freq = U(start), U(freq)
        if np.any(cf < start) or np.any(cf >= start + freq):
            raise ValueError("the decoder's symbol does not contain the coded value")
        return fun(start, freq), symbol

    return Codec(push_, pop_)


def Uniform(precision):
    def push_(message, symbol):
        if np.any(np.asarray(symbol) >= (1 << precision)):
            raise ValueError("symbol out of range")
        return (push(message, symbol, np.uint64(1), precision),)

    def pop_(message):
        cf, fun = pop(message, precision)
        return fun(cf, np.uint64(1)), cf

    return Codec(push_, pop_)


def substack(codec, view_fun):
    def view(head):
        idx = view_fun(np.arange(head.size).reshape(head.shape))
        sub = head.reshape(-1)[idx]

        def update(new):
            out = head.reshape(-1).copy()
            out[idx.reshape(-1)] = np.ravel(new)
            return out.reshape(head.shape)

        return sub, update

    def push_(message, data):
        head, tail = message
        sub, update = view(head)
        ((sub, tail),) = codec.push((sub, tail), data)
        return ((update(sub), tail),)

    def pop_(message):
        head, tail = message
        sub, update = view(head)
        (sub, tail), data = codec.pop((sub, tail))
        return (update(sub), tail), data

    return Codec(push_, pop_)


def BBANS(prior, likelihood, posterior):
    def push_(message, data):
        message, latent = posterior(data).pop(message)
        (message,) = likelihood(latent).push(message, data)
        (message,) = prior.push(message, latent)
        return (message,)

    def pop_(message):
        message, latent = prior.pop(message)
        message, data = likelihood(latent).pop(message)
        (message,) = posterior(data).push(message, latent)
        return message, data

    return Codec(push_, pop_)


class norm:
    """scipy.stats.norm without its argument checks (and silent)."""

    @staticmethod
    def cdf(x, loc=0, scale=1):
        from scipy.special import ndtr

        with np.errstate(all="ignore"):
            return ndtr((np.asarray(x, dtype=np.float64) - loc) / scale)

    @staticmethod
    def ppf(q, loc=0, scale=1):
        from scipy.special import ndtri

        with np.errstate(all="ignore"):
            return ndtri(np.asarray(q, dtype=np.float64)) * scale + loc


_CACHE = {}


def std_gaussian_buckets(precision):
    if ("b", precision) not in _CACHE:
        _CACHE["b", precision] = norm.ppf(np.linspace(0, 1, (1 << precision) + 1))
    return _CACHE["b", precision]


def std_gaussian_centres(precision):
    if ("c", precision) not in _CACHE:
        n = 1 << precision
        _CACHE["c", precision] = norm.ppf((np.arange(n) + 0.5) / n)
    return _CACHE["c", precision]


def _uint(x):
    return np.rint(x).astype(np.uint64)


def _cdf_to_enc_statfun(cdf):
    def enc(s):
        s = np.asarray(s).astype(np.int64)
        lo = cdf(s)
        return lo, cdf(s + 1) - lo

    return enc


def _cumulative_buckets_from_probs(probs, precision):
    with np.errstate(all="ignore"):
        f = np.rint(np.asarray(probs, dtype=np.float64) * (1 << precision)).astype(np.int64)
    f[f <= 0] = 1
    i = np.argmax(f, axis=-1)[..., None]
    top = np.take_along_axis(f, i, axis=-1)
    diff = (1 << precision) - f.sum(axis=-1, keepdims=True)
    assert not np.any(diff + top <= 0), "cannot rebalance buckets, consider increasing precision"
    np.put_along_axis(f, i, top + diff, axis=-1)
    return np.concatenate((np.zeros(f.shape[:-1] + (1,), dtype=np.int64), np.cumsum(f, axis=-1)), axis=-1).astype(np.uint64)


def _cdf_from_cumulative_buckets(c):
    def cdf(s):
        s = np.asarray(s).astype(np.int64)
        return np.take_along_axis(c, s[..., None], axis=-1)[..., 0]

    return cdf


def _ppf_from_cumulative_buckets(c):
    def ppf(cf):
        return (np.sum(c <= np.asarray(cf)[..., None], axis=-1) - 1).astype(np.int64)

    return ppf


def DiagGaussian_GaussianBins(mean, stdd, bin_mean, bin_stdd, coding_prec, bin_prec):
    def cdf(idx):
        x = std_gaussian_buckets(bin_prec)[np.asarray(idx).astype(np.int64)] * bin_stdd + bin_mean
        return _uint(norm.cdf(x, mean, stdd) * (1 << coding_prec))

    def ppf(cf):
        lo = np.zeros(np.shape(cf), dtype=np.int64)
        hi = np.full(np.shape(cf), 1 << bin_prec, dtype=np.int64)
        for _ in range(bin_prec + 1):
            mid = (lo + hi) // 2
            below = cdf(mid) <= cf
            lo, hi = np.where(below, mid, lo), np.where(below, hi, mid)
        return lo.astype(np.uint64)

    return NonUniform(_cdf_to_enc_statfun(cdf), ppf, coding_prec)


def DiagGaussian_StdBins(mean, stdd, coding_prec, bin_prec):
    return DiagGaussian_GaussianBins(mean, stdd, np.zeros_like(mean), np.ones_like(stdd), coding_prec, bin_prec)


# ------------------------------------------------------------------ diffusion
class GaussianDiffusion:
    """The forward process and its posterior (Ho et al. 2020); the reverse process through a noise prediction."""

    def __init__(self, *, betas, model_mean_type=None, model_var_type=None, loss_type=None, rescale_timesteps=False):
        b = np.array(betas, dtype=np.float64)
        self.betas, self.num_timesteps = b, len(b)
        self.config = dict(model_mean_type=model_mean_type, model_var_type=model_var_type, loss_type=loss_type, rescale_timesteps=rescale_timesteps)
        a = 1 - b
        self.ac = np.cumprod(a)
        self.acp = np.append(1.0, self.ac[:-1])
        self.pv = b * (1 - self.acp) / (1 - self.ac)
        self.plv = np.log(np.append(self.pv[1] if len(b) > 1 else 1e-4, self.pv[1:]))
        self.c1 = b * np.sqrt(self.acp) / (1 - self.ac)
        self.c2 = (1 - self.acp) * np.sqrt(a) / (1 - self.ac)

    @staticmethod
    def _at(arr, t, shape):
        import torch

        r = torch.from_numpy(arr)[t].float()
        return r.reshape(-1, *([1] * (len(shape) - 1))).expand(shape)

    def q_mean_variance(self, x_start, t):
        s = x_start.shape
        return self._at(np.sqrt(self.ac), t, s) * x_start, self._at(1 - self.ac, t, s), self._at(np.log(1 - self.ac), t, s)

    def q_posterior_mean_variance(self, x_start, x_t, t):
        s = x_t.shape
        return self._at(self.c1, t, s) * x_start + self._at(self.c2, t, s) * x_t, self._at(self.pv, t, s), self._at(self.plv, t, s)

    def p_mean_variance(self, model, x, t, clip_denoised=True, denoised_fn=None, model_kwargs=None):
        s = x.shape
        eps = model(x, t, **(model_kwargs or {}))
        x0 = self._at(np.sqrt(1 / self.ac), t, s) * x - self._at(np.sqrt(1 / self.ac - 1), t, s) * eps
        if clip_denoised:
            x0 = x0.clamp(-1, 1)
        mean, _, _ = self.q_posterior_mean_variance(x0, x, t)
        var = np.append(self.pv[1] if len(self.pv) > 1 else 1e-4, self.betas[1:])
        return {"mean": mean, "variance": self._at(var, t, s), "log_variance": self._at(np.log(var), t, s), "pred_xstart": x0}


class SpacedDiffusion(GaussianDiffusion):
    def __init__(self, use_timesteps, **kw):
        self.use_timesteps = set(use_timesteps)
        self.original_num_steps = len(kw["betas"])
        base = np.cumprod(1 - np.array(kw["betas"], dtype=np.float64))
        last, new = 1.0, []
        self.timestep_map = []
        for i, ac in enumerate(base):
            if i in self.use_timesteps:
                new.append(1 - ac / last)
                last = ac
                self.timestep_map.append(i)
        kw["betas"] = np.array(new)
        super().__init__(**kw)


def get_named_beta_schedule(name, n):
    if name == "linear":
        k = 1000 / n
        return np.linspace(k * 0.0001, k * 0.02, n, dtype=np.float64)
    if name == "cosine":
        f = lambda t: np.cos((t + 0.008) / 1.008 * np.pi / 2) ** 2
        return np.array([min(1 - f((i + 1) / n) / f(i / n), 0.999) for i in range(n)])
    raise NotImplementedError(f"unknown beta schedule: {name}")


class Logger:
    dir = None
    kvs, dumped, lines = {}, [], []
    output_formats = []


def _logger_module():
    class KVWriter:
        def writekvs(self, kvs):
            raise NotImplementedError

    def logkvs(d):
        Logger.kvs.update(d)

    def dumpkvs():
        Logger.dumped.append(dict(Logger.kvs))
        Logger.kvs = {}

    return dict(
        KVWriter=KVWriter, get_dir=lambda: Logger.dir, log=lambda *a, **k: Logger.lines.append(a), info=lambda *a, **k: Logger.lines.append(a), logkvs=logkvs, dumpkvs=dumpkvs,
        logkv=lambda k, v: Logger.kvs.__setitem__(k, v), get_current=lambda: None, configure=lambda **k: None,
    )


def instantiate(config, *args, **kwargs):
    """hydra.utils.instantiate: keyword arguments are merged into the configuration, nested dictionaries included."""

    def merge(a, b):
        out = dict(a)
        for k, v in b.items():
            out[k] = merge(out[k], v) if isinstance(out.get(k), dict) and isinstance(v, dict) else v
        return out

    cfg = merge(config, kwargs)
    path = cfg.pop("_target_")
    cfg = {k: instantiate(v) if isinstance(v, dict) and "_target_" in v else v for k, v in cfg.items()}
    if callable(path):
        return path(*args, **cfg)
    mod, name = path.rsplit(".", 1)
    return getattr(importlib.import_module(mod), name)(*args, **cfg)


def _select(cfg, key):
    for k in key.split("."):
        if cfg is None:
            return None
        cfg = cfg.get(k)
    return cfg


def _update(cfg, key, value, **_):
    ks = key.split(".")
    for k in ks[:-1]:
        cfg = cfg.setdefault(k, stubs.DictConfig())
    cfg[ks[-1]] = value


_DONE = False


def install():
    global _DONE
    if _DONE:
        return
    _DONE = True
    stubs.install()
    M = stubs._module
    rans = dict(push=push, pop=pop, flatten=flatten, unflatten=unflatten, base_message=base_message, random_message=random_message, message_equal=message_equal, rans_l=1 << 31)
    cods = dict(
        NonUniform=NonUniform, Uniform=Uniform, substack=substack, norm=norm, std_gaussian_buckets=std_gaussian_buckets, std_gaussian_centres=std_gaussian_centres, Codec=Codec,
        DiagGaussian_GaussianBins=DiagGaussian_GaussianBins, DiagGaussian_StdBins=DiagGaussian_StdBins, _cdf_to_enc_statfun=_cdf_to_enc_statfun, _nearest_uint=_uint,
        _cumulative_buckets_from_probs=_cumulative_buckets_from_probs, _cdf_from_cumulative_buckets=_cdf_from_cumulative_buckets, _ppf_from_cumulative_buckets=_ppf_from_cumulative_buckets,
    )
    M("craystack", **{k: v for k, v in {**rans, **cods}.items() if not k.startswith("_") and k not in ("push", "pop", "norm")}, BBANS=BBANS)
    M("craystack.rans", **rans)
    M("craystack.codecs", **cods)
    M("craystack.bb_ans", BBANS=BBANS)
    M("improved_diffusion")
    E = types.SimpleNamespace
    M("improved_diffusion.gaussian_diffusion", GaussianDiffusion=GaussianDiffusion, get_named_beta_schedule=get_named_beta_schedule,
      LossType=E(RESCALED_KL="rescaled_kl", RESCALED_MSE="rescaled_mse", MSE="mse", KL="kl"), ModelMeanType=E(EPSILON="epsilon", START_X="start_x", PREVIOUS_X="previous_x"),
      ModelVarType=E(FIXED_LARGE="fixed_large", FIXED_SMALL="fixed_small", LEARNED_RANGE="learned_range", LEARNED="learned"))
    M("improved_diffusion.respace", SpacedDiffusion=SpacedDiffusion)
    M("improved_diffusion.logger", **_logger_module())
    M("improved_diffusion.dist_util", dev=lambda: __import__("torch").device("cpu"), setup_dist=lambda: None, sync_params=lambda p: None)
    M("improved_diffusion.train_util", TrainLoop=object, find_ema_checkpoint=lambda *a: None)
    try:
        import plotly.graph_objs  # noqa: F401
    except ImportError:
        M("plotly")
        M("plotly.graph_objs", Scatter=stubs._recorded("Scatter"), Figure=type("Figure", (), {"__init__": lambda self, data=None: setattr(self, "data", data), "update_layout": lambda self, **k: setattr(self, "layout", k)}))
    W = sys.modules["wandb"]
    if getattr(W, "_vf_stub", False):
        W.logged = []
        W.log = lambda d, *a, **k: W.logged.append(d)
    H = sys.modules["hydra"]
    if getattr(H, "_vf_stub", False):
        M("hydra.utils", instantiate=instantiate, to_absolute_path=lambda p: os.path.abspath(p))
        M("hydra.core")
        M("hydra.core.hydra_config", HydraConfig=object)
    O = sys.modules["omegaconf"]
    if getattr(O, "_vf_stub", False):
        O.OmegaConf.select = staticmethod(_select)
        O.OmegaConf.update = staticmethod(_update)


def load(name):
    """A module of the project: 'codec', 'script_util' or a script."""
    install()
    p = os.path.join(repo(), "projects", "bits_back_diffusion")
    if not os.path.isdir(p):
        raise Unsupported("no bits_back_diffusion project")
    stubs.project("bits_back_diffusion")
    try:
        if name in ("codec", "script_util"):
            return importlib.import_module("bits_back_diffusion." + name)
        return importlib.import_module(name)
    except AttributeError as e:
        raise Unsupported(f"stand-in gap: {e}")
