"""P36: every published model name yields its architecture with exactly its own weights."""
import contextlib
import importlib.util
import json
import os
import sys

import hypothesis.strategies as st

from ..core import Info, Prop, ensure
from ..gen import fixed, ints, pick
from ..vct import repo

PROP = Prop(
    "P36",
    "cases = published names x entry point (zoo / torch.hub) x pretrained flag x extra arguments x sequences of loads, and damaged "
    "checkpoints; oracle = the published name-to-file table and the recorded layouts of the checkpoints; non-trivial = weights are loaded",
    assumptions=["Checkpoints are served by a stand-in for torch.hub.load_state_dict_from_url (no network)."],
)

BASE = "https://dl.fbaipublicfiles.com/NeuralCompression/2023-muckley-msillm/"
RATES = {"vlo1": "0.00218", "vlo2": "0.00438", "1": "0.035", "2": "0.07", "3": "0.14", "4": "0.3", "5": "0.45", "6": "0.9"}
TABLE = {f"msillm_quality_{q}": f"{BASE}msillm_target_{r}bpp.ckpt" for q, r in RATES.items()}
TABLE.update({f"noganms_quality_{q}": f"{BASE}noganms_target_{r}bpp.ckpt" for q, r in RATES.items() if not q.startswith("v")})
VQ = "vqvae_xcit_p8_ch64_cb1024_h8"
TABLE[VQ] = f"{BASE}{VQ}.ckpt"
_SHAPES = {}


def shapes(name):
    """The state-dict layout under which the published checkpoints store the architecture, and its class."""
    import torch
    from neuralcompression.models import HiFiCAutoencoder, VqVaeXCiTAutoencoder

    if not _SHAPES:
        with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "data", "published_layouts.json")) as f:
            for key, lay in json.load(f).items():
                _SHAPES[key] = {k: (getattr(torch, d), tuple(s)) for k, (d, s) in lay.items()}
    return (_SHAPES["vq"], VqVaeXCiTAutoencoder) if name == VQ else (_SHAPES["hific"], HiFiCAutoencoder)


def value(url):
    return 0.5 + (sum(ord(ch) * (i + 1) for i, ch in enumerate(url)) % 997) / 1000.0


def checkpoint(name, url, drop=None):
    import torch

    sd = {}
    for k, (dt, shp) in shapes(name)[0].items():
        v = value(url) if dt.is_floating_point else 1
        sd[k] = torch.full((), v, dtype=dt).expand(shp) if len(shp) else torch.full((), v, dtype=dt)
    if drop is not None:
        ks = sorted(k for k in sd if k.endswith("weight"))
        del sd[ks[drop % len(ks)]]
    return sd


@contextlib.contextmanager
def served(name, drop=None):
    import torch

    asked = []
    real = torch.hub.load_state_dict_from_url

    def fake(url, *a, **k):
        asked.append(url)
        owner = next((n for n, u in TABLE.items() if u == url), name)
        return checkpoint(owner if (owner == VQ) == (name == VQ) else name, url, drop)

    places = [(torch.hub, "load_state_dict_from_url")]
    for mn, mod in list(sys.modules.items()):
        if mn.startswith("neuralcompression") and mod is not None:
            places += [(mod, a) for a, v in list(vars(mod).items()) if v is real]
    for mod, a in places:
        setattr(mod, a, fake)
    try:
        yield asked
    finally:
        for mod, a in places:
            setattr(mod, a, real)


def entry(name, hub):
    import neuralcompression.zoo as zoo

    if not hub:
        return getattr(zoo, name)
    if "vf_hubconf" not in sys.modules:
        spec = importlib.util.spec_from_file_location("vf_hubconf", os.path.join(repo(), "hubconf.py"))
        mod = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(mod)
        sys.modules["vf_hubconf"] = mod
    return getattr(sys.modules["vf_hubconf"], ("msillm_" if name == VQ else "") + name)


NAMES = sorted(TABLE)


def strat():
    return fixed(name=pick(*NAMES), hub=st.booleans(), pretrained=pick(True, True, None, False), extra=st.booleans(), drop=st.one_of(st.none(), st.none(), ints(0, 300)))


@contextlib.contextmanager
def uninitialised(on):
    """Skip random initialisation (slow, and no value of a fresh model is looked at)."""
    import torch.nn.init as init

    names = [n for n in dir(init) if n.endswith("_") and not n.startswith("_") and callable(getattr(init, n))]
    saved = {n: getattr(init, n) for n in names}
    if on:
        for n in names:
            setattr(init, n, lambda t, *a, **k: t)
    try:
        yield
    finally:
        for n, f in saved.items():
            setattr(init, n, f)


def one(name, hub, pretrained, extra, drop):
    kw = {}
    if pretrained is not None:
        kw["pretrained"] = pretrained
    if extra:
        kw["progress"] = False
    loads = pretrained if pretrained is not None else hub  # torch.hub entries load by default, zoo builders do not
    fn = entry(name, hub)
    with served(name, drop) as asked, uninitialised(True):
        try:
            m = fn(**kw)
        except Exception:
            if loads and drop is not None:
                ensure(asked == [TABLE[name]], lambda: f"{name}: fetched {asked}")
                return "refused"
            raise
    ensure(not (loads and drop is not None), lambda: f"{name}: a checkpoint with a missing tensor was accepted silently")
    ensure(asked == ([TABLE[name]] if loads else []), lambda: f"{name} (hub={hub}, pretrained={pretrained}): fetched {asked}, expected {[TABLE[name]] if loads else []}")
    want, cls = shapes(name)
    got = {k: (v.dtype, tuple(v.shape)) for k, v in m.state_dict().items()}
    ensure(isinstance(m, cls) and got == want, lambda: f"{name}: architecture differs from the published one: {sorted(set(got.items()) ^ set(want.items()), key=str)[:4]}")
    ensure(all(p.requires_grad for p in m.parameters()), lambda: f"{name}: frozen parameters")
    if loads:
        v = value(TABLE[name])
        for k, p in m.named_parameters():
            ensure(abs(float(p.detach().reshape(-1)[0]) - v) < 1e-6 and abs(float(p.detach().reshape(-1)[-1]) - v) < 1e-6, lambda: f"{name}: parameter {k} does not carry the checkpoint's value")
    return "loaded" if loads else "fresh"


@PROP.sub("names", strat, quick=64, thorough=600, shards=8)
def names(case):
    r = one(case["name"], case["hub"], case["pretrained"], case["extra"], case["drop"])
    return Info(r != "fresh", r, case["name"])


WAYS = ((False, True), (False, None), (False, False), (True, None), (True, False))  # (torch.hub?, pretrained)


def _part(i):
    @PROP.sub(f"every_name_{i}", lambda: fixed(k=ints(0, 0)), quick=1, thorough=1, shards=1, examples=[{"k": k} for k in range(len(WAYS) * len(NAMES)) if k % 6 == i])
    def every_name(case):
        """The whole table, both entry points, with, without and by default."""
        name, (hub, pretrained) = NAMES[case["k"] // len(WAYS)], WAYS[case["k"] % len(WAYS)]
        one(name, hub, pretrained, False, None)
        return Info(True)


for _i in range(6):
    _part(_i)
