"""P40: perceptual distances (LPIPS, its loss form, DISTS metric)."""
import contextlib

import hypothesis.strategies as st

from ..core import Info, Prop, close, ensure, equal, raises, rnd
from ..gen import fixed, fl, ints, pick, seeds

PROP = Prop(
    "P40",
    "cases = (backbone, calibration, version, input range, reduction, image pairs from identical to free, black and constant images) "
    "with randomly initialised backbones, and histories of DISTS metric updates; oracle = the published formulas evaluated in float64 "
    "on the backbone's features; non-trivial = different images",
)
_NETS = {}


def backbone(name):
    """The real architectures with random weights (no weights can be downloaded here)."""
    import torch
    import torchvision.models as tv

    if name not in _NETS:
        torch.manual_seed(11)
        if name == "vgg":
            f = tv.vgg.make_layers(tv.vgg.cfgs["D"])
        elif name == "alex":
            f = tv.AlexNet.__new__(tv.AlexNet)
            torch.nn.Module.__init__(f)
            f = torch.nn.Sequential(
                torch.nn.Conv2d(3, 64, 11, 4, 2), torch.nn.ReLU(True), torch.nn.MaxPool2d(3, 2), torch.nn.Conv2d(64, 192, 5, padding=2), torch.nn.ReLU(True), torch.nn.MaxPool2d(3, 2),
                torch.nn.Conv2d(192, 384, 3, padding=1), torch.nn.ReLU(True), torch.nn.Conv2d(384, 256, 3, padding=1), torch.nn.ReLU(True), torch.nn.Conv2d(256, 256, 3, padding=1), torch.nn.ReLU(True), torch.nn.MaxPool2d(3, 2))
        else:
            f = _OLD["squeezenet1_1"](weights=None).features
        for m in f.modules():  # keep the activations alive through the depth
            if isinstance(m, torch.nn.Conv2d):
                torch.nn.init.kaiming_normal_(m.weight)
                torch.nn.init.normal_(m.bias, std=0.05)
        _NETS[name] = f.eval()
    h = torch.nn.Module()
    h.features = _NETS[name]
    return h


_OLD = {}


@contextlib.contextmanager
def offline_nets():
    import torchvision.models as tv

    names = {"vgg16": "vgg", "alexnet": "alex", "squeezenet1_1": "squeeze"}
    for n in names:
        _OLD.setdefault(n, getattr(tv, n))
    for n, k in names.items():
        setattr(tv, n, (lambda k: lambda *a, **kw: backbone(k))(k))
    try:
        yield
    finally:
        for n in names:
            setattr(tv, n, _OLD[n])


TAPS = {"vgg": [3, 8, 15, 22, 29], "alex": [1, 4, 7, 9, 11], "squeeze": [1, 4, 7, 9, 10, 11, 12]}


def features(name, x):
    import torch

    out = []
    for i, layer in enumerate(_NETS[name]):
        x = torch.relu(x) if isinstance(layer, torch.nn.ReLU) else layer(x)  # the module's own ReLUs work in place
        if i in TAPS[name]:
            out.append(x)
        if i == TAPS[name][-1]:
            return out


def distance(name, a, b, lin, version, normfix, normalize, spatial=False):
    """Per-image distances (and per-layer terms) from the published formula."""
    import os
    import lpips
    import torch

    if normalize:
        a, b = 2 * a - 1, 2 * b - 1
    if version == "0.1":
        sh = torch.tensor([-0.030, -0.088, -0.188])[None, :, None, None]
        sc = torch.tensor([0.458, 0.448, 0.450])[None, :, None, None]
        a, b = (a - sh) / sc, (b - sh) / sc
    fa, fb = features(name, a), features(name, b)
    w = torch.load(os.path.join(os.path.dirname(lpips.__file__), "weights", f"v{version}", f"{name}.pth"), map_location="cpu") if lin else None
    terms = []
    for k, (p, q) in enumerate(zip(fa, fb)):
        p, q = p.double(), q.double()

        def unit(t):
            if normfix:
                return t / torch.sqrt((t**2 + 1e-8).sum(1, keepdim=True))
            return t / (torch.sqrt((t**2).sum(1, keepdim=True)) + 1e-10)

        d = (unit(p) - unit(q)) ** 2
        d = (d * w[f"lin{k}.model.1.weight"].double()).sum(1) if lin else d.sum(1)
        if spatial:
            d = torch.nn.functional.interpolate(d[:, None], size=a.shape[2:], mode="bilinear", align_corners=False)
        terms.append(d if spatial else d.mean((1, 2)))
    return sum(terms), terms


def pairs(c, big):
    n = 64 if big else 32
    a = rnd((c["b"], 3, n + c["dh"], n + c["dw"]), c["seed"], c["kind"])
    z = rnd(a.shape, c["seed"] + 1, "uniform")
    b = {"same": a.clone(), "near": 0.9 * a + 0.1 * z, "free": z, "black": 0 * z}[c["rel"]]
    return a, b


def common():
    return dict(b=ints(1, 3), dh=ints(0, 5), dw=ints(0, 5), seed=seeds, kind=pick("uniform", "const", "levels", "zeros"), rel=pick("same", "near", "free", "black"), normalize=st.booleans())


@PROP.sub("lpips", lambda: fixed(net=pick("alex", "alex", "squeeze", "vgg", None), lin=pick(True, True, False, None), ver=pick("0.1", "0.0", None), red=pick("mean", "sum", "none", None), **common()), quick=90, thorough=1500)
def lpips_fn(c):
    import torch
    import neuralcompression.functional as ncF

    name = c["net"] or "alex"
    a, b = pairs(c, name == "alex")
    ka, kb = a.clone(), b.clone()
    kw = {}
    if c["net"]:
        kw["base_network"] = c["net"]
    if c["lin"] is not None:
        kw["use_linear_calibration"] = c["lin"]
    if c["ver"]:
        kw["linear_weights_version"] = c["ver"]
    if c["red"]:
        kw["reduction"] = c["red"]
    if c["normalize"] or c["seed"] % 2:
        kw["normalize"] = c["normalize"]
    with offline_nets():
        got = ncF.lpips(a, b, **kw)
    equal(a, ka, "images modified")
    equal(b, kb, "images modified")
    with torch.no_grad():
        e, _ = distance(name, a, b, c["lin"] is not False, c["ver"] or "0.1", False, c["normalize"])
    red = c["red"] or "mean"
    exp = {"mean": e.mean(), "sum": e.sum(), "none": e}[red]
    close(got, exp, 2e-3, 1e-4 * c["b"], f"LPIPS {name} {red}")
    if c["rel"] == "same":
        close(got, torch.zeros_like(exp), 0, 1e-5, "identical images")
    return Info(c["rel"] != "same", name, red)


@PROP.sub("loss", lambda: fixed(net=pick("alex", "vgg", "vgg", None), mse=pick(None, 1.0, 0.0, 255.0**2), lam=pick(None, None, 0.5, 2.0, 0.0), norm_set=st.booleans(), train=st.booleans(), **common()), quick=60, thorough=1000)
def loss(c):
    """MSE + LPIPS loss: value, finite gradients everywhere, frozen network."""
    import torch
    from neuralcompression.loss_fn import MSELPIPSLoss

    name = c["net"] or "vgg"
    kw = {}
    if c["net"]:
        kw["backbone"] = c["net"]
    if c["mse"] is not None:
        kw["mse_param"] = c["mse"]
    if c["lam"] is not None:
        kw["lpips_param"] = c["lam"]
    if c["norm_set"]:
        kw["normalize"] = c["normalize"]
    with offline_nets():
        L = MSELPIPSLoss(**kw)
    if c["train"]:
        L.train()
    ensure(not any(p.requires_grad for p in L.parameters()), "the perceptual network is trainable")
    ensure(not L.lpips_model.training and not any(m.training for m in L.lpips_model.modules()), "the perceptual network is in training mode")
    a, b = pairs(c, name == "alex")
    a.requires_grad_(True)
    v = L(a, b)
    norm = c["normalize"] if c["norm_set"] else True
    with torch.no_grad():
        e, _ = distance(name, a.detach(), b, True, "0.1", True, norm)
    s, l = 255.0**2 if c["mse"] is None else c["mse"], 1.0 if c["lam"] is None else c["lam"]
    m = float(((a.detach().double() - b.double()) ** 2).mean())
    close(v, s * m + l * float(e.mean()), 0, 1e-5 * s * m + 2e-3 * l * float(e.mean()) + 1e-4 * (1 + l), "MSE + LPIPS")
    ensure(v.dim() == 0, "not a scalar")
    v.backward()
    ensure(a.grad is not None and bool(torch.isfinite(a.grad).all()), "gradient is not finite")
    if c["rel"] in ("near", "free") and (s or l):
        ensure(float(a.grad.abs().max()) > 0, "no gradient")
    return Info(c["rel"] != "same", name)


@PROP.sub("normfix", lambda: fixed(net=pick("alex", "vgg", "squeeze"), lpips=st.booleans(), spatial=st.booleans(), ver=pick("0.1", "0.0"), per_layer=st.booleans(), **common()), quick=60, thorough=1000)
def normfix(c):
    import torch
    from neuralcompression.loss_fn import NormFixLPIPS

    with offline_nets():
        m = NormFixLPIPS(net=c["net"], lpips=c["lpips"], spatial=c["spatial"], version=c["ver"], verbose=False)
    ensure(m.train() is m and not m.training, "train() does not keep the network in evaluation mode")
    a, b = pairs(c, c["net"] == "alex")
    with torch.no_grad():
        r = m(a, b, retPerLayer=c["per_layer"], normalize=c["normalize"])
        e, terms = distance(c["net"], a, b, c["lpips"], c["ver"], True, c["normalize"], c["spatial"])
    val, res = r if c["per_layer"] else (r, None)
    if c["spatial"]:
        ensure(tuple(val.shape) == (c["b"], 1) + tuple(a.shape[2:]), f"spatial map {tuple(val.shape)}")
        ensure(bool((val >= -1e-6).all()), "negative distance")
        close(val, e, 2e-3, 2e-4, "distance map")
        if res is not None:
            ensure(len(res) == len(terms), f"{len(res)} layers")
            close(sum(res), val, 1e-4, 1e-5, "the layers do not add up")
            for t, q in zip(res, terms):  # enlarged bilinearly
                close(t, q, 2e-3, 2e-4, "layer map")
    else:
        close(val.reshape(-1), e, 2e-3, 1e-4, "distance")
        if res is not None:
            ensure(len(res) == len(terms), f"{len(res)} layers")
            for t, q in zip(res, terms):
                close(t.reshape(-1), q, 2e-3, 1e-4, "layer term")
    return Info(c["rel"] != "same", c["net"])


def hist():
    op = st.one_of(*([fixed(b=ints(1, 3), seed=seeds, rank=ints(0, 1), bad=pick(None, None, None, "high", "low", "3d", "gray", "second"))] * 3), pick("reset", "compute"))
    return fixed(red=pick("mean", "sum", None), ops=st.lists(op, min_size=1, max_size=7), dist=st.booleans(), squeeze=st.booleans())


@PROP.sub("dists", hist, quick=250, thorough=5000)
def dists(c):
    """The DISTS metric adds one score per image since the last reset; refused batches leave no trace."""
    import torch
    import neuralcompression.metrics._dists as mod
    from neuralcompression.metrics import DeepImageStructureTextureSimilarity as M

    from ..dist import replicas, synced

    class Net(torch.nn.Module):
        def forward(self, x, y):
            s = (x - 0.5 * y).double().abs().mean((1, 2, 3)).float()
            return s.squeeze() if c["squeeze"] else s

    old = mod.NoTrainDists
    mod.NoTrainDists = Net
    try:
        kw = {} if c["red"] is None else {"reduction": c["red"]}
        ms = replicas(lambda: M(**kw), 2) if c["dist"] else [M(**kw)]
        raises(ValueError, lambda: M(reduction="none"), "reduction 'none'")
    finally:
        mod.NoTrainDists = old
    seen = []
    n = 0
    for o in c["ops"] + ["compute"]:
        if o == "reset":
            for m in ms:
                m.reset()
            seen = []
        elif o == "compute":
            if not seen:
                continue
            e = sum(seen) / (len(seen) if c["red"] != "sum" else 1)
            for m in ms:
                close(synced(m), e, 1e-4, 1e-6, f"DISTS {c['red']}")
        else:
            x, y = rnd((o["b"], 3, 4, 4), o["seed"], "levels"), rnd((o["b"], 3, 4, 4), o["seed"] + 1, "uniform")
            m = ms[o["rank"] % len(ms)]
            if o["bad"]:
                if o["bad"] == "high":
                    x[0, 0, 0, 0] = 1.01
                elif o["bad"] == "low":
                    x[-1, 2, 3, 3] = -0.01
                elif o["bad"] == "second":
                    y[-1, 2, 3, 3] = 2.0
                elif o["bad"] == "gray":
                    x, y = x[:, :1], y[:, :1]
                else:
                    x, y = x[0], y[0]
                raises(ValueError, lambda: m.update(x, y), f"{o['bad']} input")
            else:
                m.update(x, y)
                seen += (x - 0.5 * y).double().abs().mean((1, 2, 3)).tolist()
                n += 1
    return Info(n > 1, "dist" if c["dist"] else "single")


@PROP.sub("refusals", lambda: fixed(net=pick("resnet", "", "VGG", "alexnet"), ver=pick("0.2", "1", ""), red=pick("avg", "batchmean")), quick=8, thorough=12, shards=1)
def refusals(c):
    import torch
    import neuralcompression.functional as ncF

    x = torch.rand(1, 3, 64, 64)
    with offline_nets():
        raises(ValueError, lambda: ncF.lpips(x, x, base_network=c["net"]), f"network {c['net']!r}")
        raises(ValueError, lambda: ncF.lpips(x, x, linear_weights_version=c["ver"]), f"version {c['ver']!r}")
        raises(ValueError, lambda: ncF.lpips(x, x, reduction=c["red"]), f"reduction {c['red']!r}")
    return Info(True)
