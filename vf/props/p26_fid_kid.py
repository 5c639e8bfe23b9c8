"""P26: FID and KID compare the feature distributions of all images since the last reset."""
import contextlib

import hypothesis.strategies as st

from ..core import Info, Prop, close, ensure, equal, raises, rnd
from ..gen import big, fixed, ints, pick, seeds, weighted

PROP = Prop(
    "P26",
    "cases = histories of update(real/fake), reset and compute over batches of generated images on one or two synchronising "
    "replicas, with stand-in feature networks (fixed linear maps that record what they are given); oracle = Frechet distance via "
    "symmetric eigenvalues and unbiased polynomial MMD in numpy; non-trivial = at least two batches and differently distributed sides",
)


def make_backbone(dim, squeeze=False):
    import torch

    class Backbone(torch.nn.Module):
        made = []

        def __init__(self, *a, **kw):
            super().__init__()
            self.args = (a, kw)
            self.inputs = []
            Backbone.made.append(self)

        def forward(self, x):
            ensure(not torch.is_grad_enabled() or not x.requires_grad, "backbone input requires a gradient")
            self.inputs.append((x.dtype, x.detach().clone()))
            f = feats(x, dim)
            return f[0] if squeeze and f.shape[0] == 1 else f

    return Backbone


def feats(x, dim):
    import torch

    x = x.detach().double()
    b = x.shape[0]
    flat = x.reshape(b, -1) / 64.0
    proj = rnd((flat.shape[1], dim), 4242, "normal", torch.float64, 0.5)
    return (flat @ proj).float()


def frechet(a, b):
    import numpy as np

    a, b = a.astype(np.float64), b.astype(np.float64)
    ca, cb = np.atleast_2d(np.cov(a, rowvar=False)), np.atleast_2d(np.cov(b, rowvar=False))
    w, v = np.linalg.eigh(ca)
    ra = (v * np.sqrt(np.maximum(w, 0))) @ v.T
    ev = np.linalg.eigvalsh(ra @ cb @ ra)
    d = a.mean(0) - b.mean(0)
    return float(d @ d + np.trace(ca) + np.trace(cb) - 2 * np.sqrt(np.maximum(ev, 0)).sum()), float(np.trace(ca) + np.trace(cb) + d @ d)


def mmd2(a, b, degree, gamma, coef):
    import numpy as np

    a, b = a.astype(np.float64), b.astype(np.float64)
    g = 1.0 / a.shape[1] if gamma is None else gamma
    k = lambda p, q: (g * p @ q.T + coef) ** degree
    m = len(a)
    kxx, kyy, kxy = k(a, a), k(b, b), k(a, b)
    return float(((kxx.sum() - np.trace(kxx)) + (kyy.sum() - np.trace(kyy))) / (m * (m - 1)) - 2 * kxy.mean()), float(np.abs(kxy).max())


def batch(o, norm):
    """uint8 images, and the float images in [0, 1] that normalise to them."""
    import torch

    u = rnd((o["n"], 3, 4, 5), o["seed"], "uniform", torch.float64) ** (0.5 if o["real"] else 2.0)
    u = (u * 255.99).floor().clamp(0, 255)
    u8 = u.to(torch.uint8)
    part = 0.1 + 0.8 * rnd(tuple(u.shape), o["seed"] + 1, "uniform", torch.float64)
    return u8, ((u + part) / 255.0).clamp(max=1.0).float() if norm else u8


def hist():
    op = weighted((5, fixed(n=big(1, 4, 5, 17, 40), seed=seeds, real=st.booleans(), rank=ints(0, 1))), (1, st.just("reset")), (1, st.just("compute")))
    return fixed(kind=pick("fid", "swav", "kid"), norm=st.booleans(), dist=st.booleans(), dim=big(2, 5, 8, 16), ops=weighted((9, st.lists(op, min_size=2, max_size=8)), (1, st.lists(op, min_size=12, max_size=24))), squeeze=st.booleans(),
                 degree=pick(1, 2, 3), gamma=pick(None, 0.05, 0.7), coef=pick(1.0, 0.0, 2.5), subsets=pick(1, 3, 3, 130), feature=pick(64, 192, 768, 2048))


@contextlib.contextmanager
def patched(kind, Backbone):
    import torch
    import neuralcompression.metrics._fid as f
    import neuralcompression.metrics._kid as k

    if kind == "swav":
        calls = []

        class Trunk(Backbone):
            def __init__(self):
                super().__init__()
                self.fc = torch.nn.Linear(3, 3)
                self.drop = torch.nn.Dropout(0.5)

            def forward(self, x):
                ensure(not self.drop.training, "the SwAV trunk is in training mode")
                ensure(not isinstance(self.fc, torch.nn.Linear), "the classifier head is still attached")
                return super().forward(x)

        old = torch.hub.load
        torch.hub.load = lambda *a, **kw: (calls.append((a, kw)), Trunk())[1]
        try:
            yield calls
        finally:
            torch.hub.load = old
    else:
        mod = f if kind == "fid" else k
        old = mod.NoTrainInceptionV3
        mod.NoTrainInceptionV3 = Backbone
        try:
            yield None
        finally:
            mod.NoTrainInceptionV3 = old


@PROP.sub("history", hist, quick=250, thorough=5000)
def history(c):
    import numpy as np
    import torch
    from neuralcompression.metrics import FrechetInceptionDistance, FrechetInceptionDistanceSwAV, KernelInceptionDistance

    from ..dist import replicas, synced

    kind = c["kind"]
    B = make_backbone(c["dim"], c["squeeze"] and kind != "kid")
    with patched(kind, B) as calls:
        kid_n = 5  # subset size; every side is filled up to exactly this many images before computing
        mk = {"fid": lambda: FrechetInceptionDistance(feature=c["feature"], normalize=c["norm"]), "swav": lambda: FrechetInceptionDistanceSwAV(normalize=c["norm"]),
              "kid": lambda: KernelInceptionDistance(feature=c["feature"], subsets=c["subsets"], subset_size=kid_n, degree=c["degree"], gamma=c["gamma"], coef=c["coef"], normalize=c["norm"])}[kind]
        ms = replicas(mk, 2) if c["dist"] else [mk()]
    if kind == "swav":
        ensure(all(a[:2] == ("facebookresearch/swav:main", "resnet50") for a, _ in calls), f"torch.hub.load called with {calls}")
    else:
        for b in B.made:
            a, kw = b.args
            fl = kw.get("features_list", a[1] if len(a) > 1 else None)
            ensure([str(q) for q in fl] == [str(c["feature"])], f"feature layer {fl} instead of {c['feature']}")
    for m in ms:
        m.train()  # must not put the extractor into training mode
    seen = {True: [], False: []}
    per_rank = {(r, s): 0 for r in range(len(ms)) for s in (True, False)}
    ups = dict(per_rank)
    nup = 0

    def update(o):
        nonlocal nup
        u8, img = batch(o, c["norm"] and kind != "swav")
        keep = img.clone()
        m = ms[o["rank"] % len(ms)]
        for b in B.made:
            b.inputs.clear()
        m.update(img, real=o["real"])
        equal(img, keep, "images modified")
        ins = [t for b in B.made for t in b.inputs]
        ensure(len(ins) >= 1, "no network evaluation for an update")
        dt, x = ins[0][0], torch.cat([t for _, t in ins])
        if kind == "swav":
            e = u8.double() / 255
            if c["norm"]:
                mean = torch.tensor([0.485, 0.456, 0.406], dtype=torch.float64).reshape(1, 3, 1, 1)
                std = torch.tensor([0.228, 0.224, 0.225], dtype=torch.float64).reshape(1, 3, 1, 1)
                e = (e - mean) / std
            close(x, e, 1e-5, 1e-5, "what the SwAV network sees")
        else:
            ensure(dt == torch.uint8, f"the inception network is given {dt}")
            equal(x, u8, "what the inception network sees")
        seen[o["real"]].append(feats(x, c["dim"]).numpy())
        per_rank[(o["rank"] % len(ms), o["real"])] += o["n"]
        ups[(o["rank"] % len(ms), o["real"])] += 1
        nup += 1

    def total(s):
        return sum(len(t) for t in seen[s])

    computed = 0
    for o in c["ops"] + ["compute"]:
        if o == "reset":
            for m in ms:
                m.reset()
            seen = {True: [], False: []}
            for k in per_rank:
                per_rank[k] = ups[k] = 0
        elif o == "compute":
            for r in range(len(ms)):  # a synchronised metric needs both sides everywhere
                for s in (True, False):
                    if per_rank[(r, s)] == 0:
                        update(dict(n=2, seed=99 + r, real=s, rank=r))
            want = kid_n if kind == "kid" else 3
            for s in (True, False):
                while total(s) < want:
                    update(dict(n=1, seed=7000 + total(s), real=s, rank=total(s)))
            if kind == "kid" and c["dist"]:  # ranks of a real job make equally many updates
                for s in (True, False):
                    while ups[(0, s)] != ups[(1, s)]:
                        r = 0 if ups[(0, s)] < ups[(1, s)] else 1
                        update(dict(n=1, seed=8000 + total(s), real=s, rank=r))
            a, b = np.concatenate(seen[True]), np.concatenate(seen[False])
            for m in ms:
                if kind == "kid":
                    if len(a) != kid_n or len(b) != kid_n:
                        m.subset_size = min(len(a), len(b))
                        if len(a) != len(b):  # subsets are random: only the documented statistics' consistency is checked
                            from torch_fidelity.metric_kid import kid_features_to_metric

                            r = kid_features_to_metric(torch.from_numpy(a).double(), torch.from_numpy(b).double(), kid_subsets=c["subsets"], kid_subset_size=m.subset_size,
                                                       kid_kernel_poly_degree=c["degree"], kid_kernel_poly_gamma=c["gamma"], kid_kernel_poly_coef0=c["coef"], verbose=False)
                            mean, std = synced(m)
                            if not c["dist"]:
                                close(mean, r["kernel_inception_distance_mean"], 1e-6, 1e-6, "KID mean")
                                close(std, r["kernel_inception_distance_std"], 1e-5, 1e-6, "KID std")
                            continue
                    e, big = mmd2(a, b, c["degree"], c["gamma"], c["coef"])
                    mean, std = synced(m)
                    close(mean, e, 1e-6, 1e-9 * (1 + big), "KID")
                    close(std, 0.0, 0, 1e-9 * (1 + big), "KID deviation over identical subsets")
                else:
                    e, scale = frechet(a, b)
                    close(synced(m), e, 1e-4, 1e-4 * scale, "Frechet distance")
            computed += 1
    return Info(nup > 1, kind, "dist" if c["dist"] else "single", "norm" if c["norm"] else "raw")


@PROP.sub("defaults", lambda: fixed(n=ints(4, 8), seed=seeds, kind=pick("fid", "swav", "kid")), quick=12, thorough=60, shards=1)
def defaults(c):
    """Constructor defaults and refusals."""
    import inspect
    import torch
    from neuralcompression.metrics import FrechetInceptionDistance, FrechetInceptionDistanceSwAV, KernelInceptionDistance

    B = make_backbone(3)
    with patched(c["kind"], B):
        if c["kind"] == "fid":
            for bad in (0, 63, 2047, 1000, 128, 512, 1024, 4096, 288, 1280):
                raises(ValueError, lambda: FrechetInceptionDistance(feature=bad), f"feature {bad}")
            raises(ValueError, lambda: FrechetInceptionDistance(normalize=1), "normalize=1")
            m = FrechetInceptionDistance()
            ensure([str(q) for q in B.made[-1].args[1].get("features_list", B.made[-1].args[0][-1:])] == ["2048"], "default feature layer")
        elif c["kind"] == "swav":
            raises(ValueError, lambda: FrechetInceptionDistanceSwAV(normalize="yes"), "normalize='yes'")
            m = FrechetInceptionDistanceSwAV()
        else:
            m = KernelInceptionDistance()
            ensure((m.subsets, m.subset_size) == (100, 1000), lambda: f"by default {m.subsets} subsets of {m.subset_size}")
            ensure([str(q) for q in B.made[-1].args[1].get("features_list", B.made[-1].args[0][-1:])] == ["2048"], "default feature layer")
            m = KernelInceptionDistance(subset_size=c["n"], subsets=1)
            a, b = rnd((c["n"], 3, 2, 2), c["seed"], "uniform", torch.float32, 255).byte(), rnd((c["n"], 3, 2, 2), c["seed"] + 1, "uniform", torch.float32, 255).byte()
            m.update(a, real=True)
            m.update(b, real=False)
            e, big = mmd2(feats(a, 3).numpy(), feats(b, 3).numpy(), 3, None, 1.0)
            close(m.compute()[0], e, 1e-6, 1e-9 * (1 + big), "KID with default kernel")
            # random subsets: all of them count
            from torch_fidelity.metric_kid import kid_features_to_metric

            m = KernelInceptionDistance(subset_size=c["n"] - 1, subsets=137)
            m.update(a, real=True)
            m.update(b, real=False)
            r = kid_features_to_metric(feats(a, 3).double(), feats(b, 3).double(), kid_subsets=137, kid_subset_size=c["n"] - 1, kid_kernel_poly_degree=3, kid_kernel_poly_gamma=None, kid_kernel_poly_coef0=1.0, verbose=False)
            mean, std = m.compute()
            close(mean, r["kernel_inception_distance_mean"], 1e-6, 1e-9 * (1 + big), "mean over all subsets")
            close(std, r["kernel_inception_distance_std"], 1e-6, 1e-9 * (1 + big), "deviation over all subsets")
            return Info(True, "kid")
        u = rnd((c["n"], 3, 2, 2), c["seed"], "uniform", torch.float32, 255).byte()
        m.update(u, real=True)
        x = [t for b in B.made for t in b.inputs][-1][1]
        if c["kind"] == "fid":
            equal(x, u, "by default images are not rescaled")
        else:
            e = (u.double() / 255 - torch.tensor([0.485, 0.456, 0.406]).double().reshape(1, 3, 1, 1)) / torch.tensor([0.228, 0.224, 0.225]).double().reshape(1, 3, 1, 1)
            close(x, e, 1e-5, 1e-5, "by default SwAV images are normalised")
    return Info(True, c["kind"])
