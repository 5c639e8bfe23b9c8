"""P46: the folder evaluation script reports the exact averages of rate and quality over every PNG of the folder."""
import contextlib
import io
import re
import sys

import hypothesis.strategies as st

from ..core import Info, Prop, Unsupported, close, ensure
from ..gen import fixed, fl, ints, pick, seeds
from ..scratch import scratch, write_image
from ..vct import repo

PROP = Prop(
    "P46",
    "cases = folders of 1-4 PNG images (sizes, modes, other files beside them) and a stand-in codec (pickled size, error pattern, values outside "
    "[0, 1]); oracle = rate from pickle itself, PSNR and MS-SSIM of the 8-bit images in numpy, recorded inputs of the network metrics; "
    "non-trivial = at least two images of different sizes",
    assumptions=["the CUDA device of the script is mapped to the CPU", "LPIPS and FID networks are recording stand-ins", "the hub returns a stand-in codec"],
)
LOAD = {}


def load():
    """The script as a module, from the tree under test."""
    import importlib.util
    import os

    if "m" not in LOAD:
        p = os.path.join(repo(), "projects", "illm", "eval_folder_example.py")
        spec = importlib.util.spec_from_file_location("vf_eval_folder", p)
        m = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(m)
        LOAD["m"] = m
    return LOAD["m"]


PROP.preload = load


@st.composite
def cases(draw):
    n = draw(ints(1, 4))
    imgs = [dict(h=draw(st.one_of(ints(256, 300), pick(256, 384, 512))), w=draw(st.one_of(ints(256, 300), pick(256, 384, 390))), seed=draw(seeds),
                 mode=draw(pick("RGB", "RGB", "RGBA", "L"))) for _ in range(n)]
    return dict(imgs=imgs, other=draw(st.booleans()), seed=draw(seeds), amp=draw(pick(0.02, 0.1, 0.6)), extra=draw(ints(0, 5000)), keep=draw(fl(0.0, 1.0)))


@contextlib.contextmanager
def cpu_for_cuda():
    """`.to(cuda)` stays on the CPU while the block runs."""
    import torch

    t, m, d = torch.Tensor.to, torch.nn.Module.to, torch.device

    def fix(a):
        def one(v):
            if isinstance(v, d) and v.type == "cuda" or isinstance(v, str) and v.startswith("cuda"):
                return d("cpu")
            return v

        return tuple(one(v) for v in a[0]), {k: one(v) for k, v in a[1].items()}

    def tensor_to(self, *a, **k):
        a, k = fix((a, k))
        return t(self, *a, **k)

    def module_to(self, *a, **k):
        a, k = fix((a, k))
        return m(self, *a, **k)

    torch.Tensor.to, torch.nn.Module.to = tensor_to, module_to
    tc, mc = torch.Tensor.cuda, torch.nn.Module.cuda
    torch.Tensor.cuda = torch.nn.Module.cuda = lambda self, *a, **k: self
    try:
        yield
    finally:
        torch.Tensor.to, torch.nn.Module.to = t, m
        torch.Tensor.cuda, torch.nn.Module.cuda = tc, mc


def degrade(x, c):
    """What the stand-in codec returns for an image: deterministic in the image, leaving [0, 1] in places."""
    import torch

    g = torch.Generator().manual_seed((c["seed"] + x.shape[-1] * 1000 + x.shape[-2]) % (2**31))
    return x * (0.3 + 0.7 * c["keep"]) + c["amp"] * torch.randn(x.shape, generator=g)


def ms_ssim(x, y):
    """MS-SSIM with the published constants on the 255 scale; x, y: float64 (3, H, W)."""
    import numpy as np
    from scipy.ndimage import correlate1d

    i = np.arange(-5, 6)
    g = np.exp(-0.5 * (i / 1.5) ** 2)
    g /= g.sum()
    blur = lambda t: correlate1d(correlate1d(t, g, axis=1), g, axis=2)[:, 5:-5, 5:-5]
    c1, c2 = (0.01 * 255) ** 2, (0.03 * 255) ** 2
    out = np.ones(3)
    for s, f in enumerate((0.0448, 0.2856, 0.3001, 0.2363, 0.1333)):
        if s:
            def down(t):
                t = np.pad(t, ((0, 0), (0, t.shape[1] % 2), (0, t.shape[2] % 2)), mode="edge")
                return (t[:, ::2, ::2] + t[:, 1::2, ::2] + t[:, ::2, 1::2] + t[:, 1::2, 1::2]) / 4

            x, y = down(x), down(y)
        ux, uy = blur(x), blur(y)
        vx, vy, vxy = blur(x * x) - ux * ux, blur(y * y) - uy * uy, blur(x * y) - ux * uy
        cs = (2 * vxy + c2) / (vx + vy + c2)
        term = cs * (2 * ux * uy + c1) / (ux * ux + uy * uy + c1) if s == 4 else cs
        out = out * np.maximum(term.mean((1, 2)), 0) ** f
    return out.mean()


@PROP.sub("report", cases, quick=60, thorough=500)
def report(c):
    import pickle

    import numpy as np
    import torch
    import torchmetrics.image as tmi

    mod = load()
    log = dict(hub=[], calls=[], lpips=[], fid={True: [], False: []})

    class Codec(torch.nn.Module):
        def __init__(self):
            super().__init__()
            self.w = torch.nn.Parameter(torch.zeros(1))
            self.mode, self.updated = None, False

        def update(self, *a, **k):
            self.updated = True
            return True

        def update_tensor_devices(self, mode):
            self.mode = mode

        def compress(self, image, force_cpu=True):
            ensure(self.mode == "compress" and not self.training, "the codec was not prepared for compression")
            ensure(self.updated, "the entropy tables were not updated")
            ensure(image.dim() == 4 and image.shape[0] == 1 and image.dtype == torch.float32, f"compress got {tuple(image.shape)} {image.dtype}")
            ensure(not torch.is_grad_enabled(), "the codec ran with gradients")
            log["calls"].append(image.clone())
            return dict(shape=tuple(image.shape), data=b"\x07" * (c["extra"] + image.shape[-1]), ref=len(log["calls"]) - 1)

        def decompress(self, comp, force_cpu=True):
            ensure(isinstance(comp, dict) and "ref" in comp, "decompress did not get what compress returned")
            return degrade(log["calls"][comp["ref"]], c)

    def hub(repo_name, model, *a, **k):
        log["hub"].append((repo_name, model))
        return Codec()

    class Recorder(torch.nn.Module):
        def forward(self, *a, **k):
            return self.update(*a, **k)

        def reset(self):
            raise Unsupported("the stand-in metrics are not reset")

    class Lpips(Recorder):
        def __init__(self, net_type="alex", reduction="mean", normalize=False, **k):
            super().__init__()
            self.norm = normalize
            self.vals = []

        def update(self, a, b):
            for t in (a, b):
                lo = 0.0 if self.norm else -1.0
                ensure(float(t.min()) >= lo - 1e-6 and float(t.max()) <= 1 + 1e-6, "an LPIPS input leaves the range the metric was told")
            f = (lambda t: t) if self.norm else (lambda t: (t + 1) / 2)
            log["lpips"].append((f(a).clone(), f(b).clone()))
            self.vals.append((f(a) - f(b)).abs().mean(dim=(1, 2, 3)))

        def compute(self):
            return torch.cat(self.vals).mean()

    class Fid(Recorder):
        def __init__(self, *a, **k):
            super().__init__()

        def update(self, imgs, real):
            log["fid"][bool(real)].append(imgs.clone())

        def compute(self):
            r, f = torch.cat(log["fid"][True]).double().mean(), torch.cat(log["fid"][False]).double().mean()
            return (r - f).abs() + 1.0

    exp = []
    with scratch() as d:
        for i, im in enumerate(c["imgs"]):
            write_image(d / f"im{i}.png", im["h"], im["w"], im["seed"], im["mode"])
        if c["other"]:
            (d / "notes.txt").write_text("x")
            write_image(d / "skip.jpg", 256, 256, 1, "RGB", "JPEG")
            (d / "sub").mkdir()
            write_image(d / "sub" / "deep.png", 256, 256, 1, "RGB")
        from PIL import Image

        arrays = [np.asarray(Image.open(d / f"im{i}.png").convert("RGB")) for i in range(len(c["imgs"]))]
        old = {n: getattr(mod, n, None) for n in ("FrechetInceptionDistance", "LearnedPerceptualImagePatchSimilarity")}
        old_tm = {n: getattr(tmi, n) for n in old}
        hubload, argv = torch.hub.load, sys.argv
        out = io.StringIO()
        try:
            for n, s in (("FrechetInceptionDistance", Fid), ("LearnedPerceptualImagePatchSimilarity", Lpips)):
                setattr(tmi, n, s)
                if old[n] is not None:
                    setattr(mod, n, s)
            torch.hub.load = hub
            sys.argv = ["eval_folder_example.py", str(d)]
            with cpu_for_cuda(), contextlib.redirect_stdout(out), contextlib.redirect_stderr(io.StringIO()):
                mod.main()
        finally:
            sys.argv, torch.hub.load = argv, hubload
            for n in old:
                setattr(tmi, n, old_tm[n])
                if old[n] is not None:
                    setattr(mod, n, old[n])
    text = out.getvalue()
    vals = {}
    for k in ("Rate", "PSNR", "MS-SSIM", "LPIPS", "FID"):
        m = re.search(rf"^{re.escape(k)}: (\S+)$", text, re.M)
        ensure(m is not None, f"no {k} in the report: {text!r}")
        vals[k] = float(m.group(1))
    ensure([h[1] for h in log["hub"]] == ["msillm_quality_3"], f"models loaded: {log['hub']}")
    # every image once, converted to RGB in [0, 1]
    n = len(arrays)
    ensure(len(log["calls"]) == n, f"{len(log['calls'])} images compressed, {n} PNG files in the folder")
    want = {a.tobytes() for a in arrays}
    got = [(t[0].permute(1, 2, 0) * 255).round().to(torch.uint8).numpy() for t in log["calls"]]
    ensure({g.tobytes() for g in got} == want, "the images compressed are not the images of the folder")
    rate, psnr, ssim, lp = [], [], [], []
    for i, x in enumerate(log["calls"]):
        comp = dict(shape=tuple(x.shape), data=b"\x07" * (c["extra"] + x.shape[-1]), ref=i)
        rate.append(len(pickle.dumps(comp)) * 8 / (x.shape[-1] * x.shape[-2]))
        y = degrade(x, c).clamp(0, 1)
        a = np.floor(x.double().numpy() * 255 + 0.5)
        b = (y * 255 + 0.5).to(torch.uint8).double().numpy()
        psnr.append(20 * np.log10(255) - 10 * np.log10(((a - b) ** 2).mean()))
        ssim.append(ms_ssim(a[0], b[0]))
        lp.append(float((x - y).abs().mean()))
        exp.append((x, y))
    close(vals["Rate"], float(np.mean(rate)), 1e-9, 0, "average rate")
    close(vals["PSNR"], float(np.mean(psnr)), 1e-5, 0, "average PSNR")
    close(vals["MS-SSIM"], float(np.mean(ssim)), 2e-4, 2e-5, "average MS-SSIM")
    close(vals["LPIPS"], float(np.mean(lp)), 1e-4, 1e-7, "average LPIPS")
    ensure(len(log["lpips"]) == n, "LPIPS was not updated once per image")
    for (a, b), (x, y) in zip(log["lpips"], exp):
        # the distance is symmetric: either order
        ok = max(float((a - y).abs().max()), float((b - x).abs().max())) <= 1e-6 or max(float((a - x).abs().max()), float((b - y).abs().max())) <= 1e-6
        ensure(ok, "LPIPS did not get the decoded and the original image")
    for real, pick_ in ((True, 0), (False, 1)):
        patches = []
        for pair in exp:
            t = (pair[pick_] * 255 + 0.5).to(torch.uint8)
            H, W = t.shape[-2:]
            for off in (0, 128):
                if off and (H < 384 or W < 384):
                    continue
                for yy in range(off, H - 255, 256):
                    for xx in range(off, W - 255, 256):
                        patches.append(t[0, :, yy : yy + 256, xx : xx + 256])
        seen = torch.cat(log["fid"][real]) if log["fid"][real] else torch.zeros(0)
        ensure(len(seen) == len(patches), f"FID got {len(seen)} patches, expected {len(patches)} (real={real})")
        rest = list(seen)
        for e in patches:
            hit = next((i for i, s in enumerate(rest) if int((s.int() - e.int()).abs().max()) <= 1), None)
            ensure(hit is not None, f"FID did not get a patch of the images (real={real})")
            rest.pop(hit)
    return Info(len({(i["h"], i["w"]) for i in c["imgs"]}) > 1, f"n{n}")
