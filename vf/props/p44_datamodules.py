"""P44: the projects' data modules batch exactly the dataset their documentation names."""
import hypothesis.strategies as st

from .. import stubs, vct
from ..core import Info, Prop, close, ensure, equal, raises, rnd
from ..gen import fixed, fl, ints, pick, seeds
from ..scratch import scratch, write_image
from ..stubs import patched

PROP = Prop(
    "P44",
    "cases = dataset trees of small images, batch sizes, crop sizes, transforms, frame counts, normalisation, clip samplers; oracle = the files as "
    "written, cropped / scaled / normalised by hand; non-trivial = more than one batch, or a refused configuration",
    assumptions=["Lightning is not installed: a minimal stand-in is used", "Kinetics clips come from a stand-in dataset (no video decoding)"],
)


def to_t(a):
    import torch

    return torch.from_numpy(a).permute(2, 0, 1).float() / 255


def center(x, h, w):
    """Centre crop; torchvision pads smaller inputs with zeros, the cases avoid that."""
    H, W = x.shape[-2:]
    t, l = int(round((H - h) / 2.0)), int(round((W - w) / 2.0))
    return x[..., t : t + h, l : l + w]


def shrink(a, size):
    """Bilinear resize (Pillow's, as on the training machine): the shorter side, or both, to ``size``."""
    import numpy as np
    from PIL import Image

    h, w = a.shape[:2]
    if isinstance(size, int):
        nh, nw = (size, int(size * w / h)) if h <= w else (int(size * h / w), size)
    else:
        nh, nw = size
    return to_t(np.asarray(Image.fromarray(a).resize((nw, nh), Image.BILINEAR)).copy())


# -------------------------------------------------------------- OpenImages (illm)
@st.composite
def open_cases(draw):
    return dict(ntrain=draw(ints(1, 6)), nval=draw(st.one_of(ints(1, 6), ints(9, 13))), full=draw(st.booleans()), bs=draw(ints(1, 4)), vbs=draw(pick(None, 1, 2, 5)), size=draw(pick(None, 3, [4, 3], 5)), seed=draw(ints(0, 10**6)),
                h=draw(ints(3, 9)), w=draw(ints(3, 9)), ttf=draw(st.booleans()), vtf=draw(st.booleans()))


@PROP.sub("open_images", open_cases, quick=120, thorough=2500)
def open_images(c):
    import numpy as np
    import torch

    stubs.project("illm")
    from open_images_datamodule import OpenImagesDataModule

    tag = lambda k: (lambda im: to_t(np.asarray(im).copy()) + k)
    with scratch() as d:
        files = {}
        for folder, n in (("train", c["ntrain"]), ("validation", c["nval"])):
            files[folder] = [write_image(d / folder / f"{i:016x}.jpg", c["h"], c["w"], c["seed"] + 31 * i + len(folder), fmt="JPEG") for i in range(n)]
            (d / f"list-{folder}-files.txt").write_text("".join(f"{i:016x}.jpg\n" for i in range(n)))
        kw = dict(open_images_root=str(d), batch_size=c["bs"], workers=0, image_size=c["size"], val_batch_size=c["vbs"], pin_memory=False, full_size=c["full"])
        if c["ttf"]:
            kw["train_transform"] = tag(1)
        if c["vtf"]:
            kw["val_transform"] = tag(2)
        if c["size"] is None and not (c["ttf"] and c["vtf"]):
            raises(ValueError, lambda: OpenImagesDataModule(**kw), "no image_size and no transform")
            return Info(True, "refused")
        dm = OpenImagesDataModule(**kw)
        dm.prepare_data()
        dm.setup()
        size = [c["size"]] * 2 if isinstance(c["size"], int) else c["size"]
        vb = c["vbs"] if c["vbs"] is not None else c["bs"]
        for loader, bs in ((dm.val_dataloader(), vb), (dm.test_dataloader(), vb)):
            got = list(loader)
            ensure([g.shape[0] for g in got] == [min(bs, c["nval"] - i) for i in range(0, c["nval"], bs)], "validation batch sizes")
            got = torch.cat(got)
            if c["vtf"]:
                close(got, torch.stack([to_t(a) + 2 for a in files["validation"]]), 0, 1e-6, "validation images in order")
            else:
                ensure(tuple(got.shape) == (c["nval"], 3, *size), f"validation shape {tuple(got.shape)}")
                ensure(float(got.min()) >= 0 and float(got.max()) <= 1, "validation range")
                close(got, torch.stack([center(shrink(x, c["size"]), *size) for x in files["validation"]]), 0, 1e-6, "resized and centre-cropped validation images")
                equal(got, torch.cat(list(dm.val_dataloader())), "validation is not deterministic")
        got = list(dm.train_dataloader())
        ensure([g.shape[0] for g in got] == [min(c["bs"], c["ntrain"] - i) for i in range(0, c["ntrain"], c["bs"])], "training batch sizes")
        got = torch.cat(got)
        if c["ttf"]:
            key = lambda t: tuple(t.flatten().tolist())
            ensure(sorted(map(key, got)) == sorted(key(to_t(a) + 1) for a in files["train"]), "an epoch is not every training image once")
        else:
            ensure(tuple(got.shape) == (c["ntrain"], 3, *size), f"training shape {tuple(got.shape)}")
            ensure(float(got.min()) >= 0 and float(got.max()) <= 1, "training range")
        return Info(c["nval"] > vb or c["ntrain"] > c["bs"], "own-transforms" if c["ttf"] else "default-transforms")


# -------------------------------------------------------------- Vimeo (DVC and VCT projects)
@st.composite
def vimeo_cases(draw):
    return dict(which=draw(pick("dvc", "vct")), nt=draw(ints(1, 4)), nv=draw(ints(1, 4)), tb=draw(ints(1, 3)), vb=draw(ints(1, 3)), fpg=draw(pick(1, 2, 3, 6, 7, 0, 8, -1)),
                size=draw(pick(3, 4, [3, 4], [4, 2])), h=draw(ints(4, 8)), w=draw(ints(4, 8)), seed=draw(ints(0, 10**6)))


@PROP.sub("vimeo", vimeo_cases, quick=80, thorough=1500)
def vimeo(c):
    import torch

    with scratch() as d:
        clips = {}
        for split, n, base in (("train", c["nt"], 1), ("test", c["nv"], 50)):
            names = [f"{base + i:05d}/{i + 1:04d}" for i in range(n)]
            clips[split] = [torch.stack([to_t(write_image(d / "sequences" / s / f"im{k}.png", c["h"], c["w"], c["seed"] + 100 * i + k + base)) for k in range(1, 8)]) for i, s in enumerate(names)]
            (d / f"sep_{split}list.txt").write_text("\n".join(names) + "\n")
        size = [c["size"]] * 2 if isinstance(c["size"], int) else c["size"]
        n = 7
        if c["which"] == "dvc":
            stubs.project("deep_video_compression")
            import data_module

            make = lambda: data_module.Vimeo90kSeptupletLightning(str(d), frames_per_group=c["fpg"], train_batch_size=c["tb"], val_batch_size=c["vb"], image_size=c["size"])
            if not 1 <= c["fpg"] <= 7:
                raises(ValueError, make, f"frames_per_group {c['fpg']}")
                return Info(True, "refused")
            n = c["fpg"]
            dm = make()
            get = lambda b: b
        else:
            vct.ensure_path()
            stubs.project("torch_vct")
            from datamodules.video_data_api import VideoDataset
            from datamodules.vimeo import VimeoDataModule

            dm = VimeoDataModule(str(d), train_batch_size=c["tb"], val_batch_size=c["vb"], video_crop_size=c["size"], num_workers=0)

            def get(b):
                ensure(isinstance(b, VideoDataset), "a batch is not a VideoDataset")
                b.validate_shape()
                return b.video_tensor
        dm.setup()
        val = [get(b) for b in dm.val_dataloader()]
        ensure([v.shape[0] for v in val] == [min(c["vb"], c["nv"] - i) for i in range(0, c["nv"], c["vb"])], "validation batch sizes")
        close(torch.cat(val), torch.stack([center(x[:n], *size) for x in clips["test"]]), 0, 1e-6, "validation clips in order, centre-cropped")
        tr = [get(b) for b in dm.train_dataloader()]
        ensure([v.shape[0] for v in tr] == [min(c["tb"], c["nt"] - i) for i in range(0, c["nt"], c["tb"])], "training batch sizes")
        tr = torch.cat(tr)
        ensure(tuple(tr.shape) == (c["nt"], n, 3, *size), f"training shape {tuple(tr.shape)}")
        if c["which"] == "dvc":
            key = lambda t: tuple(t.flatten().tolist())
            ensure(sorted(map(key, tr)) == sorted(key(center(x[:n], *size)) for x in clips["train"]), "an epoch is not every training clip once")
        else:
            ensure(float(tr.min()) >= 0 and float(tr.max()) <= 1 + 1e-6, "training range")
        return Info(c["nv"] > c["vb"] or c["nt"] > 1, c["which"])


@st.composite
def aug_cases(draw):
    return dict(h=draw(ints(3, 9)), w=draw(ints(3, 9)), size=draw(pick(3, [2, 4], 6)), seed=draw(ints(0, 10**6)), rng=draw(ints(0, 10**6)))


@PROP.sub("one_augmentation_per_clip", aug_cases, quick=100, thorough=2000)
def one_augmentation_per_clip(c):
    """Every frame of a training clip is cropped and flipped alike: identical frames stay identical."""
    import torch

    vct.ensure_path()
    stubs.project("torch_vct")
    from datamodules.vimeo import VimeoDataModule

    with scratch() as d:
        for k in range(1, 8):
            write_image(d / "sequences" / "00001" / "0001" / f"im{k}.png", c["h"], c["w"], c["seed"])
        for s in ("train", "test"):
            (d / f"sep_{s}list.txt").write_text("00001/0001\n")
        dm = VimeoDataModule(str(d), train_batch_size=1, val_batch_size=1, video_crop_size=c["size"], num_workers=0)
        dm.setup()
        torch.manual_seed(c["rng"])
        import random

        random.seed(c["rng"])
        for b in dm.train_dataloader():
            v = b.video_tensor[0]
            for t in range(1, 7):
                equal(v[t], v[0], f"frame {t} got another augmentation than frame 0")
    return Info(True)


@PROP.sub("shuffled_epochs", lambda: fixed(which=pick("illm", "dvc", "vct"), n=ints(6, 9), size=pick(4, 6, 8, 9), bs=ints(1, 3), seed=ints(0, 10**6), rng=ints(0, 10**6)), quick=60, thorough=600,
          rule="training data comes in a fresh random order every epoch, each item once")
def shuffled_epochs(c):
    import random

    import numpy as np
    import torch

    n = c["n"]
    with scratch() as d:
        shade = lambda i: 20 + 25 * i  # every item is one grey value: recognisable after any crop, flip or resize
        if c["which"] == "illm":
            stubs.project("illm")
            from open_images_datamodule import OpenImagesDataModule

            for folder, k in (("train", n), ("validation", 1)):
                for i in range(k):
                    write_image(d / folder / f"{i:016x}.jpg", 6, 6, 0, fmt="JPEG", fill=shade(i))
                (d / f"list-{folder}-files.txt").write_text("".join(f"{i:016x}.jpg\n" for i in range(k)))
            dm = OpenImagesDataModule(open_images_root=str(d), batch_size=c["bs"], workers=0, image_size=c["size"], pin_memory=False)
            dm.prepare_data()
        else:
            for split, k in (("train", n), ("test", 1)):
                names = [f"{i + 1:05d}/0001" for i in range(k)]
                for i, s in enumerate(names):
                    for f in range(1, 8):
                        write_image(d / "sequences" / s / f"im{f}.png", 6, 6, 0, fill=shade(i))
                (d / f"sep_{split}list.txt").write_text("\n".join(names) + "\n")
            if c["which"] == "dvc":
                stubs.project("deep_video_compression")
                import data_module

                dm = data_module.Vimeo90kSeptupletLightning(str(d), frames_per_group=2, train_batch_size=c["bs"], val_batch_size=1, image_size=4)
            else:
                vct.ensure_path()
                stubs.project("torch_vct")
                from datamodules.vimeo import VimeoDataModule

                dm = VimeoDataModule(str(d), train_batch_size=c["bs"], val_batch_size=1, video_crop_size=c["size"], num_workers=0)
        dm.setup()
        torch.manual_seed(c["rng"])
        random.seed(c["rng"])
        np.random.seed(c["rng"])
        orders = []
        loader = dm.train_dataloader()
        for _ in range(4):
            flat = [x for b in loader for x in (b.video_tensor if c["which"] == "vct" else b)]
            for x in flat:  # images smaller than the crop are continued, not framed
                ensure(float(x.max() - x.min()) < 0.03, "a training crop of a plain image is not plain")
            orders.append([round((float(x.float().mean()) * 255 - 20) / 25) for x in flat])
        for o in orders:
            ensure(sorted(o) == list(range(n)), lambda: f"an epoch holds the items {sorted(o)} of {n}")
        ensure(len({tuple(o) for o in orders}) > 1, lambda: f"four epochs in the same order {orders[0]}")  # by chance: under 1e-8
        return Info(True, c["which"])


# -------------------------------------------------------------- UVG
@st.composite
def uvg_cases(draw):
    nf = draw(pick(1, 2, 3, 4, 5, 7, 11, 300))
    return dict(nf=nf, vids=[draw(ints(1, 3)) for _ in range(draw(ints(1, 3)))], ragged=draw(pick(0, 0, 0, 1)), norm=draw(st.booleans()), h=draw(ints(1, 3)), w=draw(ints(1, 3)), seed=draw(ints(0, 10**6)))


@PROP.sub("uvg", uvg_cases, quick=80, thorough=1200)
def uvg(c):
    import torch

    vct.ensure_path()
    stubs.project("torch_vct")
    from datamodules.uvg import UVGDataModule
    from datamodules.video_data_api import VideoDataset

    with scratch() as d:
        kw = dict(num_frames=None if c["nf"] == 300 else c["nf"], normalize=c["norm"], num_workers=0, pin_memory=False)
        if 300 % c["nf"]:
            raises(AssertionError, lambda: UVGDataModule(str(d), **kw), "a frame count that does not divide 300")
            return Info(True, "refused")
        per = c["nf"] if c["nf"] < 300 else 300
        if per == 300:
            c = dict(c, vids=[1], h=1, w=1)
        frames, sizes = [], []
        for v, k in enumerate(c["vids"]):
            n = per * k + (c["ragged"] if v == 0 else 0)
            sizes.append(n)
            for i in range(n):
                frames.append(to_t(write_image(d / f"video{v}" / f"f{i:04d}.png", c["h"], c["w"], c["seed"] + 997 * v + i)))
        dm = UVGDataModule(str(d), **kw)
        mixed = c["ragged"] and len(c["vids"]) > 1 and per > 1
        got = []

        def run():
            for b in dm.test_dataloader():
                ensure(isinstance(b, VideoDataset), "a sample is not a VideoDataset")
                b.validate_shape()
                got.append(b.video_tensor)

        if mixed:
            raises(AssertionError, run, "a sample that mixes two videos")
            return Info(True, "mixed")
        run()
        ensure(all(g.shape[0] == 1 for g in got), "batch size")
        ensure([g.shape[1] for g in got[:-1]] == [per] * (len(got) - 1), "frames per sample")
        want = torch.stack(frames)
        if c["norm"]:
            want = (want - 0.45) / 0.225
        close(torch.cat([g[0] for g in got]), want, 1e-5, 1e-5, "frames in order")
        return Info(len(got) > 1, "normalised" if c["norm"] else "raw")


# -------------------------------------------------------------- Kinetics
@st.composite
def kin_cases(draw):
    return dict(n=draw(ints(1, 4)), T=draw(ints(1, 9)), h=draw(ints(4, 9)), w=draw(ints(4, 9)), sub=draw(pick(None, 1, 2, 4, [2, 2], [3, 1])), norm=draw(st.booleans()), bs=draw(ints(1, 3)), seed=draw(seeds),
                crop=draw(ints(2, 4)), sampler=draw(pick("uniform", "random")), dur=draw(ints(1, 3)))


@PROP.sub("kinetics", kin_cases, quick=120, thorough=2500)
def kinetics(c):
    import torch
    import pytorchvideo.data

    vct.ensure_path()
    stubs.project("torch_vct")
    from datamodules import kinetics as K
    from datamodules.video_data_api import VideoDataset

    clips = {s: [(rnd((3, c["T"], c["h"], c["w"]), c["seed"] + 10 * j + i, "uniform") * 255).round() for i in range(c["n"])] for j, s in enumerate(("train", "val", "test"))}
    opened = []

    class Kinetics(torch.utils.data.Dataset):
        def __init__(self, data_path, clip_sampler, decode_audio=True, transform=None, **kw):
            self.split = str(data_path).rstrip("/").rsplit("/", 1)[-1]
            self.transform = transform
            opened.append((str(data_path), type(clip_sampler).__name__, decode_audio))

        def __len__(self):
            return c["n"]

        def __getitem__(self, i):
            return self.transform({"video": clips[self.split][i].clone(), "audio": None, "label": i, "video_name": f"v{i}", "video_index": i, "clip_index": 0, "aug_index": 0})

    with patched((pytorchvideo.data, "Kinetics", Kinetics)):
        dm = K.KineticsDataModule("/data/k", train_batch_size=c["bs"], val_batch_size=c["bs"], clip_duration=c["dur"], video_num_subsampled=c["sub"], normalize=c["norm"],
                                  train_clip_sampler=c["sampler"], num_workers=0, pin_memory=False)
        dm.video_crop_size = c["crop"]
        dm.setup()
        loaders = {"train": dm.train_dataloader(), "val": dm.val_dataloader(), "test": dm.test_dataloader()}
        out = {k: list(v) for k, v in loaders.items() if not (k == "train" and c["sub"] == [3, 1])}
    paths = {"/data/k/train": c["sampler"], "/data/k/val": "uniform", "/data/k/test": c["sampler"]}
    for p, s, audio in opened:
        ensure(p in paths, f"unexpected data path {p}")
        ensure(s.lower().startswith(paths[p]), f"{p} is sampled by {s}, expected {paths[p]}")
        ensure(not audio, "audio is decoded")
    ensure({o[0] for o in opened} == set(paths), "splits that are opened")

    def expected(x, mode):
        if c["sub"] is not None:
            k = c["sub"] if isinstance(c["sub"], int) else max(c["sub"])
            idx = torch.clamp(torch.linspace(0, c["T"] - 1, k), 0, c["T"] - 1).long()
            x = x[:, idx]
        x = x / 255
        if c["norm"]:
            x = (x - 0.45) / 0.225
        if mode == "val":
            x = center(x, c["crop"], c["crop"])
        return x.permute(1, 0, 2, 3)

    for mode, bs in (("val", c["bs"]), ("test", 1)):
        for b in out[mode]:
            ensure(isinstance(b, VideoDataset), "a batch is not a VideoDataset")
            b.validate_shape()
        ensure([b.video_tensor.shape[0] for b in out[mode]] == [min(bs, c["n"] - i) for i in range(0, c["n"], bs)], f"{mode} batch sizes")
        close(torch.cat([b.video_tensor for b in out[mode]]), torch.stack([expected(x, mode) for x in clips[mode]]), 1e-5, 1e-5, f"{mode} clips")
    if "train" in out:
        tr = torch.cat([b.video_tensor for b in out["train"]])
        T = c["T"] if c["sub"] is None else (c["sub"] if isinstance(c["sub"], int) else c["sub"][0])
        ensure(tuple(tr.shape) == (c["n"], T, 3, c["crop"], c["crop"]), f"training shape {tuple(tr.shape)}")
    return Info(c["n"] > 1, f"sub{c['sub']}", "normalised" if c["norm"] else "raw")


# -------------------------------------------------------------- containers
@st.composite
def box_cases(draw):
    return dict(shape=draw(st.lists(ints(1, 4), min_size=3, max_size=6)), dtype=draw(pick("float32", "float32", "float64", "float16")), three=draw(st.booleans()), seed=draw(seeds))


@PROP.sub("containers", box_cases, quick=300, thorough=5000)
def containers(c):
    import torch

    vct.ensure_path()
    stubs.project("torch_vct")
    from datamodules import video_data_api as A

    shape = list(c["shape"])
    if c["three"] and len(shape) > 2:
        shape[2] = 3
    x = rnd(shape, c["seed"], dtype=getattr(torch, c["dtype"]))
    for cls in (A.VideoDataset, A.VimeoDataset, A.KineticsDataset):
        v = cls(video_tensor=x)
        equal(v.video_tensor, x, "video")
        ensure(tuple(v.shape) == tuple(shape), "shape")
        if len(shape) == 5 and shape[2] == 3:
            v.validate_shape()
            ensure((v.batch_size, v.num_frames, tuple(v.spatial_shape)) == (shape[0], shape[1], tuple(shape[-2:])), "sizes of a clip")
        else:
            raises(ValueError, v.validate_shape, f"video of shape {shape}")
    s = A.Scenes(x)
    if len(shape) == 5 and c["dtype"] == "float32":
        s.validate_shapes()
        ensure((s.batch_size, s.num_scenes, tuple(s.spatial_shape), tuple(s.shape)) == (shape[0], shape[1], tuple(shape[-2:]), tuple(shape)), "sizes of scenes")
        it = list(s.get_scenes_iter())
        ensure(len(it) == shape[1], "number of scenes")
        for t, sc in enumerate(it):
            equal(sc, x[:, t], f"scene {t}")
        return Info(True, "valid")
    raises(ValueError, s.get_scenes_iter, f"scenes of shape {shape}, {c['dtype']}")
    raises(ValueError, s.validate_shapes, f"scenes of shape {shape}, {c['dtype']}")
    return Info(True, "invalid")
