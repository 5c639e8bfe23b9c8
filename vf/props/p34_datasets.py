"""P34: datasets return exactly the files of their documented layout, in order, through the transform."""
import contextlib
import hashlib
import io
import zipfile

import hypothesis.strategies as st

from ..core import Info, Prop, Reject, Unsupported, ensure, raises
from ..gen import big, fixed, ints, pick, seeds, weighted
from ..scratch import network, scratch, write_image

PROP = Prop(
    "P34",
    "cases = directory trees of tiny images (names, colour modes, distractor files, list files), splits, modes, "
    "transforms, clip samplers and downloads served by a local stand-in; oracle = the files as written; "
    "non-trivial = at least two items, or a refused configuration",
    assumptions=["Network responses are served by a stand-in for urllib.request.urlopen; checksums of the downloaded archives are taken as correct."],
)

mode = pick("RGB", "RGB", "L", "RGBA", "P")
stem = st.text(alphabet="abAB019_-", min_size=1, max_size=4)
item = fixed(name=stem, mode=mode, h=ints(1, 3), w=ints(1, 3), seed=seeds)
items = weighted((9, st.lists(item, max_size=6, unique_by=lambda i: i["name"])), (1, st.lists(item, min_size=11, max_size=14, unique_by=lambda i: i["name"])))
tf = pick(None, "array", "array", "wrap")


class Transform:
    """Records what it is applied to."""

    def __init__(self, kind):
        self.kind = kind
        self.calls = 0

    def __call__(self, img):
        import torch
        from PIL import Image
        import numpy as np

        ensure(isinstance(img, Image.Image) and img.mode == "RGB", lambda: f"the transform got {type(img)} {getattr(img, 'mode', None)}, not an RGB PIL image")
        self.calls += 1
        a = torch.from_numpy(np.asarray(img).copy())
        return a if self.kind == "array" else ("wrapped", a)


def make_tf(kind):
    return None if kind is None else Transform(kind)


def check_item(got, want, t, what):
    import numpy as np
    from PIL import Image

    if t is None:
        ensure(isinstance(got, Image.Image), lambda: f"{what}: {type(got)} instead of a PIL image")
        arr = np.asarray(got)
    elif t.kind == "array":
        arr = got.numpy()
    else:
        ensure(isinstance(got, tuple) and got[0] == "wrapped", lambda: f"{what}: transform not applied (got {type(got)})")
        arr = got[1].numpy()
    ensure(arr.shape == want.shape and (arr == want).all(), lambda: f"{what}: returned pixels are not those of the expected file")


def check_sequence(ds, want, t, what):
    """ds is a map-style dataset that must contain exactly ``want`` in this order."""
    ensure(len(ds) == len(want), lambda: f"{what}: length {len(ds)}, expected {len(want)}")
    for i, w in enumerate(want):
        before = t.calls if t else 0
        check_item(ds[i], w, t, f"{what}[{i}]")
        ensure(t is None or t.calls == before + 1, f"{what}: transform not applied exactly once")
        check_item(ds[i - len(want)], w, t, f"{what}[{i - len(want)}]")
    raises(IndexError, lambda: ds[len(want)], f"{what}: index past the end")
    for i, got in enumerate(ds):  # the sequence protocol must stop at the end
        check_item(got, want[i], t, f"{what} iteration {i}")


def write_all(folder, its, ext=".png", fmt="PNG"):
    folder.mkdir(parents=True, exist_ok=True)
    return {i["name"]: write_image(folder / (i["name"] + ext), i["h"], i["w"], i["seed"], i["mode"], fmt) for i in its}


def distract(folder, which):
    folder.mkdir(parents=True, exist_ok=True)
    if which & 1:
        (folder / "a.txt").write_text("x")
    if which & 2:
        write_image(folder / "zz.jpg", 2, 2, 3, fmt="JPEG")
    if which & 4:
        write_image(folder / "sub" / "inner.png", 2, 2, 3)


# ----------------------------------------------------------------- flat image folders


def strat_folder():
    return fixed(
        which=pick("clic", "clic", "div2k"), splits=st.lists(items, min_size=3, max_size=3), split=pick("train", "val", "test", "val", "bogus", "Train", ""),
        distract=ints(0, 7), tf=tf, as_str=st.booleans(), default=st.booleans(),
    )


@PROP.sub("folders", strat_folder, quick=240, thorough=4000)
def folders(case):
    from neuralcompression.data import CLIC2020Image, DIV2KDataset

    with scratch() as d:
        t = make_tf(case["tf"])
        want = {}
        if case["which"] == "clic":
            names = {"train": "train", "val": "val", "test": "test"}
            base, cls, dflt = d / "clic2020", CLIC2020Image, "train"
        else:
            names = {"val": "DIV2K_valid_HR"}
            base, cls, dflt = d, DIV2KDataset, "val"
            write_all(d / "DIV2K_train_HR", case["splits"][2])
        for k, s in zip(names, case["splits"]):
            got = write_all(base / names[k], s)
            want[k] = [got[x[:-4]] for x in sorted(n + ".png" for n in got)]
            distract(base / names[k], case["distract"])
        root = str(d) if case["as_str"] else d
        split = case["split"]
        kw = {} if t is None else {"transform": t}
        if split not in names:
            raises(ValueError, lambda: cls(root, split=split, **kw), f"split {split!r}")
            return Info(True, "refused")
        if case["default"]:
            split = dflt
            ds = cls(root, **kw)
        else:
            ds = cls(root, split=split, **kw)
        check_sequence(ds, want[split], t, f"{cls.__name__}({split})")
        return Info(len(want[split]) > 1, case["which"], split)


# ----------------------------------------------------------------- CLIC image download

CLIC = {
    "train": "https://data.vision.ee.ethz.ch/cvl/clic/professional_train_2020.zip",
    "val": "https://data.vision.ee.ethz.ch/cvl/clic/professional_valid_2020.zip",
    "test": "https://storage.googleapis.com/clic2021_public/professional_test_2021.zip",
}
INNER = {"train": "train/", "val": "valid/", "test": ""}


def pack(d, its, prefix, mac):
    buf = io.BytesIO()
    want = {}
    with zipfile.ZipFile(buf, "w") as z:
        for i in its:
            p = d / "pack.png"
            want[i["name"]] = write_image(p, i["h"], i["w"], i["seed"], i["mode"])
            z.writestr(prefix + i["name"] + ".png", p.read_bytes())
            p.unlink()
        if mac:
            z.writestr(f"__MACOSX/{prefix}._x.png", b"resource fork")
    return buf.getvalue(), [want[k[:-4]] for k in sorted(n + ".png" for n in want)]


@contextlib.contextmanager
def trusting_checksums():
    import os

    import torchvision.datasets.utils as u

    real = u.check_integrity
    u.check_integrity = lambda fpath, md5=None: os.path.isfile(fpath)
    try:
        yield
    finally:
        u.check_integrity = real


def strat_clic_download():
    its = st.lists(item, min_size=1, max_size=4, unique_by=lambda i: i["name"])
    return fixed(packs=st.lists(its, min_size=3, max_size=3), order=st.lists(pick("train", "val", "test"), min_size=1, max_size=4), tf=tf)


@PROP.sub("clic_download", strat_clic_download, quick=60, thorough=900)
def clic_download(case):
    from neuralcompression.data import CLIC2020Image

    with scratch() as d, trusting_checksums():
        pages, want = {}, {}
        for s, its in zip(CLIC, case["packs"]):
            pages[CLIC[s]], want[s] = pack(d, its, INNER[s], True)
        seen = set()
        with network(pages) as asked:
            for s in case["order"]:
                t = make_tf(case["tf"])
                n = len(asked)
                ds = CLIC2020Image(d / "data", split=s, download=True, transform=t)
                check_sequence(ds, want[s], t, f"downloaded {s}")
                ensure(s not in seen or len(asked) == n, lambda: f"{s} was downloaded again: {asked[n:]}")
                ensure(set(asked[n:]) <= {CLIC[s]}, lambda: f"{s} fetched {asked[n:]}")
                seen.add(s)
        for s in seen:  # the layout the class documents for download=False
            t = make_tf(case["tf"])
            check_sequence(CLIC2020Image(d / "data", split=s, transform=t), want[s], t, f"{s} after download")
        left = {p.name for p in (d / "data" / "clic2020").iterdir() if p.is_dir()}
        ensure(left == seen, lambda: f"directories after download: {left}")
        return Info(len(case["order"]) > len(seen), "repeat" if len(case["order"]) > len(seen) else "once")


# ----------------------------------------------------------------- Kodak

KODAK_SHA = "076e2a5fd4515b5fda677f15fe63dd112d266bc5"


class FakeSha:
    """sha1 that maps one given content to the published digest."""

    used = 0
    target = None

    def __init__(self, data=b"", **kw):
        FakeSha.used += 1
        self.data = bytes(data)

    def update(self, b):
        self.data += bytes(b)

    def hexdigest(self):
        return KODAK_SHA if self.data == FakeSha.target else _real_sha(self.data).hexdigest()

    def digest(self):
        return bytes.fromhex(self.hexdigest())


_real_sha = hashlib.sha1


@contextlib.contextmanager
def known_content(content):
    FakeSha.used, FakeSha.target = 0, content
    hashlib.sha1 = FakeSha
    try:
        yield
    finally:
        hashlib.sha1 = _real_sha


def strat_kodak():
    return fixed(
        seed=seeds, mode=mode, h=ints(1, 2), w=ints(1, 2), tf=tf, download=st.booleans(), force=st.booleans(), exists=pick(False, True, True, "empty"), check=st.booleans(), large=pick(*[False] * 7, True),
        corrupt=pick(None, None, "byte", "swap", "append"), at=ints(0, 23), url=pick(None, "http://host/x/"), extra=st.booleans(),
    )


@PROP.sub("kodak", strat_kodak, quick=160, thorough=2500)
def kodak(case):
    from neuralcompression.data import Kodak

    with scratch() as d:
        src = d / "src"
        want, raw = [], []
        for i in range(24):
            p = src / f"{i}.png"
            big_one = case["large"] and i == case["at"]  # a file of more than 100 kB
            want.append(write_image(p, 211 if big_one else case["h"], 230 if big_one else case["w"], case["seed"] + i, case["mode"]))
            raw.append(p.read_bytes())
        good = b"".join(raw)
        k = case["at"]
        served = list(raw)
        if case["corrupt"] == "byte":
            served[k] = served[k][:-9] + bytes([served[k][-9] ^ 1]) + served[k][-8:]
        elif case["corrupt"] == "swap":
            j = (k + 1) % 24
            served[k], served[j] = served[j], served[k]
            if b"".join(served) == good:
                raise Reject
        elif case["corrupt"] == "append":
            served[k] += b"\0"
        root = d / "kodak"
        base = case["url"] or "http://r0k.us/graphics/kodak/kodak/"
        if case["exists"]:
            root.mkdir()
            if case["exists"] == "empty" and not case["download"]:
                raise Reject
            stale = served if not case["download"] else [b"stale"] * 24
            for i, b in enumerate(stale if case["exists"] != "empty" else []):
                (root / f"kodim{i + 1:02d}.png").write_bytes(b)
            if case["extra"]:
                (root / "notes.txt").write_text("x")
        t = make_tf(case["tf"])
        kw = {k: v for k, v in dict(download=case["download"], force_download=case["force"]).items() if v}  # neither by default
        kw.update(check_hash=case["check"], transform=t)
        if case["url"]:
            kw["kodak_url"] = case["url"]
        pages = {f"{base}kodim{i + 1:02d}.png": b for i, b in enumerate(served)}
        with network(pages) as asked, known_content(good):
            make = lambda: Kodak(root if case["at"] % 2 else str(root), **kw)
            if case["download"] and case["exists"] and not case["force"]:
                raises(RuntimeError, make, "download over an existing directory")
                ensure(not asked and (case["exists"] == "empty" or (root / "kodim01.png").read_bytes() == b"stale"), "the existing data was touched")
                return Info(True, "refused-exists")
            if not case["download"] and not case["exists"]:
                raises(FileNotFoundError, make, "missing root")
                return Info(True, "refused-missing")
            if case["check"] and case["corrupt"]:
                raises(RuntimeError, make, f"corrupt data ({case['corrupt']})")
                return Info(True, "refused-corrupt")
            try:
                ds = make()
            except RuntimeError:
                if case["check"] and not FakeSha.used:
                    raise Unsupported("the checksum does not go through hashlib.sha1")
                raise
        if case["corrupt"]:
            return Info(False, "unchecked-corrupt")
        ensure(len(asked) == (24 if case["download"] else 0), lambda: f"{len(asked)} requests")
        check_sequence(ds, want, t, "Kodak")
        return Info(True, "download" if case["download"] else "local")


# ----------------------------------------------------------------- Open Images

INVALID = """0a866d6fd1ea9317 0df79dea97961a10 0efa17ee62d7caf9 14098132e2032aaf 193edd6c8ef39251 1b564e7e54361fc2 24b77bff6bfd736c 39a876a07f18f837
3e260ed1bfd6509e 42a6df3ac3bf2d33 4ce068dcc2ae3cc9 4ddbede0f1bdc602 50eb15613b100675 5ef177f1391765d3 61efc69916e8fa1e 62a1bbca8a844225 62be906e5077bffa
646605f070b9883f 67b1dfe383f92dcf 6b1efb7bf49e27be 73497cedb79d23a4 73f886b2ab2f5bd9 79bcae5f044a69fb 80d19062a39df158 83c0499d3e8fdb06 8604fd077594d226
88161ed23f3379b4 895ef7a64e2858c1 91d66b5ddcb4f5a3 93fd5f0899065d78 965b4dccff47fa5d add170ca187afcd7 b6474a1a69bbbe49 b840cb6cca32d756 bcd2dfa3750ea055
bebf5b2470a3955c c18b0a385e0d8257 c5ad20115f79cc66 d1fdbbb705bb6016 d66352405f0385e3 da1267b1196c8e79 ea15e23587edc562 eb8fab01d113dc3b ec1a5e86a7d570c8
ec40941f60fbc594 ecd25d7e90027c89 fb6574ec2e4e4bb8 33bbb7e2c767c773 9f860289e93d11fc c977b4fd166e908b c2ffdc701a70e9a1 0248001275c71dc8 0364f5c6f964e1bc
0b76aafb249fc5b7 0c616f7947875acc 16f199c310a1b7ac 235f7b87aa67461e 23e5990f0ed037a7 24d76ef27ba41f38 2e58f4a0d31e9be1 2e7f9bc07e7bd4d8 2ff06b2f1ba0cc51
31968a4b02d9981b 36a83a554ef21da2 39af00cf7013519c 3dfceab39d674168 439e232d7531027e 48212be4d45c5c1a 59847832eb83aaa1 5cbd57fd38a45852 61db1e0c8174b3c3
659c55b26b92c5ab 6a5bdb01a0f99891 6bba1f25a1ee68e8 723a41acf8804460 752cf54040dc80d7 7996ed8f1f35ce83 8075443714f28729 8b1f16626a5bbc82 8d7efba30eeca417
97e9a3774468eb35 a7adff7aede82670 adcd441c940a8832 ae811292e322abe1 b146377ed3af77ec b8543f9c563bad6a b9511a25bf6aa6d9 b9e6642fc707d78f bf8844bdf5fcded4
c100f8bda2d56a6d c57eb29e74376b15 cbcdc984e6f0d41d cf81b04e3baf23d8 d45776312fb97ff6 d5af6277007b6001 daa2fa027bd35189 de2ea1f167b03dab dfc42b77003e55d3
e752e43deb95c51c f0508277b718aa55""".split()

hexname = st.one_of(st.integers(0, 2**64 - 1).map(lambda n: f"{n:016x}"), st.sampled_from(INVALID))
oi = fixed(name=hexname, h=ints(1, 3), w=ints(1, 3), seed=seeds, mode=pick("RGB", "RGB", "L"))


def strat_open():
    return fixed(
        its=st.lists(oi, max_size=7, unique_by=lambda i: i["name"]), split=pick("train", "train", "val", "test", "validation", ""), ext=pick(".jpg", ".jpg", "", ".png"),
        eol=pick("\n", "\n", "\r\n"), last=st.booleans(), custom=st.booleans(), tf=tf, unlisted=st.booleans(), others=st.booleans(),
    )


@PROP.sub("open_images", strat_open, quick=240, thorough=4000)
def open_images(case):
    from neuralcompression.data import OpenImagesV6

    with scratch() as d:
        folder = {"train": "train", "val": "validation", "test": "test"}.get(case["split"])
        t = make_tf(case["tf"])
        if folder is None:
            raises(ValueError, lambda: OpenImagesV6(d, case["split"], transform=t), "unknown split")
            return Info(True, "refused")
        files = write_all(d / folder, case["its"], ".jpg", "JPEG")
        if case["unlisted"]:
            write_image(d / folder / "ffffffffffffffffff.jpg", 2, 2, 1, fmt="JPEG")
        if case["ext"]:  # only the last suffix is an extension
            for i in case["its"][:1]:
                if case["last"]:
                    (d / folder / (i["name"] + ".jpg")).rename(d / folder / (i["name"] + ".a.jpg"))
                    files[i["name"] + ".a"] = files.pop(i["name"])
                    i["name"] += ".a"
        text = "".join(i["name"] + case["ext"] + case["eol"] for i in case["its"])
        if not case["last"] and text:
            text = text[: -len(case["eol"])]
        if case["custom"]:
            (d / "lists").mkdir()
        lst = d / (("lists/mine.txt" if case["others"] else "mine.txt") if case["custom"] else f"list-{folder}-files.txt")
        lst.write_bytes(text.encode())
        if case["others"] and case["custom"]:
            (d / f"list-{folder}-files.txt").write_text("ffffffffffffffffff.jpg\n")
        ds = OpenImagesV6(d, case["split"], transform=t, **({"image_list_file": lst} if case["custom"] else {}))
        names = sorted(files)
        if case["split"] == "train":
            names = [n for n in names if n not in INVALID]
        check_sequence(ds, [files[n] for n in names], t, f"OpenImagesV6({case['split']})")
        return Info(len(names) > 1, case["split"], "dropped" if len(names) < len(files) else "kept")


# ----------------------------------------------------------------- Vimeo-90k septuplets


def strat_vimeo():
    return fixed(
        folders=st.lists(fixed(a=big(1, 3, 10, 96), b=big(1, 4, 11, 999), seed=seeds), min_size=1, max_size=4, unique_by=lambda f: (f["a"], f["b"])), video=st.booleans(),
        fpg=pick(1, 2, 3, 4, 5, 6, 7, 7, None, 0, 8, -1), source=pick("train", "test", "list", "list", "both", "none", "val"), mode=mode, h=ints(1, 3), w=ints(1, 3),
        pil=pick(None, None, "tensor", "flip", "nontensor"), tens=st.booleans(), eol=pick("\n", "\r\n", " \n"), last=st.booleans(),
    )


@PROP.sub("vimeo", strat_vimeo, quick=240, thorough=4000)
def vimeo(case):
    import numpy as np
    import torch
    from PIL import Image

    from neuralcompression.data import Vimeo90kSeptuplet

    with scratch() as d:
        names = [f"{f['a']:05d}/{f['b']:04d}" for f in case["folders"]]
        frames = []
        for f, n in zip(case["folders"], names):
            frames.append([write_image(d / "sequences" / n / f"im{k}.png", case["h"], case["w"], f["seed"] + k, case["mode"]) for k in range(1, 8)])
        text = case["eol"].join(names) + (case["eol"] if case["last"] else "")
        src = case["source"]
        kw = dict(as_video=True) if case["video"] else {}  # images by default
        if case["fpg"] is not None:
            kw["frames_per_group"] = case["fpg"]
        if src in ("train", "test", "val"):
            kw["split"] = src
            (d / f"sep_{src}list.txt").write_bytes(text.encode())
            other = {"train": "test", "test": "train", "val": "test"}[src]
            (d / f"sep_{other}list.txt").write_text("00099/0001\n")
        if src in ("list", "both"):
            kw["folder_list"] = ["sequences/" + n for n in names]
            (d / "sep_trainlist.txt").write_text("00099/0001\n")
        if src == "both":
            kw["split"] = "train"
        to_t = lambda im: torch.from_numpy(np.asarray(im).copy()).permute(2, 0, 1).float() / 255
        flip = lambda im: torch.from_numpy(np.asarray(im).copy()).permute(2, 0, 1).flip(0).float() + 1
        if case["pil"]:
            kw["pil_transform"] = {"tensor": to_t, "flip": flip, "nontensor": lambda im: np.asarray(im)}[case["pil"]]
        use_tensor = case["tens"] and (case["video"] or case["pil"] in ("tensor", "flip"))
        if use_tensor:
            kw["tensor_transform"] = lambda x: (x * 2, tuple(x.shape))
        make = lambda: Vimeo90kSeptuplet(d if case["last"] else str(d), **kw)
        if case["fpg"] in (0, 8, -1):
            raises(ValueError, make, f"frames_per_group {case['fpg']}")
            return Info(True, "refused-count")
        if src in ("both", "none", "val"):
            raises(ValueError, make, f"source {src}")
            return Info(True, "refused-source")
        ds = make()
        n = case["fpg"] or 7
        total = len(names) * (1 if case["video"] else n)
        ensure(len(ds) == total, lambda: f"length {len(ds)}, expected {total}")
        if case["pil"] == "nontensor":
            raises(RuntimeError, lambda: ds[0], "pil_transform without tensors")
            return Info(True, "refused-nontensor")
        fn = {"tensor": to_t, "flip": flip}.get(case["pil"], to_t if case["video"] else None)
        idx = range(-total, total)
        for i in idx:
            got = ds[i]
            j = i % total
            if case["video"]:
                exp = torch.stack([fn(Image.fromarray(a)) for a in frames[j][:n]])
            else:
                a = frames[j // n][j % n]
                exp = fn(Image.fromarray(a)) if fn else a
            if use_tensor:
                ensure(isinstance(got, tuple) and got[1] == tuple(exp.shape), "tensor_transform not applied to the finished item")
                got, exp = got[0], exp * 2
            if fn is None:
                ensure(isinstance(got, Image.Image), lambda: f"image mode without transform returned {type(got)}")
                got, exp = torch.from_numpy(np.asarray(got).copy()), torch.from_numpy(exp)
            ensure(got.shape == exp.shape and torch.allclose(got.float(), exp.float(), atol=1e-6), lambda: f"item {i} (video={case['video']}, {n} frames per group) is not the expected frame(s)")
        raises(IndexError, lambda: ds[total], "index past the end")
        return Info(total > 1, "video" if case["video"] else "image", src)


# ----------------------------------------------------------------- CLIC video


def strat_clic_video():
    vid = fixed(name=st.text(alphabet="abAB09_-", min_size=1, max_size=5), frames=ints(1, 9), seed=seeds)
    return fixed(
        videos=st.lists(vid, min_size=1, max_size=4, unique_by=lambda v: v["name"]), sampler=pick("uniform", "uniform", "strided", "backpad", "constant", "augs", "random"), clip=ints(1, 5), stride=ints(1, 5),
        k=ints(1, 3), fpc=pick(None, None, 1, 2, 3, 7), random_order=st.booleans(), passes=ints(1, 3), stop=ints(0, 6), tf=st.booleans(), threads=st.booleans(), split=pick("train", "val", "test", None, "bogus"),
        h=ints(1, 2), w=ints(1, 3),
    )


def sampler(case):
    from fractions import Fraction

    from pytorchvideo.data.clip_sampling import ConstantClipsPerVideoSampler, RandomClipSampler, UniformClipSampler

    c, s = Fraction(case["clip"], 30), Fraction(min(case["stride"], case["clip"]), 30)
    return {
        "uniform": lambda: UniformClipSampler(c),
        "strided": lambda: UniformClipSampler(c, s),
        "backpad": lambda: UniformClipSampler(c, s, True),
        "constant": lambda: ConstantClipsPerVideoSampler(c, case["k"]),
        "augs": lambda: ConstantClipsPerVideoSampler(c, case["k"], 2),
        "random": lambda: RandomClipSampler(c),
    }[case["sampler"]]()


def plan(case, n):
    """The clips of a video of n frames: (clip_index, aug_index, frame indices)."""
    import math

    smp, last, out = sampler(case), 0.0, []
    while True:
        c = smp(last, n / 30.0, {})
        a, b = math.ceil(30.0 * c.clip_start_sec), min(math.ceil(30.0 * min(c.clip_end_sec, n / 30.0)), n)
        idx = list(range(a, b))
        if case["fpc"] and idx:
            m, k = len(idx), case["fpc"]
            idx = [idx[int(round((m - 1) * j / (k - 1), 6)) if k > 1 else 0] for j in range(k)]
        out.append((c.clip_index, c.aug_index, idx))
        if c.is_last_clip:
            return out
        last = c.clip_end_sec
        if len(out) > 200:
            raise Reject


@PROP.sub("clic_video", strat_clic_video, quick=160, thorough=2500)
def clic_video(case):
    import numpy as np
    import torch
    from torch.utils.data import RandomSampler, SequentialSampler

    from neuralcompression.data import CLIC2020Video

    with scratch() as d:
        root = d / "videos"
        data = {}
        for v in case["videos"]:
            data[v["name"]] = [write_image(root / v["name"] / f"x_{k:05d}_y.png", case["h"], case["w"], v["seed"] + k) for k in range(v["frames"])]
            for k in range(v["frames"]):
                write_image(root / v["name"] / f"x_{k:05d}_u.png", 1, 1, 0)
                write_image(root / v["name"] / f"x_{k:05d}_v.png", 1, 1, 0)
        names = sorted(data)
        kw = dict(clip_sampler=sampler(case), multithreaded_io=case["threads"], frames_per_clip=case["fpc"])
        if case["split"]:
            kw["split"] = case["split"]
        if not case["random_order"]:
            kw["video_sampler"] = SequentialSampler
        if case["tf"]:
            kw["transform"] = lambda s: {"wrapped": s}
        if case["split"] == "bogus":
            raises(ValueError, lambda: CLIC2020Video(root, **kw), "unknown split")
            return Info(True, "refused")
        rnd = case["sampler"] == "random"
        clips = {} if rnd else {n: plan(case, len(data[n])) for n in names}
        if not rnd and any(not c[2] for p in clips.values() for c in p):
            raise Reject  # a clip without frames cannot be stacked by the reader
        ds = CLIC2020Video(root, **kw)
        ensure(len(ds) == len(names), lambda: f"length {len(ds)} for {len(names)} videos")

        def one(s):
            if case["tf"]:
                ensure(set(s) == {"wrapped"}, "transform not applied")
                s = s["wrapped"]
            ensure(set(s) == {"aug_index", "clip_index", "label", "video", "video_index", "video_label", "video_name"}, lambda: f"keys {sorted(s)}")
            ensure(s["label"] is None and s["video_label"] is None, "labels")
            n = s["video_name"]
            ensure(n in data and names[int(s["video_index"])] == n, lambda: f"video {n!r} at index {s['video_index']}")
            return s

        def frames_of(s):
            return s["video"].permute(1, 2, 3, 0).numpy()

        def same(s, idx):
            exp = np.stack([data[s["video_name"]][i] for i in idx]).astype(np.float32)
            got = frames_of(s)
            ensure(got.dtype == np.float32 and got.shape == exp.shape and (got == exp).all(), lambda: f"{s['video_name']} clip {s['clip_index']}: frames differ from {idx}")

        if case["stop"]:  # an abandoned pass must not leak into the next one
            it = iter(ds)
            for _, s in zip(range(case["stop"]), it):
                one(s)
        for p in range(case["passes"]):
            got = [one(s) for s in ds]
            order = []
            for s in got:
                if not order or order[-1] != s["video_name"] or (s["clip_index"] == 0 and s["aug_index"] == 0):
                    order.append(s["video_name"])
            ensure(sorted(order) == names, lambda: f"pass {p} visited {order} of {names}")
            ensure(case["random_order"] or order == names, lambda: f"pass {p}: order {order}")
            if rnd:
                for s in got:
                    v = data[s["video_name"]]
                    f = frames_of(s)
                    m = len(f)
                    ensure(case["fpc"] is None or m == case["fpc"], lambda: f"{m} frames for frames_per_clip={case['fpc']}")
                    if case["fpc"] is None:
                        starts = [a for a in range(len(v) - m + 1) if (np.stack(v[a : a + m]) == f).all()]
                        ensure(starts and m <= case["clip"] + 1 and m >= min(case["clip"], len(v)) - 1, lambda: f"{m} frames that are no clip of {s['video_name']}")
                continue
            want = [(n, c) for n in order for c in clips[n]]
            ensure(len(got) == len(want), lambda: f"pass {p}: {len(got)} clips, expected {len(want)} ({[len(clips[n]) for n in order]} per video)")
            for s, (n, (ci, ai, idx)) in zip(got, want):
                ensure(s["video_name"] == n and s["clip_index"] == ci and s["aug_index"] == ai, lambda: f"pass {p}: {s['video_name']} clip {s['clip_index']}/{s['aug_index']}, expected {n} {ci}/{ai}")
                same(s, idx)
        multi = any(len(c) > 1 for c in clips.values())
        return Info(len(names) > 1, case["sampler"], "multi" if multi else "single")


def strat_clic_video_dl():
    vid = fixed(name=st.text(alphabet="abAB09_-", min_size=1, max_size=5), frames=ints(1, 4), seed=seeds)
    return fixed(videos=st.lists(vid, min_size=1, max_size=5, unique_by=lambda v: v["name"]), existing=st.booleans(), eol=pick("\n", "\r\n"), last=st.booleans())


@PROP.sub("clic_video_download", strat_clic_video_dl, quick=40, thorough=500)
def clic_video_download(case):
    import numpy as np
    from torch.utils.data import SequentialSampler

    from neuralcompression.data import CLIC2020Video

    with scratch() as d:
        pages, data, urls = {}, {}, []
        for v in case["videos"]:
            buf = io.BytesIO()
            with zipfile.ZipFile(buf, "w") as z:
                data[v["name"]] = []
                for k in range(v["frames"]):
                    p = d / "f.png"
                    data[v["name"]].append(write_image(p, 1, 2, v["seed"] + k))
                    z.writestr(f"{v['name']}/x_{k:05d}_y.png", p.read_bytes())
            url = f"https://example.invalid/{v['name']}.zip"
            urls.append(url)
            pages[url] = buf.getvalue()
        pages["https://storage.googleapis.com/clic2021_public/txt_files/video_urls.txt"] = (case["eol"].join(urls) + (case["eol"] if case["last"] else "")).encode()
        root = d / "deep" / "videos"
        if case["existing"]:
            root.mkdir(parents=True)
        smp = sampler(dict(clip=40, stride=1, sampler="uniform", k=1))
        with network(pages):
            ds = CLIC2020Video(root, smp, download=True, video_sampler=SequentialSampler)
        got = list(ds)
        ensure([s["video_name"] for s in got] == sorted(data), lambda: f"{[s['video_name'] for s in got]} != {sorted(data)}")
        for s in got:
            exp = np.stack(data[s["video_name"]])
            ensure((s["video"].permute(1, 2, 3, 0).numpy() == exp).all(), "downloaded frames differ")
        return Info(len(data) > 1)
