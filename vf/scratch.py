"""Scratch directories, tiny image files and a local stand-in for the network."""
import contextlib
import io
import os
import shutil
import tempfile
import urllib.error
import urllib.request
from pathlib import Path


@contextlib.contextmanager
def scratch():
    d = tempfile.mkdtemp(prefix="vf_scratch_")
    old = tempfile.tempdir
    tempfile.tempdir = d  # urlretrieve and friends leave their files here
    try:
        yield Path(d)
    finally:
        tempfile.tempdir = old
        shutil.rmtree(d, ignore_errors=True)


def pixels(h, w, seed, mode="RGB"):
    import numpy as np

    c = {"RGB": 3, "L": 1, "RGBA": 4, "P": 1}[mode]
    a = np.random.RandomState(seed % (2**31)).randint(0, 256, (h, w, c)).astype(np.uint8)
    return a[..., 0] if c == 1 else a


def image(h, w, seed, mode="RGB"):
    from PIL import Image

    return Image.fromarray(pixels(h, w, seed, mode), mode=mode if mode != "P" else "L")


def write_image(path, h, w, seed, mode="RGB", fmt="PNG", fill=None):
    """Writes the file; returns the RGB uint8 array a correct reader of the file sees."""
    import numpy as np
    from PIL import Image

    im = image(h, w, seed, mode) if fill is None else Image.new("RGB", (w, h), (fill,) * 3)
    if mode == "P":
        im = im.convert("P")
    path = Path(path)
    path.parent.mkdir(parents=True, exist_ok=True)
    if fmt == "JPEG" and mode in ("RGBA", "P"):
        im = im.convert("RGB")
    im.save(path, format=fmt)
    with Image.open(path) as again:
        return np.asarray(again.convert("RGB")).copy()


class Response(io.BytesIO):
    def __init__(self, data, url):
        super().__init__(data)
        self.url = url
        self.length = len(data)
        self.status = self.code = 200
        self.headers = {"Content-Length": str(len(data)), "content-length": str(len(data))}

    def info(self):
        return self.headers

    def geturl(self):
        return self.url

    def getcode(self):
        return 200

    def getheader(self, k, d=None):
        return self.headers.get(k, d)


@contextlib.contextmanager
def network(pages):
    """urlopen serves ``pages`` (url -> bytes) and 404s otherwise; yields the list of requested URLs."""
    asked = []
    real = urllib.request.urlopen

    def urlopen(req, *a, **k):
        url = req if isinstance(req, str) else req.full_url
        asked.append(url)
        if url not in pages:
            raise urllib.error.HTTPError(url, 404, "not found", {}, None)
        return Response(pages[url], url)

    urllib.request.urlopen = urlopen
    try:
        yield asked
    finally:
        urllib.request.urlopen = real
