"""P01: the image codec's bitstream decodes to exactly what the evaluated model predicts."""
import pickle

import hypothesis.strategies as st

from ..core import IMAGE_KINDS, Info, Prop, Violation, close, ensure, equal, raises, rnd
from ..gen import fixed, fl, ints, pick, seeds
from ..models import hific_cfgs, image, make_hific, mismatch

PROP = Prop(
    "P01",
    "cases = model configuration and weights (gains that spread the latents over many symbols, medians off zero) x image "
    "batch of arbitrary size >= 33 (or a multiple of 64) x content; oracle = evaluated forward pass on an independently padded "
    "image; non-trivial = at least two distinct quantised latent values and a size that needs padding or a batch > 1",
    preload=lambda: __import__("neuralcompression.models"),
    assumptions=[
        "compressai's entropy coder", "a mismatch must persist on jittered copies of the image (rounding ties are not violations)",
    ],
)


@st.composite
def cases(draw):
    c = draw(hific_cfgs())
    side = st.one_of(ints(33, 70), pick(64, 65, 63, 128, 33, 127), ints(33, 140))
    h, w = draw(side), draw(side)
    c.update(b=draw(ints(1, 3)), h=h, w=w, seed=draw(seeds), kind=draw(pick(*IMAGE_KINDS)))
    c.update(gd=draw(pick(1.0, 1.0, 2.5, 5.0)))
    if draw(pick(*[False] * 7, True)):  # a long thin image: its two sides need different numbers of 64-blocks
        h = draw(ints(180, 330))
        c["h"], c["w"] = (h, w % 40 + 33) if draw(st.booleans()) else (w % 40 + 33, h)
    if c["h"] * c["w"] > 9000:
        c["b"] = 1
    return c


def _pad(x, f=64):
    import torch

    h, w = x.shape[-2:]
    H, W = -(-h // f) * f, -(-w // f) * f
    iy = torch.tensor([i if i < h else 2 * (h - 1) - i for i in range(H)])
    ix = torch.tensor([i if i < w else 2 * (w - 1) - i for i in range(W)])
    return x[:, :, iy][:, :, :, ix]


def _nt(c, latent):
    import torch

    return torch.unique((latent / 0.5).round()).numel() >= 2 and (c["b"] > 1 or c["h"] % 64 or c["w"] % 64)


@PROP.sub("roundtrip", cases, quick=140, thorough=2500, shards=8)
def roundtrip(c):
    import torch

    m = make_hific(c)
    x0 = image(c, c["b"], c["cin"], c["h"], c["w"])
    keep = {}

    def fn(x):
        with torch.no_grad():
            src = x.clone()
            comp = m.compress(x)
            equal(x, src, "compress modified the image")
            ensure(tuple(comp.image_size) == (c["h"], c["w"]), f"image_size {comp.image_size}")
            ensure(len(comp.latent_strings) == c["b"] and len(comp.hyper_latent_strings) == c["b"], "one string per image expected")
            y = m.decompress(comp)
            out = m(_pad(x))
        keep.update(comp=comp, y=y, out=out)
        ensure(tuple(y.shape) == tuple(x.shape), f"decoded shape {tuple(y.shape)} for {tuple(x.shape)}")
        ensure(bool((y >= 0).all() and (y <= 1).all()), "decoded values outside [0, 1]")
        return y, out.image[..., : c["h"], : c["w"]].clamp(0, 1)

    bad = mismatch(fn, x0, 2e-4)
    ensure(bad is None, f"decoded image differs from the evaluated model: {bad}")
    return Info(_nt(c, keep["out"].latent), f"b{c['b']}", "padded" if c["h"] % 64 or c["w"] % 64 else "aligned", f"cin{c['cin']}",
                "clipped" if bool((keep["y"] >= 1).any()) else None, "long" if max(c["h"], c["w"]) > 192 else None)


@PROP.sub("portable", cases, quick=60, thorough=1200, shards=6,
          rule="strings survive pickling, decode in a second model loaded from the state dict, and do not depend on batch mates")
def portable(c):
    import torch

    m = make_hific(c)
    x = image(c, c["b"], c["cin"], c["h"], c["w"])
    with torch.no_grad():
        comp = pickle.loads(pickle.dumps(m.compress(x)))
        y = m.decompress(comp)
        y2 = m.decompress(comp)
        close(y2, y, 1e-5, 1e-5, "decoding twice differs")
        other = make_hific(dict(c, wseed=c["wseed"] + 1), update=False)
        other.load_state_dict(m.state_dict())
        other.eval()
        close(other.decompress(comp), y, 0, 2e-4, "a model restored from the state dict decodes differently")
        i = c["seed"] % c["b"]

        def alone(xx):
            cc = m.compress(xx)
            one = cc._replace(latent_strings=[cc.latent_strings[i]], hyper_latent_strings=[cc.hyper_latent_strings[i]])
            return m.decompress(one), m.decompress(cc)[i : i + 1]

        bad = mismatch(alone, x, 2e-4)
        ensure(bad is None, f"an image decoded alone differs from the batch: {bad}")

        def fn(xx):
            a = m.decompress(m.compress(xx[i : i + 1]))
            b = m.decompress(m.compress(xx))[i : i + 1]
            return a, b

        bad = mismatch(fn, x, 2e-4)
        ensure(bad is None, f"an image encoded alone decodes differently from the batch: {bad}")
    return Info(c["b"] > 1 or c["h"] % 64 or c["w"] % 64, f"b{c['b']}")


@PROP.sub("history", lambda: st.builds(lambda c, ops: dict(c, ops=ops), cases(), st.lists(pick("compress", "forward", "devices_compress", "devices_forward", "update", "decode", "train_eval", "perturb", "medians"), min_size=2, max_size=7)),
          quick=60, thorough=1200, shards=6, rule="call histories; every decode is compared with the forward pass of the current weights")
def history(c):
    import torch

    c = dict(c, h=min(c["h"], 70), w=min(c["w"], 70), b=min(c["b"], 2))
    m = make_hific(c)
    x = image(c, c["b"], c["cin"], c["h"], c["w"])

    def agrees(when):
        m.update_tensor_devices("forward")
        m.eval()

        def fn(xx):
            with torch.no_grad():
                return m.decompress(m.compress(xx)), m(_pad(xx)).image[..., : c["h"], : c["w"]].clamp(0, 1)

        bad = mismatch(fn, x, 2e-4)
        ensure(bad is None, f"after {when}: {bad}")

    done = []
    comp = None
    with torch.no_grad():
        for op in c["ops"]:
            done.append(op)
            if op == "compress":
                comp = m.compress(x)
            elif op == "decode":
                if comp is None:
                    comp = m.compress(x)
                y = m.decompress(comp)
                ensure(tuple(y.shape) == tuple(x.shape), "shape")
            elif op == "forward":
                m.update_tensor_devices("forward")
                m(_pad(x))
            elif op == "devices_compress":
                m.update_tensor_devices("compress")
            elif op == "devices_forward":
                m.update_tensor_devices("forward")
            elif op == "update":
                m.update(force=True)
            elif op == "train_eval":
                m.train()
                m.eval()
            elif op == "perturb":
                # weights change (training step), tables refreshed as documented
                for n, p in m.named_parameters():
                    if p.dim() == 4 and n.startswith(("encoder", "hyper")):
                        p.mul_(1.02)
                m.update(force=True)
                comp = None
            elif op == "medians":  # only the learnt medians move: often to the same strings with another meaning
                for n, p in m.named_parameters():
                    if n.endswith("quantiles"):
                        p.add_(0.02 * len(done))
                m.update(force=True)
                comp = None
        agrees(" -> ".join(done))
    return Info(len(set(c["ops"])) > 1)


@PROP.sub("uninitialised", lambda: fixed(seed=seeds, wseed=ints(0, 50)), quick=4, thorough=10,
          rule="compressing before the coding tables exist fails loudly")
def uninitialised(c):
    import torch

    cfg = dict(cin=3, lat=3, hyp=2, res=0, wseed=c["wseed"], ge=2.0, ga=1.0, gs=1.0, sigma=1.0)
    m = make_hific(cfg, update=False)
    x = rnd((1, 3, 64, 64), c["seed"], "uniform")
    with torch.no_grad():
        raises(Exception, lambda: m.compress(x), "compress without coding tables")
        m.update_tensor_devices("compress")  # documented to prepare the model for compression
        y = m.decompress(m.compress(x))
    ensure(tuple(y.shape) == tuple(x.shape), "shape")
    return Info(True)
