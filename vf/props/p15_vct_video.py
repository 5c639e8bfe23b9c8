"""P15: the VCT video codec reconstructs the same video from its compressed form as the evaluated model, frame by frame and causally."""
import copy

import hypothesis.strategies as st

from ..core import IMAGE_KINDS, Info, Prop, Unsupported, close, ensure, equal, raises, rnd
from ..gen import fl, ints, pick, seeds
from .. import vct

PROP = Prop(
    "P15",
    "cases = transform family (GDN or ELIC, chunked or not), entropy model windows and context, clip length 1-5, batch, "
    "frame size (also not divisible by 16), content; oracles = the evaluated forward pass vs compress/decompress, "
    "prefix and batch-slicing relations; non-trivial = at least two frames and varying quantised latents",
)


def preload():
    vct.ensure_path()
    import model_pipeline  # noqa: F401
    import neural.bottlenecks as nb

    vct.bottleneck(32, 8, 0.05, 2**-8, cls=nb.GsnConditionalLocScaleShift)


PROP.preload = preload


@st.composite
def cases(draw, batch=2, tmax=5, mult16=False):
    kind = draw(pick("gdn", "elic", "gdn"))
    T, B = draw(ints(1, tmax)), draw(ints(1, batch))
    dec = draw(pick(2, 2, 1))
    enc = draw(pick(dec, dec * 2) if dec == 2 else pick(1, 3))
    # latents of at least 3 so that reflection fits
    side = (lambda: 16 * draw(ints(3, 4))) if mult16 else (lambda: draw(st.one_of(ints(33, 64), pick(48, 64))))
    mf = draw(pick(None, 1, T)) if kind == "elic" else None
    return dict(kind=kind, T=T, B=B, h=side(), w=side(), C=draw(ints(3, 5)), ctx=draw(pick(2, 2, 1, 3)), dec=dec, enc=enc,
                wseed=draw(ints(0, 40)), gain=draw(fl(0.6, 1.3)), ga=draw(fl(1.5, 4.0)), seed=draw(seeds), mf=mf,
                content=draw(pick(*IMAGE_KINDS)), pos=draw(ints(0, 10**6)))


def clip(c, seed=None, b=None):
    return rnd((b or c["B"], c["T"], 3, c["h"], c["w"]), c["seed"] if seed is None else seed, c["content"])


def run(m, x):
    import torch

    with torch.no_grad():
        m.eval()
        if hasattr(m, "_code_to_strings"):
            m._code_to_strings = False  # as the repository's test loop does before a plain forward pass
        rec, extra = m(vct.video(x))
    return rec, extra[0]


def jit(x, k):
    return x if k == 0 else (x + 4e-3 * (rnd(x.shape, 555 + k, "uniform") - 0.5)).clamp(0, 1)


def persist(fn, x, tries=3):
    """a mismatch counts only if it shows on jittered clips too (rounding ties)"""
    err = None
    for k in range(tries):
        err = fn(jit(x, k))
        if err is None:
            return
    ensure(False, err)


def diff(a, b, what, tol=2e-3):
    if tuple(a.shape) != tuple(b.shape):
        return f"{what}: shapes {tuple(a.shape)} vs {tuple(b.shape)}"
    if a.numel() == 0:
        return None
    d = float((a - b).abs().max())
    return None if d <= tol * (1 + float(b.abs().max())) else f"{what}: differ by {d}"


@PROP.sub("codec", lambda: cases(batch=1, tmax=4), quick=80, thorough=600)
def codec(c):
    import torch

    m = vct.pipeline(c)
    x0 = clip(c)
    lat = {}

    def attempt(x):
        keep = x.clone()
        v = vct.video(x)
        with torch.no_grad():
            *out, bits = m.compress_video(v)
            rec = m.decompress_video(v.shape, bottleneck_args=out)
        equal(x, keep, "the clip was modified")
        ensure(tuple(rec.shape) == tuple(x.shape), f"decompressed {tuple(rec.shape)}")
        ensure(len(bits) == c["T"], f"{len(bits)} bit counts for {c['T']} frames")
        ensure(m.training is False, "compression leaves the model in training mode")
        fw, lik = run(m, x)
        lat["n"] = int(lik.numel())
        e = diff(rec, fw, "decompressed video vs evaluated forward pass")
        if e:
            return e
        for t in range(c["T"]):
            est = float(-torch.log2(lik[t].double()).sum())
            n = lik[t].numel()
            if t == 0:
                ensure(abs(bits[0] - est) <= 1e-3 * est + 0.5, f"first frame reports {bits[0]} bits, likelihoods {est}")
            else:
                ensure(bits[t] == int(bits[t]) and bits[t] % 8 == 0, f"frame {t}: {bits[t]} bits is not a number of bytes")
                ensure(bits[t] <= 1.3 * est + 72 * c["dec"] ** 2 + n + 64, f"frame {t}: paid {bits[t]} bits, likelihoods say {est:.0f}")
                ensure(bits[t] >= 0.7 * est - n - 64, f"frame {t}: paid {bits[t]} bits, likelihoods say {est:.0f}")
        return None

    persist(attempt, x0)
    if c["T"]:
        x2 = torch.cat([x0, x0])
        raises((AssertionError, ValueError), lambda: m.compress_video(vct.video(x2)), "a batch of two clips was compressed")
    return Info(c["T"] > 1, c["kind"], f"T{c['T']}", "pad" if c["h"] % 16 or c["w"] % 16 else "exact")


@PROP.sub("forward", lambda: cases(), quick=160, thorough=1200)
def forward(c):
    """Shapes, determinism, batch slicing, causality in time with the declared context length, rate totals."""
    import torch

    m = vct.pipeline(c)
    x0 = clip(c)
    B, T = c["B"], c["T"]

    def attempt(x):
        rec, lik = run(m, x)
        ensure(tuple(rec.shape) == tuple(x.shape), f"reconstruction {tuple(rec.shape)}")
        ensure(lik.shape[0] == T, "one likelihood entry per frame")
        ensure(bool(((lik > 0) & (lik <= 1)).all()), "likelihood outside (0, 1]")
        hl, wl = -(-c["h"] // 16), -(-c["w"] // 16)
        nh, nw = -(-hl // c["dec"]), -(-wl // c["dec"])
        ensure(tuple(lik.shape[1:]) == (B * nh * nw, c["dec"] ** 2, c["C"]), f"likelihood shape {tuple(lik.shape)}")
        rec2, lik2 = run(m, x)
        close(rec2, rec, 1e-5, 1e-5, "evaluation is not deterministic")
        close(lik2, lik, 1e-5, 1e-5, "evaluation is not deterministic")
        per = m.compute_rate(lik, per_frame=True)
        exp = -torch.log2(lik.double()).sum(dim=(1, 2, 3))
        close(per, exp, 1e-4, 1e-2, "rate per frame")
        close(m.compute_rate(lik).reshape(1), exp.sum().reshape(1), 1e-4, 1e-2, "total rate")
        # one clip alone
        k = c["pos"] % B
        one, lone = run(m, x[k : k + 1])
        e = diff(one, rec[k : k + 1], "a clip depends on its batch mates")
        if e:
            return e
        if c["kind"] == "gdn" and (c["h"] % 16 or c["w"] % 16):
            iy = [i if i < c["h"] else 2 * (c["h"] - 1) - i for i in range(16 * hl)]
            ix = [i if i < c["w"] else 2 * (c["w"] - 1) - i for i in range(16 * wl)]
            rp, lp = run(m, x[..., iy, :][..., ix])
            e = diff(rp[..., : c["h"], : c["w"]], rec, "coding the reflect-padded clip and cropping")
            if e:
                return e
        # future frames do not matter
        t = (c["pos"] // 3) % T
        y = x.clone()
        y[:, t] = 1 - y[:, t]
        ry, ly = run(m, y)
        e = diff(ry[:, :t], rec[:, :t], f"frames before {t} depend on frame {t}")
        if e:
            return e
        if not torch.equal(ly[:t], lik[:t]) and float((ly[:t] - lik[:t]).abs().mean()) > 1e-3:
            return f"rates before frame {t} depend on it"
        # frames beyond the context do not depend on it either
        far = t + c["ctx"] + 1
        if far < T:
            e = diff(ry[:, far:], rec[:, far:], f"frame {far} depends on frame {t} with context {c['ctx']}")
            if e:
                return e
        # a prefix of the clip is coded the same way
        if T > 1:
            if c["kind"] == "elic" and c["mf"] not in (None, 1):
                return None
            p, lp = run(m, x[:, : T - 1])
            e = diff(p, rec[:, : T - 1], "coding a prefix of the clip")
            if e:
                return e
        return None

    persist(attempt, x0)
    raises(ValueError, lambda: run(m, x0[:, :, :2]), "a two-channel clip was accepted")
    return Info(T > 1, c["kind"], f"T{T}", f"ctx{c['ctx']}")


@PROP.sub("temporal", lambda: cases(batch=1, mult16=True), quick=60, thorough=700)
def temporal(c):
    """Later frames do condition on the previous reconstruction; the first on a learnt one."""
    import torch

    if c["T"] < 2:
        c["T"] = 2
        c["mf"] = None if c["mf"] not in (None, 1) else c["mf"]
    m = vct.pipeline(c)
    x = clip(c)
    lat = m.analysis_transform
    y = x.clone()
    y[:, 0] = 1 - y[:, 0] * 0.7
    with torch.no_grad():
        moved = float((lat(x)[:, 0].round() - lat(y)[:, 0].round()).abs().max())
    _, l1 = run(m, x)
    _, l2 = run(m, y)
    if moved >= 1:
        # every context slot feeds the next frame's distribution (likelihoods may saturate at the bound)
        live = (l1[1] > 1e-6) & (l1[1] < 0.999)
        if int(live.sum()) >= 8:
            ensure(float((l1[1] - l2[1]).abs().max()) > 0, "the second frame's distribution ignores the first frame")
    return Info(moved >= 1, "moved" if moved >= 1 else "still")


@PROP.sub("composition", lambda: cases(tmax=6), quick=80, thorough=800)
def composition(c):
    """Each frame is coded given the last `context` transmitted latents (the learnt one first), dequantised with the features and synthesised."""
    import torch
    import torch.nn.functional as F

    m = vct.pipeline(c)
    sd = m.state_dict()
    B, T, ctx = c["B"], c["T"], c["ctx"]
    need = ["_temporal_pad_token_maker.weight"] + [f"_dequantizer.process_conv.{k}.{w}" for k in ("0", "2.conv1", "2.conv2") for w in ("weight", "bias")]
    if not all(k in sd for k in need):
        raise Unsupported("unknown checkpoint layout")

    def conv(x, k, pad):
        return F.leaky_relu(F.conv2d(x, sd[f"_dequantizer.process_conv.{k}.weight"], sd[f"_dequantizer.process_conv.{k}.bias"], padding=pad), 0.01)

    def attempt(x):
        rec, lik = run(m, x)
        hp, wp = -(-c["h"] // 16) * 16, -(-c["w"] // 16) * 16
        padded = F.pad(x.flatten(0, 1), (0, wp - c["w"], 0, hp - c["h"]), "reflect").reshape(B, T, 3, hp, wp)
        with torch.no_grad():
            # the GDN transform declares its downsampling, the other one is given the clip as it is
            lat = m.analysis_transform(padded if hasattr(m.analysis_transform, "num_downsampling_layers") else x)
            history, out = [], []
            for t in range(T):
                if t == 0:
                    prev = (m.entropy_model.process_previous_latent_q(sd[need[0]].expand_as(lat[:, 0]).contiguous()),)
                else:
                    prev = tuple(m.entropy_model.process_previous_latent_q(h) for h in history[-ctx:])
                o = m.entropy_model(lat[:, t], prev)
                live = float((o.bits - lik[t]).abs().mean())
                if live > 2e-3:
                    return f"likelihoods of frame {t} are not those given the last {ctx} latents (by {live})"
                history.append(torch.round(lat[:, t]))
                z = conv(o.features, "0", 0)
                z = z + conv(conv(z, "2.conv1", 1), "2.conv2", 1)
                out.append(history[-1] + z)
            want = m.synthesis_transform(torch.stack(out, 1), x.shape)[..., : c["h"], : c["w"]]
        return diff(rec, want, "evaluated video vs its composition")

    persist(attempt, clip(c))
    return Info(T > 1, c["kind"], f"T{T}", f"ctx{ctx}")


@PROP.sub("train", lambda: cases(tmax=3, mult16=True), quick=80, thorough=500)
def train(c):
    """Training passes gradients to the transforms and the entropy model and does not disturb evaluation."""
    import torch

    m = vct.pipeline(c)
    x = clip(c)
    before, lb = run(m, x)
    m.train()
    rec, extra = m(vct.video(x))
    ensure(tuple(rec.shape) == tuple(x.shape), "training reconstruction shape")
    ensure(m.training, "training mode lost")
    loss = ((rec - x) ** 2).mean() + 1e-3 * m.compute_rate(extra[0])
    ensure(bool(torch.isfinite(loss)), "loss not finite")
    loss.backward()
    for part in ("analysis_transform", "synthesis_transform", "entropy_model", "_temporal_pad_token_maker", "_dequantizer"):
        mod = getattr(m, part, None)
        if mod is None and part.startswith("_"):
            continue
        gs = [p.grad for p in mod.parameters() if p.grad is not None]
        ensure(gs and any(float(g.abs().max()) > 0 for g in gs), f"{part} receives no gradient")
    m.zero_grad()
    m.eval()
    after, la = run(m, x)
    close(after, before, 1e-5, 1e-5, "a training pass changed the evaluated output")
    close(la, lb, 1e-5, 1e-5, "a training pass changed the evaluated likelihoods")
    # compressing in between leaves training as it was
    with torch.no_grad():
        m.compress_video(vct.video(x[:1]))
    m.train()
    rec2, extra2 = m(vct.video(x))
    ensure(tuple(extra2[0].shape) == tuple(extra[0].shape) and extra2[0].requires_grad and rec2.requires_grad, "training after compressing a clip does not train")
    close(rec2.detach(), rec.detach(), 1e-4, 1e-4, "training output after compressing a clip")
    return Info(c["T"] > 1, c["kind"])


@PROP.sub("devices", lambda: st.builds(lambda c, off: dict(c, off=off), cases(batch=1, tmax=2, mult16=True), pick("none", "analysis_transform", "synthesis_transform", "entropy_model", "_dequantizer")), quick=24, thorough=120)
def devices(c):
    """With force_cpu=True a model with a part off the CPU (torch's meta device) is refused; without, decoding needs only the synthesis."""
    import torch

    m = copy.deepcopy(vct.pipeline(c))
    x = clip(c)
    v = vct.video(x)
    with torch.no_grad():
        *out, _ = m.compress_video(v, force_cpu=True)
        rec = m.decompress_video(v.shape, bottleneck_args=out, force_cpu=True)
        if c["off"] == "none" or not hasattr(m, c["off"]):
            return Info(False, "none")
        getattr(m, c["off"]).to("meta")
        raises(ValueError, lambda: m.compress_video(v, force_cpu=True), f"compressed with {c['off']} off the CPU")
        raises(ValueError, lambda: m.decompress_video(v.shape, bottleneck_args=out, force_cpu=True), f"decompressed with {c['off']} off the CPU")
        if c["off"] != "synthesis_transform":
            close(m.decompress_video(v.shape, bottleneck_args=out), rec, 1e-5, 1e-5, f"decoding with {c['off']} elsewhere")
    return Info(True, c["off"])


@PROP.sub("containers", lambda: cases(), quick=80, thorough=600)
def containers(c):
    """Clip and scene containers report their dimensions and iterate scenes in time order."""
    import torch

    vct.ensure_path()
    from datamodules.video_data_api import Scenes

    x = clip(c)
    v = vct.video(x)
    ensure(tuple(v.shape) == tuple(x.shape) and v.num_frames == c["T"] and v.batch_size == c["B"], "clip dimensions")
    ensure(tuple(v.spatial_shape) == (c["h"], c["w"]), "clip spatial shape")
    v.validate_shape()
    raises(ValueError, lambda: vct.video(x[:, :, :1]).validate_shape(), "one-channel clip accepted")
    raises(ValueError, lambda: vct.video(x[0]).validate_shape(), "4-D clip accepted")
    s = Scenes(x)
    ensure(s.num_scenes == c["T"] and s.batch_size == c["B"] and tuple(s.spatial_shape) == (c["h"], c["w"]), "scene dimensions")
    it = list(s.get_scenes_iter())
    ensure(len(it) == c["T"], "number of scenes")
    for t, f in enumerate(it):
        equal(f, x[:, t], f"scene {t}")
    raises(ValueError, lambda: list(Scenes(x[0]).get_scenes_iter()), "4-D scenes accepted")
    raises(ValueError, lambda: list(Scenes(x.double()).get_scenes_iter()), "float64 scenes accepted")
    return Info(c["T"] > 1)
