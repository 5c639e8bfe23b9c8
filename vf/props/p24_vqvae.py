"""P24: the VQ autoencoder evaluates its documented network at any size, and freezing/projection stay in force."""
import hypothesis.strategies as st

from ..core import Info, Prop, close, ensure, equal, raises, rnd
from ..gen import fixed, ints, pick, seeds

PROP = Prop(
    "P24",
    "cases = (depth, widths, normalisation, attention levels, resampling, bottleneck, random weights, image size) and histories "
    "of train/eval switches, forwards and optimiser steps; oracle = an independent float64 evaluation of the network from its "
    "state dict, and a model of which parts are frozen; non-trivial = at least two levels and an image that needs padding, or a "
    "history with a training step",
)


def conf():
    return fixed(ch_mult=st.lists(pick(1, 1, 2), min_size=1, max_size=3), nres=ints(1, 2), attn=st.lists(pick(32, 16, 8, 4), max_size=2, unique=True), conv=st.booleans(),
                 cin=pick(1, 3), cout=pick(1, 3, 4), res=pick(16, 32), embed=ints(1, 5), norm=pick("group", "channel", "channel_last"),
                 bott=pick("none", "vq", "project", "normalize"), codes=ints(2, 9), wseed=seeds, ch=pick(16, 32), chn=pick(2, 3, 5))


def build(c, **kw):
    import torch
    from neuralcompression.layers import NormalizeLatent, ProjectLatent, VQBottleneck
    from neuralcompression.models import VqVaeXCiTAutoencoder

    torch.manual_seed(c["wseed"] % 1000)
    e = c["embed"]
    b = {"none": None, "vq": VQBottleneck(c["codes"], e), "project": ProjectLatent(e, e + 1, child=NormalizeLatent(child=VQBottleneck(c["codes"], e + 1))),
         "normalize": NormalizeLatent(child=VQBottleneck(c["codes"], e))}[c["bott"]]
    m = VqVaeXCiTAutoencoder(ch=c["chn"] if c["norm"] == "channel" else c["ch"], out_ch=c["cout"], ch_mult=tuple(c["ch_mult"]), num_res_blocks=c["nres"],
                             attn_resolutions=list(c["attn"]), dropout=kw.pop("dropout", 0.3), resamp_with_conv=c["conv"], in_channels=c["cin"], resolution=c["res"], embed_dim=e,
                             bottleneck_op=b, norm_type=c["norm"], **kw)
    with torch.no_grad():
        for k, (n, p) in enumerate(m.named_parameters()):
            if "codebook" in n:
                continue
            if p.dim() > 1 and "temperature" not in n and p.dim() != 4 or (p.dim() == 4 and "gamma" not in n and "beta" not in n):
                fan = p[0].numel()
                p.copy_(rnd(p.shape, c["wseed"] + k, "normal", scale=1.2 / fan**0.5))
            elif "temperature" in n:
                p.copy_(0.3 + 2 * rnd(p.shape, c["wseed"] + k, "uniform"))
            elif n.endswith("weight") or "gamma" in n:
                p.copy_(0.5 + rnd(p.shape, c["wseed"] + k, "uniform"))
            else:
                p.copy_(rnd(p.shape, c["wseed"] + k, "normal", scale=0.2))
    return m


class Ref:
    """The network, from its state dict, in float64."""

    def __init__(self, m, c):
        self.sd = {k: v.detach().double() for k, v in m.state_dict().items()}
        self.c = c

    def conv(self, n, x, **kw):
        import torch.nn.functional as F

        return F.conv2d(x, self.sd[n + ".weight"], self.sd[n + ".bias"], **kw)

    def norm(self, n, x, kind):
        import torch

        if kind == "channel":
            mu = x.mean(1, keepdim=True)
            v = x.var(1, keepdim=True, unbiased=True)
            return (x - mu) / torch.sqrt(v + 1e-3) * self.sd[n + ".gamma"].reshape(1, -1, 1, 1) + self.sd[n + ".beta"].reshape(1, -1, 1, 1)
        b, ch, h, w = x.shape
        g = x.reshape(b, 16, -1)
        mu = g.mean(-1, keepdim=True)
        v = ((g - mu) ** 2).mean(-1, keepdim=True)
        y = ((g - mu) / torch.sqrt(v + 1e-6)).reshape(b, ch, h, w)
        return y * self.sd[n + ".weight"].reshape(1, -1, 1, 1) + self.sd[n + ".bias"].reshape(1, -1, 1, 1)

    def swish(self, x):
        import torch

        return x / (1 + torch.exp(-x))

    def res(self, n, x, kind):
        h = self.conv(n + ".conv1", self.swish(self.norm(n + ".norm1", x, kind)), padding=1)
        h = self.conv(n + ".conv2", self.swish(self.norm(n + ".norm2", h, kind)), padding=1)
        if n + ".nin_shortcut.weight" in self.sd:
            x = self.conv(n + ".nin_shortcut", x)
        return x + h

    def attn(self, n, x, kind):
        import torch

        b, ch, hh, ww = x.shape
        t = self.norm(n + ".norm", x, kind).reshape(b, ch, -1)
        qkv = torch.einsum("oc,bcn->bon", self.sd[n + ".xca.qkv.weight"], t) + self.sd[n + ".xca.qkv.bias"][None, :, None]
        q, k, v = qkv[:, :ch], qkv[:, ch : 2 * ch], qkv[:, 2 * ch :]
        q = q / q.norm(dim=-1, keepdim=True).clamp(min=1e-12)
        k = k / k.norm(dim=-1, keepdim=True).clamp(min=1e-12)
        a = torch.softmax(torch.einsum("bin,bjn->bij", q, k) * self.sd[n + ".xca.temperature"].reshape(()), -1)
        o = torch.einsum("bij,bjn->bin", a, v)
        o = torch.einsum("oc,bcn->bon", self.sd[n + ".xca.proj.weight"], o) + self.sd[n + ".xca.proj.bias"][None, :, None]
        return x + o.reshape(b, ch, hh, ww)

    def encode(self, x):
        import torch.nn.functional as F

        c = self.c
        kind = "channel" if c["norm"] == "channel" else "group"
        r = c["res"]
        h = self.conv("encoder.conv_in", x.double(), padding=1)
        L = len(c["ch_mult"])
        for i in range(L):
            for j in range(c["nres"]):
                h = self.res(f"encoder.down.{i}.block.{j}", h, kind)
                if r in c["attn"]:
                    h = self.attn(f"encoder.down.{i}.attn.{j}", h, kind)
            if i != L - 1:
                h = self.conv(f"encoder.down.{i}.downsample.conv", F.pad(h, (0, 1, 0, 1)), stride=2) if c["conv"] else F.avg_pool2d(h, 2)
                r //= 2
        h = self.res("encoder.mid.0", h, kind)
        h = self.attn("encoder.mid.1", h, kind)
        h = self.res("encoder.mid.2", h, kind)
        return self.conv("encoder.conv_out", self.swish(self.norm("encoder.norm_out", h, kind)), padding=1)

    def decode(self, z):
        c = self.c
        kind = "channel" if c["norm"] == "channel" else "group"
        last = "group" if c["norm"] == "group" else "channel"
        L = len(c["ch_mult"])
        r = c["res"] // 2 ** (L - 1)
        h = self.conv("decoder.conv_in", z.double(), padding=1)
        h = self.res("decoder.mid.0", h, kind)
        h = self.attn("decoder.mid.1", h, kind)
        h = self.res("decoder.mid.2", h, kind)
        for i in reversed(range(L)):
            for j in range(c["nres"] + 1):
                h = self.res(f"decoder.up.{i}.block.{j}", h, kind)
                if r in c["attn"]:
                    h = self.attn(f"decoder.up.{i}.attn.{j}", h, kind)
            if i != 0:
                h = h.repeat_interleave(2, -1).repeat_interleave(2, -2)
                if c["conv"]:
                    h = self.conv(f"decoder.up.{i}.upsample.conv", h, padding=1)
                r *= 2
        return self.conv("decoder.conv_out", self.swish(self.norm("decoder.norm_out", h, last)), padding=1)


def net_cases():
    return fixed(conf=conf(), b=ints(1, 2), h=ints(5, 20), w=ints(5, 20), seed=seeds, kind=pick("uniform", "normal", "levels", "ramp"))


@PROP.sub("network", net_cases, quick=110, thorough=2500)
def network(c):
    import torch
    import torch.nn.functional as F

    k = c["conf"]
    m = build(k).double().eval()
    f = 2 ** (len(k["ch_mult"]) - 1)
    H, W = c["h"], c["w"]
    x = rnd((c["b"], k["cin"], H, W), c["seed"], c["kind"], torch.float64)
    keep = x.clone()
    with torch.no_grad():
        o = m(x)
    equal(x, keep, "input modified")
    ph, pw = -H % f, -W % f
    xp = F.pad(x, (0, pw, 0, ph), mode="reflect")
    ref = Ref(m, k)
    z = ref.encode(xp)
    sz = (c["b"], k["embed"], (H + ph) // f, (W + pw) // f)
    ensure(tuple(z.shape) == sz, "oracle geometry")
    got = o.prequantized_latent if k["bott"] == "vq" else (o.latent if k["bott"] == "none" else None)
    if got is not None:
        close(got, z, 1e-6, 1e-7 * (1 + float(z.abs().max())), "encoder output")
    ensure(tuple(o.latent.shape) == sz, f"latent shape {tuple(o.latent.shape)} != {sz}")
    if k["bott"] == "none":
        lat = z
        ensure(o.indices is None and o.num_bytes is None and o.commitment_loss is None, "fields without a bottleneck")
    else:
        with torch.no_grad():
            from neuralcompression import VqVaeAutoencoderOutput as Out

            b = m.bottleneck_op(Out(latent=z.clone()))
        close(o.latent, b.latent, 1e-5, 1e-6, "latent is not the bottleneck's answer to the encoder output")
        equal(o.indices, b.indices, "indices")
        close(o.commitment_loss, b.commitment_loss, 1e-5, 1e-7, "commitment loss")
        ensure(o.num_bytes == b.num_bytes and len(o.indices) == sz[0] * sz[2] * sz[3], "rate fields")
        lat = b.latent
    y = ref.decode(lat)[:, :, :H, :W]
    ensure(tuple(o.image.shape) == (c["b"], k["cout"], H, W), f"image shape {tuple(o.image.shape)}")
    close(o.image, y, 1e-5, 1e-6 * (1 + float(y.abs().max())), "reconstruction")
    if k["bott"] == "none" and (ph or pw):
        with torch.no_grad():
            close(m(xp).image[:, :, :H, :W], o.image, 1e-6, 1e-7, "padding by hand")
    if k["bott"] == "none" and c["b"] > 1:
        with torch.no_grad():
            close(m(x[1:2]).image, o.image[1:2], 1e-6, 1e-7, "batch items influence each other")
    return Info(len(k["ch_mult"]) > 1 and (ph or pw) > 0, k["norm"], k["bott"], f"levels{len(k['ch_mult'])}", "attn" if k["attn"] else "plain")


def hist_cases():
    step = pick("train", "eval", "forward", "forward", "step", "step", "evalfwd")
    return fixed(conf=conf(), fe=st.booleans(), fb=st.booleans(), ops=st.lists(step, min_size=1, max_size=6), seed=seeds, opt_before=st.booleans(), drop=pick(0.0, 0.5))


@PROP.sub("freezing", hist_cases, quick=60, thorough=1200)
def freezing(c):
    """Frozen encoder/bottleneck: after any history that ends in a forward pass they are in eval mode, gradient-free, unchanged."""
    import torch

    k = c["conf"]
    m = build(k, freeze_encoder=c["fe"], freeze_bottleneck=c["fb"], dropout=c["drop"])
    parts = {"encoder": c["fe"], "bottleneck_op": c["fb"], "decoder": False}
    first = {n: p.detach().clone() for n, p in m.named_parameters()}
    f = 2 ** (len(k["ch_mult"]) - 1)
    mode = True
    steps = 0

    def part(n):
        return n.split(".")[0]

    def state(what):
        for name, frozen in parts.items():
            mod = getattr(m, name)
            if mod is None:
                continue
            for n, p in mod.named_parameters():
                ensure(p.requires_grad == (not frozen), f"{what}: {name}.{n} requires_grad={p.requires_grad}, frozen={frozen}")
            for s in mod.modules():
                ensure(s.training == (mode and not frozen), f"{what}: {name} in training={s.training}, mode={mode}, frozen={frozen}")

    for name, frozen in parts.items():
        mod = getattr(m, name)
        if mod is not None and frozen:
            ensure(not mod.training and not any(p.requires_grad for p in mod.parameters()), f"{name} not frozen after construction")
    opt = torch.optim.SGD([p for p in m.parameters()] if c["opt_before"] else [p for p in m.parameters() if p.requires_grad], lr=0.05)
    for i, op in enumerate(c["ops"]):
        if op == "train":
            m.train()
            mode = True
        elif op == "eval":
            m.eval()
            mode = False
        else:
            if op == "evalfwd":
                m.eval()
                mode = False
            x = rnd((1, k["cin"], 2 * f, 3 * f), c["seed"] + i, "uniform")
            o = m(x)
            state(f"after {c['ops'][: i + 1]}")
            if c["fe"] or mode is False:
                o2 = m(x)
                lat, lat2 = (o.prequantized_latent, o2.prequantized_latent) if k["bott"] == "vq" else (o.latent, o2.latent)
                if k["bott"] in ("none", "vq"):
                    close(lat2.detach(), lat.detach(), 1e-5, 1e-6, "a frozen (or evaluated) encoder is not deterministic")
            if op == "step":
                steps += 1
                loss = (o.image**2).mean()
                if o.commitment_loss is not None:
                    loss = loss + o.commitment_loss + o.embedding_loss
                opt.zero_grad()
                loss.backward()
                for n, p in m.named_parameters():
                    if parts[part(n)]:
                        ensure(p.grad is None, f"frozen {n} received a gradient")
                ensure(any(p.grad is not None and float(p.grad.abs().max()) > 0 for p in m.decoder.parameters()), "decoder receives no gradient")
                if not c["fe"] and not (k["embed"] == 1 and k["bott"] == "normalize"):
                    ensure(any(p.grad is not None and float(p.grad.abs().max()) > 0 for p in m.encoder.parameters()), "encoder receives no gradient")
                opt.step()
    for n, p in m.named_parameters():
        if parts[part(n)]:
            equal(p.detach(), first[n], f"frozen {n} changed")
    if steps:
        ensure(any(not torch.equal(p.detach(), first[n]) for n, p in m.named_parameters() if part(n) == "decoder"), "training does not change the decoder")
    return Info(steps > 0 and (c["fe"] or c["fb"]), f"fe{c['fe']:d}fb{c['fb']:d}")


@PROP.sub("projector", lambda: fixed(conf=conf(), b=ints(1, 3), h=ints(1, 4), w=ints(2, 4), seed=seeds, ops=st.lists(pick("train", "eval", "fwd", "parent"), max_size=4)), quick=60, thorough=1200)
def projector(c):
    """The projector is the frozen, always-evaluated composition encoder -> bottleneck, returning indices."""
    import torch
    from neuralcompression.models import VqVaeProjector

    k = c["conf"]
    if k["bott"] == "none":
        raises((AssertionError, ValueError), lambda: VqVaeProjector(build(k)), "a projector needs a bottleneck")
        return Info(False, "refused")
    vq = build(k, dropout=0.5)
    pr = VqVaeProjector(vq)
    f = 2 ** (len(k["ch_mult"]) - 1)
    x = rnd((c["b"], k["cin"], c["h"] * f, c["w"] * f), c["seed"], "uniform")
    probe = build(k, dropout=0.5).eval()
    with torch.no_grad():
        want = probe(x)
    holder = torch.nn.ModuleList([pr, torch.nn.Dropout(0.5)])
    for op in c["ops"] + ["fwd"]:
        if op == "train":
            ensure(pr.train() is pr, "train() does not return the module")
        elif op == "parent":
            holder.train()
        elif op == "eval":
            pr.eval()
        else:
            xg = x.clone().requires_grad_(True)
            got = pr(xg)
            ensure(tuple(got.shape) == (c["b"] * c["h"] * c["w"],) and got.dtype == torch.int64, f"indices {tuple(got.shape)} {got.dtype}")
            d = want.quantize_distances
            near = d[torch.arange(len(got)), got] <= d.min(1).values * (1 + 1e-4) + 1e-5
            ensure(bool(((got == want.indices) | near).all()), "projector indices differ from the evaluated autoencoder's")
        ensure(not any(s.training for s in pr.modules()), f"projector in training mode after {op}")
        ensure(not any(p.requires_grad for p in pr.parameters()), f"projector requires gradients after {op}")
    return Info(len(k["ch_mult"]) > 1 and c["h"] * c["w"] > 1, k["bott"])
