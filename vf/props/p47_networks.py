"""P47: the codec networks compute the layer sequences of their papers, for every configuration, size and weights."""
import hypothesis.strategies as st

from .. import vct
from ..core import Info, Prop, close, ensure, equal, raises, rnd, seed_all, viewed
from ..gen import big, fixed, ints, pick, seeds

PROP = Prop(
    "P47",
    "cases = network, configuration (channels, depth, kernel, stride, residual blocks, normalisation), random weights, training "
    "or evaluation mode, input size and batch; oracle = an independent float64 evaluation of the published layer sequence from "
    "the state dict; non-trivial = an input side that the stride does not divide, or several batch items",
    preload=lambda: (vct.ensure_path(), __import__("neural.transforms")),
    assumptions=["Weights are read through the keys under which the checkpoints store them."],
)


def randomise(m, seed, gain=1.3):
    """Weights for which every layer, bias and normalisation parameter matters."""
    import torch

    with torch.no_grad():
        for k, (n, p) in enumerate(m.named_parameters()):
            leaf = n.split(".")[-1]
            if leaf == "gamma" and p.dim() == 4 and p.shape[1] == p.shape[0] and p.shape[0] > 1 or leaf == "gamma" and p.dim() == 2:
                p.add_(0.2 * rnd(p.shape, seed + k, "uniform", torch.float64))  # divisive normalisation
            elif leaf in ("gamma", "beta") or p.dim() == 1 and leaf == "weight":
                p.add_(0.4 * rnd(p.shape, seed + k, "uniform", torch.float64))
            elif p.dim() == 4:
                p.mul_(gain)
            else:
                p.add_(0.3 * rnd(p.shape, seed + k, "normal", torch.float64))
        for k, (n, b) in enumerate(m.named_buffers()):
            if n.endswith("running_mean"):
                b.add_(0.3 * rnd(b.shape, seed - k, "normal", torch.float64))
            elif n.endswith("running_var"):
                b.mul_(0.5 + rnd(b.shape, seed - k, "uniform", torch.float64))
    return m


class Net:
    def __init__(self, sd):
        self.sd = {k: v.detach().clone().double() for k, v in sd.items()}
        self.used = set()

    def p(self, n, shape=None):
        ensure(n in self.sd, lambda: f"no parameter {n} in {sorted(self.sd)[:12]}")
        self.used.add(n)
        v = self.sd[n]
        ensure(shape is None or tuple(v.shape) == tuple(shape), lambda: f"{n} has shape {tuple(v.shape)}, published {tuple(shape)}")
        return v

    def conv(self, n, x, cout, k, stride=1, pad=None, bias=True):
        import torch.nn.functional as F

        w = self.p(n + ".weight", (cout, x.shape[1], k, k))
        ensure(bias == (n + ".bias" in self.sd), lambda: f"{n}: bias {'missing' if bias else 'present'}")
        return F.conv2d(x, w, self.p(n + ".bias", (cout,)) if bias else None, stride=stride, padding=k // 2 if pad is None else pad)

    def deconv(self, n, x, cout, k, stride, size, bias=True):
        """A transposed convolution (padding k // 2) written out, with the given output size."""
        import torch.nn.functional as F

        w = self.p(n + ".weight", (x.shape[1], cout, k, k))
        b, _, h, ww = x.shape
        # insert zeros between the samples, then correlate with the flipped kernel
        up = x.new_zeros(b, x.shape[1], (h - 1) * stride + 1, (ww - 1) * stride + 1)
        up[:, :, ::stride, ::stride] = x
        lo = k - 1 - k // 2
        hi = [size[0] + k - 1 - up.shape[2] - lo, size[1] + k - 1 - up.shape[3] - lo]
        ensure(min(hi) >= 0, "impossible size")
        up = F.pad(up, (lo, hi[1], lo, hi[0]))
        ensure(bias == (n + ".bias" in self.sd), lambda: f"{n}: bias {'missing' if bias else 'present'}")
        return F.conv2d(up, w.flip(-1, -2).transpose(0, 1), self.p(n + ".bias", (cout,)) if bias else None)

    def channel_norm(self, n, x):
        import torch

        mu = x.mean(1, keepdim=True)
        v = ((x - mu) ** 2).sum(1, keepdim=True) / (x.shape[1] - 1)
        return (x - mu) / torch.sqrt(v + 1e-3) * self.p(n + ".gamma").reshape(1, -1, 1, 1) + self.p(n + ".beta").reshape(1, -1, 1, 1)

    def done(self, prefix=""):
        left = [k for k in self.sd if k.startswith(prefix) and k not in self.used]
        ensure(not left, lambda: f"layers beyond the published ones: {left[:6]}")


def relu(x):
    return x.clamp(min=0)


# --- HiFiC ------------------------------------------------------------------------------------
def hific_cases():
    return fixed(cin=ints(1, 5), lat=ints(2, 6), res=pick(0, 0, 1, 2), b=ints(1, 2), h=ints(1, 34), w=ints(1, 34), zh=ints(1, 3), zw=ints(1, 3), mode=st.booleans(), wseed=ints(0, 60), seed=seeds)


def encoder_ref(net, x, lat, pre=""):
    for i, ch in enumerate((60, 120, 240, 480, 960)):
        x = net.conv(f"{pre}blocks.{i}.0", x, ch, 7 if i == 0 else 3, 1 if i == 0 else 2)
        x = relu(net.channel_norm(f"{pre}blocks.{i}.1", x))
    x = net.conv(f"{pre}blocks.5", x, lat, 3)
    net.done(pre)
    return x


def generator_ref(net, z, cout, res, pre=""):
    x = net.channel_norm(f"{pre}block_0.0", z)
    x = net.channel_norm(f"{pre}block_0.2", net.conv(f"{pre}block_0.1", x, 960, 3))
    r = x
    for i in range(res):
        n = f"{pre}resid_blocks.{i}.sequence."
        y = relu(net.channel_norm(n + "1", net.conv(n + "0", r, 960, 3)))
        r = r + net.channel_norm(n + "4", net.conv(n + "3", y, 960, 3))
    x = x + r
    for i, ch in enumerate((480, 240, 120, 60)):
        x = net.deconv(f"{pre}blocks.{i}.0", x, ch, 3, 2, (2 * x.shape[2], 2 * x.shape[3]))
        x = relu(net.channel_norm(f"{pre}blocks.{i}.1", x))
    x = net.conv(f"{pre}blocks.4", x, cout, 7)
    net.done(pre)
    return x


@PROP.sub("hific", hific_cases, quick=90, thorough=1500)
def hific(c):
    import torch
    from neuralcompression.models import HiFiCAutoencoder

    seed_all(c["wseed"])
    m = HiFiCAutoencoder(c["cin"], c["lat"], 1, c["res"]).double().train(c["mode"])
    e, g = randomise(m.encoder, c["wseed"]), randomise(m.decoder, c["wseed"] + 7)
    x = viewed(rnd((c["b"], c["cin"], c["h"], c["w"]), c["seed"], "uniform", torch.float64), c["seed"])
    z = viewed(rnd((c["b"], c["lat"], c["zh"], c["zw"]), c["seed"] + 1, "normal", torch.float64, 3.0), c["seed"] // 3)
    kx, kz = x.clone(), z.clone()
    with torch.no_grad():
        want = encoder_ref(Net(e.state_dict()), x, c["lat"])
        close(e(x), want, 1e-7, 1e-7 * (1 + float(want.abs().max())), "HiFiC encoder")
        want = generator_ref(Net(g.state_dict()), z, c["cin"], c["res"])
        close(g(z), want, 1e-7, 1e-7 * (1 + float(want.abs().max())), "HiFiC generator")
    equal(x, kx, "the encoder modified its input")
    equal(z, kz, "the generator modified its input")
    return Info(c["b"] > 1 or c["h"] % 16 or c["w"] % 16, f"res{c['res']}")


def hyper_cases():
    return fixed(lat=ints(2, 6), hyp=ints(1, 6), b=ints(1, 3), h=ints(1, 13), w=ints(1, 13), zh=ints(1, 4), zw=ints(1, 4), mode=st.booleans(), wseed=ints(0, 60), seed=seeds)


@PROP.sub("hyperprior", hyper_cases, quick=90, thorough=1500)
def hyperprior(c):
    import torch
    from neuralcompression.models import HiFiCAutoencoder

    seed_all(c["wseed"])
    m = HiFiCAutoencoder(3, c["lat"], c["hyp"], 0).double().train(c["mode"])
    lat, hyp = c["lat"], c["hyp"]
    for k, s in enumerate((m.hyper_analysis, m.hyper_synthesis_mean, m.hyper_synthesis_scale)):
        randomise(s, c["wseed"] + 11 * k)
    net = Net(m.state_dict())
    y = viewed(rnd((c["b"], lat, c["h"], c["w"]), c["seed"], "normal", torch.float64, 3.0), c["seed"])
    z = viewed(rnd((c["b"], hyp, c["zh"], c["zw"]), c["seed"] + 1, "normal", torch.float64, 3.0), c["seed"] // 3)
    ky, kz = y.clone(), z.clone()
    with torch.no_grad():
        t = relu(net.conv("hyper_analysis.0", y, hyp, 3))
        t = relu(net.conv("hyper_analysis.2", t, hyp, 5, 2))
        t = net.conv("hyper_analysis.4", t, hyp, 5, 2)
        close(m.hyper_analysis(y), t, 1e-8, 1e-8 * (1 + float(t.abs().max())), "hyper-analysis")
        for n in ("hyper_synthesis_mean", "hyper_synthesis_scale"):
            t = z
            for i in (0, 2):
                t = relu(net.deconv(f"{n}.{i}", t, hyp, 5, 2, (2 * t.shape[2], 2 * t.shape[3])))
            t = net.conv(f"{n}.4", t, lat, 3)
            close(getattr(m, n)(z), t, 1e-8, 1e-8 * (1 + float(t.abs().max())), n)
    net.done("hyper_analysis")
    net.done("hyper_synthesis")
    equal(y, ky, "hyper-analysis modified its input")
    equal(z, kz, "hyper-synthesis modified its input")
    return Info(c["h"] % 4 or c["w"] % 4 or c["b"] > 1, "hyper")


# --- DVC latent coders ------------------------------------------------------------------------
@st.composite
def dvc_cases(draw):
    return dict(cin=draw(ints(1, 4)), cout=draw(ints(1, 5)), filt=draw(ints(1, 5)), k=draw(pick(3, 3, 5, 1, 7)), s=draw(pick(2, 2, 1, 3)), n=draw(ints(1, 4)), gdn=draw(st.booleans()),
                b=draw(ints(1, 3)), h=draw(big(1, 24, 40, 61)), w=draw(big(1, 24, 39, 60)), mode=draw(st.booleans()), wseed=draw(ints(0, 60)), seed=draw(seeds))


def norm_act(net, n, i, x, gdn, mode, inverse):
    """-> (activation, next index)"""
    import torch

    if gdn:
        beta, gamma = net.p(f"{n}.{i}.beta").clamp(min=1e-6), net.p(f"{n}.{i}.gamma").clamp(min=0)
        den = beta[None, :, None, None] + torch.einsum("ij,bjhw->bihw", gamma.reshape(gamma.shape[0], -1), x.abs())
        return (x * den if inverse else x / den), i + 1
    mu, var = net.p(f"{n}.{i}.running_mean"), net.p(f"{n}.{i}.running_var")
    net.used.add(f"{n}.{i}.num_batches_tracked")
    if mode:
        mu, var = x.mean((0, 2, 3)), x.var((0, 2, 3), unbiased=False)
    v = lambda t: t.reshape(1, -1, 1, 1)
    return relu((x - v(mu)) / torch.sqrt(v(var) + 1e-5) * v(net.p(f"{n}.{i}.weight")) + v(net.p(f"{n}.{i}.bias"))), i + 2


@PROP.sub("dvc", dvc_cases, quick=260, thorough=5000)
def dvc(c):
    import torch
    from neuralcompression.models.deep_video_compression import DVCCompressionDecoder, DVCCompressionEncoder

    seed_all(c["wseed"])
    kw = dict(filter_channels=c["filt"], kernel_size=c["k"], stride=c["s"], num_conv_layers=c["n"], use_gdn=c["gdn"])
    e = randomise(DVCCompressionEncoder(c["cin"], c["cout"], **kw).double(), c["wseed"]).train(c["mode"])
    d = randomise(DVCCompressionDecoder(c["cout"], c["cin"], **kw).double(), c["wseed"] + 3).train(c["mode"])
    x = viewed(rnd((c["b"], c["cin"], c["h"], c["w"]), c["seed"], "normal", torch.float64), c["seed"])
    kx = x.clone()
    net, t, i, sizes = Net(e.state_dict()), x, 0, []
    for layer in range(c["n"]):
        last = layer == c["n"] - 1
        sizes.append(tuple(t.shape))
        t = net.conv(f"layers.{i}", t, c["cout"] if last else c["filt"], c["k"], c["s"], bias=c["gdn"] or last)
        i += 1
        if not last:
            if c["mode"] and not c["gdn"] and t.numel() == t.shape[1]:
                return Info(False, "one value per channel")
            t, i = norm_act(net, "layers", i, t, c["gdn"], c["mode"], False)
    net.done()
    with torch.no_grad():
        y, got = e(x)
        close(y, t, 1e-7, 1e-8 * (1 + float(t.abs().max())), "DVC encoder")
        ensure([tuple(s) for s in got] == sizes, lambda: f"recorded sizes {got}, inputs of the convolutions {sizes}")
        equal(x, kx, "the encoder modified its input")
        ky = y.clone()
        for use in (True, False):
            net, t, i = Net(d.state_dict()), y, 0
            for layer in range(c["n"]):
                last = layer == c["n"] - 1
                full = [(s - 1) * c["s"] + 1 for s in t.shape[2:]]
                to = sizes[c["n"] - 1 - layer][2:] if use else full
                t = net.deconv(f"layers.{i}", t, c["cin"] if last else c["filt"], c["k"], c["s"], to, bias=c["gdn"] or last)
                i += 1
                if not last:
                    if c["mode"] and not c["gdn"] and t.numel() == t.shape[1]:
                        return Info(False, "one value per channel")
                    t, i = norm_act(net, "layers", i, t, c["gdn"], c["mode"], True)
            net.done()
            keep = [torch.Size(s) for s in sizes]
            close(d(y, keep) if use else d(y), t, 1e-7, 1e-8 * (1 + float(t.abs().max())), f"DVC decoder (sizes {'given' if use else 'not given'})")
            ensure(keep == [torch.Size(s) for s in sizes], "the decoder used up the caller's list of sizes")
            equal(y, ky, "the decoder modified its input")
        if c["n"] > 1:
            raises(ValueError, lambda: d(y, [torch.Size(s) for s in sizes[:-1]]), "a missing size was accepted")
    return Info(c["b"] > 1 or c["h"] % 2 or c["w"] % 2, "gdn" if c["gdn"] else "batch norm", f"n{c['n']}", f"s{c['s']}")


# --- VCT transforms ---------------------------------------------------------------------------
def vct_cases():
    return fixed(kind=pick("gdn", "elic"), n=ints(2, 5), C=ints(2, 5), res=ints(0, 3), B=ints(1, 2), T=ints(1, 3), h=ints(1, 40), w=ints(1, 40), mode=st.booleans(), wseed=ints(0, 60), seed=seeds)


def gdn_ref(net, n, x, inverse):
    """generalised divisive normalisation of Balle et al. in CompressAI's parametrisation"""
    import torch

    def nonneg(k):
        v = torch.max(net.p(f"{n}.{k}"), net.p(f"{n}.{k}_reparam.lower_bound.bound"))
        return v * v - net.p(f"{n}.{k}_reparam.pedestal")

    den = nonneg("beta")[None, :, None, None] + torch.einsum("ij,bjhw->bihw", nonneg("gamma"), x * x)
    return x * torch.sqrt(den) if inverse else x / torch.sqrt(den)


def unit(net, n, x):
    ch = x.shape[1]
    y = relu(net.conv(n + ".conv.0", x, ch // 2, 1))
    y = relu(net.conv(n + ".conv.2", y, ch // 2, 3))
    return relu(net.conv(n + ".conv.4", y, ch, 1) + x)


def attention(net, n, x):
    import torch

    a = b = x
    for i in range(3):
        a, b = unit(net, f"{n}.conv_a.{i}", a), unit(net, f"{n}.conv_b.{i}", b)
    return a * torch.sigmoid(net.conv(f"{n}.conv_b.3", b, x.shape[1], 1)) + x


def sequence(net, x, plan):
    for i, (op, *a) in enumerate(plan):
        n = f"transforms.{i}"
        if op == "conv":
            x = net.conv(n, x, a[0], 5, 2)
        elif op == "deconv":
            x = net.deconv(n, x, a[0], 5, 2, (2 * x.shape[2], 2 * x.shape[3]))
        elif op == "gdn":
            x = gdn_ref(net, n, x, a[0])
        elif op == "unit":
            x = unit(net, n, x)
        else:
            x = attention(net, n, x)
    net.done()
    return x


@PROP.sub("vct", vct_cases, quick=120, thorough=2500)
def vct_nets(c):
    import torch

    vct.ensure_path()
    import neural.transforms as T

    seed_all(c["wseed"])
    n, C = c["n"], c["C"]
    if c["kind"] == "gdn":
        a, s = T.ConvGDNAnalysis(n, C), T.ConvGDNSynthesis(n, C)
        pa = [("conv", n), ("gdn", False)] * 3 + [("conv", C)]
        ps = [("deconv", n), ("gdn", True)] * 3 + [("deconv", 3)]
    else:
        wa, ws = [n, n + 1, n + 2, C], [C, n + 1, n, 3]
        u = [("unit",)] * c["res"]
        a, s = T.ELICAnalysis(c["res"], list(wa)), T.ELICSynthesis(c["res"], list(ws))
        pa = [("conv", wa[0]), *u, ("conv", wa[1]), *u, ("attn",), ("conv", wa[2]), *u, ("conv", wa[3]), ("attn",)]
        ps = [("attn",), ("deconv", ws[0]), *u, ("deconv", ws[1]), ("attn",), *u, ("deconv", ws[2]), *u, ("deconv", ws[3])]
    a, s = randomise(a.double(), c["wseed"]).train(c["mode"]), randomise(s.double(), c["wseed"] + 3).train(c["mode"])
    B, Tt, h, w = c["B"], c["T"], c["h"], c["w"]
    x = rnd((B, Tt, 3, h, w), c["seed"], "uniform", torch.float64)
    with torch.no_grad():
        want = sequence(Net(a.state_dict()), x.reshape(-1, 3, h, w), pa)
        y = a(x)
        close(y, want.reshape(B, Tt, *want.shape[1:]), 1e-7, 1e-8 * (1 + float(want.abs().max())), f"{c['kind']} analysis")
        z = rnd(y.shape, c["seed"] + 1, "normal", torch.float64)
        want = sequence(Net(s.state_dict()), z.reshape(-1, *z.shape[2:]), ps)
        want = want.reshape(B, Tt, *want.shape[1:])[..., :h, :w]
        close(s(z, x.shape), want, 1e-7, 1e-8 * (1 + float(want.abs().max())), f"{c['kind']} synthesis")
    return Info(B * Tt > 1 or h % 16 or w % 16, c["kind"])
