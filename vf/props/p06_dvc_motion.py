"""P06: pyramid flow estimation, latent coder geometry and motion compensation of the video codec."""
import hypothesis.strategies as st

from ..core import Info, Prop, close, ensure, equal, raises, rnd, seed_all, viewed
from ..gen import fixed, fl, ints, pick, seeds

PROP = Prop(
    "P06",
    "cases = pyramid depth, filter layout, frame size (odd included), batch, weights; oracle = an independent coarse-to-fine recursion, "
    "and closed forms for networks that emit constant displacements; non-trivial = more than one level and a non-square or odd frame",
    preload=lambda: __import__("neuralcompression.models.deep_video_compression"),
)


def _warp(img, flow):
    import torch
    import torch.nn.functional as F

    n, _, h, w = flow.shape
    gy = torch.linspace(-1, 1, h, dtype=img.dtype).view(1, h, 1).expand(n, h, w)
    gx = torch.linspace(-1, 1, w, dtype=img.dtype).view(1, 1, w).expand(n, h, w)
    return F.grid_sample(img, torch.stack([gx + flow[:, 0], gy + flow[:, 1]], -1), mode="bilinear", padding_mode="border", align_corners=False)


def _pools(x, n):
    import torch.nn.functional as F

    out = [x]
    for _ in range(n - 1):
        y = out[-1]
        h, w = y.shape[-2] // 2 * 2, y.shape[-1] // 2 * 2
        y = y[..., :h, :w]
        out.append((y[..., ::2, ::2] + y[..., 1::2, ::2] + y[..., ::2, 1::2] + y[..., 1::2, 1::2]) / 4)
    return out


@st.composite
def flow_cases(draw):
    levels = draw(ints(1, 5))
    lo = 2 ** (levels - 1)
    side = st.one_of(ints(lo, lo + 14), ints(max(lo, 5), 40), ints(lo, 2 * lo), ints(41, 100))
    return dict(levels=levels, h=draw(side), w=draw(side), b=draw(ints(1, 3)), seed=draw(seeds), wseed=draw(ints(0, 99)),
                filters=draw(pick([2], [4, 2], [3, 5, 2])), k=draw(pick(1, 3, 5)), const=draw(st.booleans()), gain=draw(fl(0.5, 2.5)))


@PROP.sub("pyramid", flow_cases, quick=300, thorough=6000)
def pyramid(c):
    import torch
    import torch.nn.functional as F
    from neuralcompression.models.deep_video_compression import DVCPyramidFlowEstimator

    seed_all(c["wseed"])
    m = DVCPyramidFlowEstimator(filter_counts=c["filters"], kernel_size=c["k"], levels=c["levels"]).double().train(c["wseed"] % 2 == 1)
    ensure(len(m.model_levels) == c["levels"], "number of levels")
    bias = rnd((c["levels"], 2), c["wseed"], "symmetric", torch.float64, 0.2)
    with torch.no_grad():
        if c["const"]:
            for p in m.parameters():
                p.zero_()
            for lv, b in zip(m.model_levels, bias):
                last = [p for p in lv.parameters() if p.dim() == 1][-1]
                last.copy_(b)
        else:
            for p in m.parameters():
                p.mul_(c["gain"])
    a = viewed(rnd((c["b"], 3, c["h"], c["w"]), c["seed"], "uniform", torch.float64), c["seed"])
    b = viewed(rnd((c["b"], 3, c["h"], c["w"]), c["seed"] ^ 77, "uniform", torch.float64), c["seed"] // 5)
    a0, b0 = a.clone(), b.clone()
    with torch.no_grad():
        flow, pairs = m.calculate_flow_with_image_pairs(a, b)
        flow2 = m(a, b)
    equal(a, a0, "image 1 modified")
    equal(b, b0, "image 2 modified")
    close(flow2, flow, 0, 1e-12, "forward and training flow differ")
    ensure(tuple(flow.shape) == (c["b"], 2, c["h"], c["w"]), f"flow shape {tuple(flow.shape)}")
    ensure(len(pairs) == c["levels"], f"{len(pairs)} image pairs for {c['levels']} levels")
    pa, pb = _pools(a, c["levels"]), _pools(b, c["levels"])
    cur = torch.zeros_like(pa[-1][:, :2])
    total = torch.zeros(2, dtype=torch.float64)
    with torch.no_grad():
        for i, lv in enumerate(m.model_levels):
            x, y = pa[-1 - i], pb[-1 - i]
            cur = F.interpolate(cur, tuple(x.shape[2:]), mode="bilinear", align_corners=False)
            cur = cur + lv(torch.cat([_warp(x, cur), y, cur], 1))
            close(pairs[i][0], _warp(x, cur), 1e-9, 1e-9, f"warped image at level {i}")
            close(pairs[i][1], y, 1e-12, 1e-12, f"target image at level {i}")
            if c["const"]:
                total = total + bias[i]
                close(cur, total.view(1, 2, 1, 1).expand_as(cur), 1e-9, 1e-9, "accumulated displacement")
    close(flow, cur, 1e-9, 1e-9, "flow")
    if c["const"]:
        close(flow, bias.sum(0).view(1, 2, 1, 1).expand_as(flow), 1e-9, 1e-9, "constant displacements do not add up")
    return Info(c["levels"] > 1 and (c["h"] != c["w"] or c["h"] % 2), f"L{c['levels']}", "const" if c["const"] else "net")


@PROP.sub("pyramid_rejects", lambda: fixed(h=ints(8, 16), w=ints(8, 16), dh=pick(0, 1, 2), dw=pick(1, 2), seed=seeds), quick=20)
def pyramid_rejects(c):
    from neuralcompression.models.deep_video_compression import DVCPyramidFlowEstimator

    m = DVCPyramidFlowEstimator(filter_counts=[2], kernel_size=1, levels=2)
    a, b = rnd((1, 3, c["h"], c["w"]), c["seed"]), rnd((1, 3, c["h"] + c["dh"], c["w"] + c["dw"]), c["seed"])
    raises(ValueError, lambda: m(a, b), "different frame sizes")
    return Info(True)


@PROP.sub(
    "coder",
    lambda: fixed(h=ints(1, 40), w=ints(1, 40), b=ints(1, 2), cin=ints(1, 3), cl=ints(1, 4), cf=ints(1, 4), k=pick(3, 5, 7), n=ints(1, 5), s=pick(2, 2, 1, 3), gdn=st.booleans(), seed=seeds, wseed=ints(0, 99)),
    quick=300, thorough=6000,
)
def coder(c):
    import torch
    from neuralcompression.models.deep_video_compression import DVCCompressionDecoder, DVCCompressionEncoder

    seed_all(c["wseed"])
    enc = DVCCompressionEncoder(in_channels=c["cin"], out_channels=c["cl"], filter_channels=c["cf"], kernel_size=c["k"], **({} if c["s"] == 2 else {"stride": c["s"]}), num_conv_layers=c["n"], use_gdn=c["gdn"]).train(c["gdn"] and c["wseed"] % 2 == 1)
    dec = DVCCompressionDecoder(in_channels=c["cl"], out_channels=c["cin"], filter_channels=c["cf"], kernel_size=c["k"], **({} if c["s"] == 2 else {"stride": c["s"]}), num_conv_layers=c["n"], use_gdn=c["gdn"]).train(c["gdn"] and c["wseed"] % 2 == 1)
    x = viewed(rnd((c["b"], c["cin"], c["h"], c["w"]), c["seed"]), c["seed"])
    with torch.no_grad():
        z, sizes = enc(x)
        keep = [tuple(s) for s in sizes]
        y = dec(z, sizes)
        y2 = dec(z, sizes)
    ensure(len(sizes) == c["n"], f"{len(sizes)} sizes for {c['n']} layers")
    ensure([tuple(s) for s in sizes] == keep, "decoding consumed the caller's size list")
    close(y2, y, 1e-5, 1e-5, "decoding twice differs")
    ensure(tuple(y.shape) == tuple(x.shape), f"decoded {tuple(y.shape)} from {tuple(x.shape)}")
    h, w = c["h"], c["w"]
    for s in keep:
        ensure((s[-2], s[-1]) == (h, w), f"recorded size {s}, expected {(h, w)}")
        h, w = -(-h // c["s"]), -(-w // c["s"])
    ensure(tuple(z.shape) == (c["b"], c["cl"], h, w), f"latent {tuple(z.shape)}, expected {(h, w)}")
    for part, t in (("encoder", enc), ("decoder", dec)):  # checkpoints: convolutions (with bias wherever no batch norm follows), then the norm
        keys, i = set(), 0
        for k in range(c["n"]):
            last = k == c["n"] - 1
            keys |= {f"layers.{i}.weight"} | ({f"layers.{i}.bias"} if last or c["gdn"] else set())
            i += 2 if c["gdn"] else 3
        sd = t.state_dict()
        convs = [n[: -len("weight")] for n, v in sd.items() if n.endswith(".weight") and v.dim() == 4]
        got = {p + w for p in convs for w in ("weight", "bias") if p + w in sd}
        ensure(got == keys, lambda: f"{part} convolutions {sorted(got)}, expected {sorted(keys)}")
    raises(ValueError, lambda: dec(z, keep[:-1]), "too few output sizes")
    raises(ValueError, lambda: dec(z, keep + keep[-1:]), "too many output sizes")
    return Info(c["h"] % 2 or c["w"] % 2, f"n{c['n']}", f"stride{c['s']}")


def unet_reference(sd, x, levels):
    """residual blocks on the way in and out of every level, 2x2 averages down, nearest neighbour up"""
    import torch
    import torch.nn.functional as F

    conv = lambda n, t: F.conv2d(t, sd[n + ".weight"], sd[n + ".bias"], padding=sd[n + ".weight"].shape[-1] // 2)

    def block(n, t):
        return t + conv(n + ".block.3", conv(n + ".block.1", t.clamp(min=0)).clamp(min=0))

    def level(n, t, depth):
        t = block(n + ".input_block", t)
        if depth > 1:
            H, W = t.shape[2:]
            h, w = H // 2, W // 2
            q = t[:, :, : 2 * h, : 2 * w]
            q = (q[:, :, ::2, ::2] + q[:, :, 1::2, ::2] + q[:, :, ::2, 1::2] + q[:, :, 1::2, 1::2]) / 4
            q = level(n + ".child", q, depth - 1)
            iy = torch.tensor([i * h // H for i in range(H)])
            ix = torch.tensor([i * w // W for i in range(W)])
            t = t + q[:, :, iy][:, :, :, ix]
        return block(n + ".output_block", t)

    x = level("model.1", conv("model.0", x), levels)
    return conv("model.2.2", conv("model.2.0", x).clamp(min=0))


@PROP.sub("compensation", lambda: fixed(h=ints(1, 24), w=ints(1, 24), b=ints(1, 3), levels=ints(1, 4), ch=ints(1, 5), k=pick(3, 3, 1, 5), co=pick(3, 3, 1, 4), seed=seeds, wseed=ints(0, 99)), quick=200, thorough=4000)
def compensation(c):
    import torch
    import torch.nn.functional as F
    from neuralcompression.models.deep_video_compression import DVCMotionCompensationModel

    lo = 2 ** (c["levels"] - 1)
    h, w = max(c["h"], lo), max(c["w"], lo)
    seed_all(c["wseed"])
    m = DVCMotionCompensationModel(model_channels=c["ch"], num_levels=c["levels"], **({} if c["k"] == 3 else {"kernel_size": c["k"]}), **({} if c["co"] == 3 else {"out_channels": c["co"]})).double().train(c["wseed"] % 2 == 1)
    a, b = rnd((c["b"], 3, h, w), c["seed"], "normal", torch.float64), rnd((c["b"], 3, h, w), c["seed"] ^ 3, "normal", torch.float64)
    f = rnd((c["b"], 2, h, w), c["seed"] ^ 9, "normal", torch.float64)
    with torch.no_grad():
        for k, p in enumerate(m.parameters()):
            p.mul_(1.0 + 0.5 * (k % 3)).add_(0.05 * rnd(p.shape, c["wseed"] + k, "normal", torch.float64))
        y = m(a, b, f)
        ensure(tuple(y.shape) == (c["b"], c["co"], h, w), f"shape {tuple(y.shape)}")
        ensure({tuple(v.shape[2:]) for n, v in m.state_dict().items() if n in ("model.0.weight", "model.2.0.weight", "model.2.2.weight")} == {(c["k"], c["k"])}, "kernel size")
        e = unet_reference(m.state_dict(), torch.cat((a, b, f), 1), c["levels"])
        close(y, e, 1e-8, 1e-8 * (1 + float(e.abs().max())), "the residual U-Net over reference, warped frame and flow")
        # batch items are independent
        close(m(a[:1], b[:1], f[:1]), y[:1], 1e-9, 1e-9, "an item's compensation depends on its batch mates")
        # every input matters: reference, warped image and flow
        for k, args in enumerate(((-a, b, f), (a, -b, f), (a, b, -f))):
            ensure(c["ch"] < 4 or h * w < 64 or float((m(*args) - y).abs().max()) > 0, f"output ignores input {k}")
    return Info(h % 2 or w % 2 or c["b"] > 1, f"L{c['levels']}")
