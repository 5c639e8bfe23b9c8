"""P38: VCT frame transforms treat frames independently, divide sizes by 16, restore them, and chunking changes nothing."""
import hypothesis.strategies as st

from ..core import Info, Prop, close, ensure, equal, raises, rnd, seed_all, viewed
from ..gen import big, ints, pick, seeds
from .. import vct

PROP = Prop(
    "P38",
    "cases = transform family, widths, residual blocks, chunk size, batch, clip length, frame size (any >= 1); oracle = "
    "frame-by-frame evaluation; non-trivial = several frames and a size not divisible by 16",
    preload=lambda: (vct.ensure_path(), __import__("neural.transforms")),
)


@st.composite
def cases(draw):
    B, T = draw(big(1, 3, 4, 6)), draw(big(1, 4, 6, 9))
    divs = [d for d in range(1, B * T + 1) if (B * T) % d == 0]
    return dict(kind=draw(pick("gdn", "elic")), B=B, T=T, h=draw(ints(1, 70)), w=draw(ints(1, 70)), n=draw(ints(2, 6)),
                C=draw(ints(2, 6)), res=draw(ints(1, 2)), mf=draw(st.one_of(st.none(), pick(*divs), st.just(B * T + 1))), wseed=draw(ints(0, 50)), seed=draw(seeds))


def make(c, mf):
    vct.ensure_path()
    import neural.transforms as T

    seed_all(c["wseed"])
    if c["kind"] == "gdn":
        return T.ConvGDNAnalysis(c["n"], c["C"]).train(c["wseed"] % 2 == 1), T.ConvGDNSynthesis(c["n"], c["C"]).train(c["wseed"] % 2 == 1)
    n = c["n"]
    a = T.ELICAnalysis(c["res"], [n, n + 1, n + 2, c["C"]], max_frames=mf).train(c["wseed"] % 2 == 1)
    s = T.ELICSynthesis(c["res"], [c["C"], n + 1, n, 3], max_frames=mf).train(c["wseed"] % 2 == 1)
    return a, s


@PROP.sub("transforms", cases, quick=250, thorough=4000)
def transforms(c):
    import torch

    a, s = make(c, c["mf"])
    B, T, h, w = c["B"], c["T"], c["h"], c["w"]
    x = viewed(rnd((B, T, 3, h, w), c["seed"], "uniform"), c["seed"])
    keep = x.clone()
    with torch.no_grad():
        y = a(x)
        hl, wl = -(-h // 16), -(-w // 16)
        ensure(tuple(y.shape) == (B, T, c["C"], hl, wl), f"latent {tuple(y.shape)} for {h}x{w}")
        equal(x, keep, "analysis modified the clip")
        z = viewed(rnd(y.shape, c["seed"] + 1, "normal"), c["seed"] // 5)
        kz = z.clone()
        r = s(z, x.shape)
        ensure(tuple(r.shape) == tuple(x.shape), f"synthesis {tuple(r.shape)} for {tuple(x.shape)}")
        equal(z, kz, "synthesis modified the latents")
        ensure(a.compression_channels == c["C"] and s.compression_channels == c["C"], "reported compression channels")
        if c["kind"] == "gdn":
            ensure(2 ** a.num_downsampling_layers == 16, "reported down-sampling")
        a1, s1 = make(c, None)
        full = torch.Size((1, 1, 3, 16 * hl, 16 * wl))
        for b in range(B):
            for t in range(T):
                close(y[b : b + 1, t : t + 1], a1(x[b : b + 1, t : t + 1]), 1e-4, 1e-5, f"latent of frame {(b, t)}")
                ref = s1(z[b : b + 1, t : t + 1], full)
                ensure(tuple(ref.shape) == tuple(full), "synthesis does not enlarge by 16")
                close(r[b : b + 1, t : t + 1], ref[..., :h, :w], 1e-4, 1e-5, f"reconstruction of frame {(b, t)}")
    raises((AssertionError, ValueError), lambda: a(x[0]), "4-D clip accepted")
    return Info(B * T > 1 and (h % 16 or w % 16), c["kind"], "chunk" if c["mf"] else "whole")


@PROP.sub("config", cases, quick=60, thorough=300)
def config(c):
    vct.ensure_path()
    import neural.transforms as T

    n = c["n"]
    raises(ValueError, lambda: T.ELICAnalysis(1, [n, n, n]), "three widths accepted")
    raises(ValueError, lambda: T.ELICSynthesis(1, [n, n, 3]), "three widths accepted")
    raises(ValueError, lambda: T.ELICAnalysis(1, [n, n, n, c["C"]], compression_channels=c["C"] + 1), "contradictory channels accepted")
    raises(ValueError, lambda: T.ELICSynthesis(1, [n, n, n, 3], output_channels=4), "contradictory channels accepted")
    m = T.ELICAnalysis(1, [n, n, n, c["C"]], compression_channels=c["C"])
    ensure(m.compression_channels == c["C"], "compression channels")
    if c["B"] * c["T"] > 2:
        import torch

        a, _ = make(dict(c, kind="elic"), c["B"] * c["T"] - 1)
        with torch.no_grad():
            raises((AssertionError, ValueError, RuntimeError), lambda: a(rnd((c["B"], c["T"], 3, 16, 16), 1)), "an indivisible chunk size was accepted")
    return Info(True)
