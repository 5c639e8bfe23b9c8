"""P31: adversarial and distortion losses equal their formulas, with gradients to the right operands."""
import hypothesis.strategies as st

from ..core import Info, Prop, close, ensure, equal, raises, rnd, viewed
from ..gen import fixed, fl, ints, pick, seeds, shapes

PROP = Prop(
    "P31",
    "cases = (logit shapes and magnitudes up to saturation, targets: soft, scalar, label maps of several layouts, wrong shapes and "
    "dtypes); oracle = per-element log-sum-exp formulas in float64; non-trivial = several elements and a non-constant target",
)


def bce_cases():
    return fixed(shape=shapes(1, 4, 1, 5), seed=seeds, scale=pick(0.0, 1.0, 5.0, 60.0), target=pick("ones", "zeros", "soft", "scalar", "scalar_soft", "binary"), dtype=pick("float32", "float64"),
                 bad=ints(1, 5), tval=fl(0.0, 1.0))


def bce(x, t):
    """-t log s(x) - (1-t) log(1-s(x)), stably."""
    import torch

    return (torch.logaddexp(x, torch.zeros_like(x)) - x * t).mean()


@PROP.sub("binary", bce_cases, quick=400, thorough=10000)
def binary(c):
    import torch
    from neuralcompression.loss_fn import BinaryCrossentropyDiscriminatorLoss, BinaryCrossentropyGeneratorLoss

    dt = getattr(torch, c["dtype"])
    real = rnd(c["shape"], c["seed"], "normal", dt, c["scale"]).requires_grad_(True)
    fake = rnd(c["shape"], c["seed"] + 1, "normal", dt, c["scale"]).requires_grad_(True)
    t = {"ones": torch.ones(c["shape"]), "zeros": torch.zeros(c["shape"]), "soft": rnd(c["shape"], c["seed"] + 2, "uniform"), "scalar": torch.tensor(1.0),
         "scalar_soft": torch.tensor(c["tval"]), "binary": rnd(c["shape"], c["seed"] + 2, "binary")}[c["target"]].to(dt)
    kt = t.clone()
    D, G = BinaryCrossentropyDiscriminatorLoss(), BinaryCrossentropyGeneratorLoss()
    d, g = D(real, fake, t), G(fake, t)
    equal(t, kt, "target modified")
    tol = 1e-5 if c["dtype"] == "float32" else 1e-11
    r64, f64 = real.detach().double().requires_grad_(True), fake.detach().double().requires_grad_(True)
    tt = t.double().expand(c["shape"])
    ed = 0.5 * (bce(r64, tt) + bce(f64, torch.zeros_like(tt)))
    eg = bce(f64, tt)
    close(d, ed, tol, tol, "discriminator loss")
    close(g, eg, tol, tol, "generator loss")
    ensure(d.dim() == 0 and g.dim() == 0, "not a scalar")
    gr, gf = torch.autograd.grad(d, (real, fake))
    er, ef = torch.autograd.grad(ed, (r64, f64))
    gt = 1e-5 if c["dtype"] == "float32" else 1e-9
    close(gr, er, 1e-3 if c["dtype"] == "float32" else 1e-6, gt, "gradient of the real logits")
    close(gf, ef, 1e-3 if c["dtype"] == "float32" else 1e-6, gt, "gradient of the fake logits")
    (gg,) = torch.autograd.grad(g, (fake,))
    (eg_,) = torch.autograd.grad(eg, (f64,))
    close(gg, eg_, 1e-3 if c["dtype"] == "float32" else 1e-6, gt, "generator gradient")
    if c["bad"] != len(c["shape"]):
        wrong = torch.ones([1] * c["bad"], dtype=dt)
        raises(ValueError, lambda: D(real, fake, wrong), f"target with {c['bad']} dimensions")
        raises(ValueError, lambda: G(fake, wrong), f"target with {c['bad']} dimensions")
    if t.dim():
        other = torch.cat([fake.detach(), fake.detach()], -1)
        raises(ValueError, lambda: D(real, other, t), "fake logits of another size")
        raises(ValueError, lambda: G(other, t), "target of another size")
    return Info(real.numel() > 1 and c["scale"] > 0, c["target"])


def oasis_cases():
    return fixed(b=ints(1, 3), k=ints(2, 6), h=ints(1, 4), w=ints(1, 4), seed=seeds, scale=pick(0.0, 1.0, 8.0, 60.0), layout=pick("map", "flat", "map4", "batchflat"), bad=pick("ndim", "numel", "dtype", "fake"))


@PROP.sub("oasis", oasis_cases, quick=400, thorough=10000)
def oasis(c):
    import torch
    from neuralcompression.loss_fn import OASISDiscriminatorLoss, OASISGeneratorLoss

    b, k, h, w = c["b"], c["k"], c["h"], c["w"]
    real = rnd((b, k, h, w), c["seed"], "normal", torch.float64, c["scale"]).requires_grad_(True)
    fake = rnd((b, k, h, w), c["seed"] + 1, "normal", torch.float64, c["scale"]).requires_grad_(True)
    lab = torch.randint(0, k - 1, (b, h, w), generator=torch.Generator().manual_seed(c["seed"] % 10**6))
    t = {"map": lab, "flat": lab.reshape(-1), "map4": lab[:, None], "batchflat": lab.reshape(b, -1)}[c["layout"]]
    kt = t.clone()
    D, G = OASISDiscriminatorLoss(), OASISGeneratorLoss()
    d, g = D(real, fake, t), G(fake, t)
    equal(t, kt, "target modified")

    def ce(x, cls):
        tot = 0.0
        for i in range(b):
            for y in range(h):
                for z in range(w):
                    v = x[i, :, y, z]
                    tot = tot + torch.logsumexp(v, 0) - v[int(cls[i, y, z])]
        return tot / (b * h * w)

    ed = 0.5 * (ce(real, lab + 1) + ce(fake, torch.zeros_like(lab)))
    eg = ce(fake, lab + 1)
    close(d, ed, 1e-9, 1e-9, "discriminator loss")
    close(g, eg, 1e-9, 1e-9, "generator loss")
    for a, e, what in zip(torch.autograd.grad(d, (real, fake)), torch.autograd.grad(ed, (real, fake)), ("real", "fake")):
        close(a, e, 1e-7, 1e-9, f"gradient of the {what} logits")
    close(torch.autograd.grad(g, fake)[0], torch.autograd.grad(eg, fake)[0], 1e-7, 1e-9, "generator gradient")
    r = real.detach()
    if c["bad"] == "ndim":
        raises(ValueError, lambda: G(r[0], t), "3-D logits")
        raises(ValueError, lambda: D(r[0], r[0], t), "3-D logits")
    elif c["bad"] == "numel":
        wrong = torch.cat([t.reshape(-1), t.reshape(-1)[:1]])
        raises(ValueError, lambda: G(r, wrong), "target of the wrong size")
        raises(ValueError, lambda: D(r, r, wrong), "target of the wrong size")
    elif c["bad"] == "dtype":
        for q in (torch.int32, torch.float32):
            raises(ValueError, lambda: G(r, t.to(q)), f"{q} target")
            raises(ValueError, lambda: D(r, r, t.to(q)), f"{q} target")
    else:
        raises(ValueError, lambda: D(r, torch.cat([r, r], 3), t), "fake logits of another size")
    return Info(b * h * w > 1 and k > 2, c["layout"])


@PROP.sub("mse", lambda: fixed(shape=shapes(1, 4, 1, 5), seed=seeds, scale=pick(None, 1.0, 0.0, 255.0, 3.5), dtype=pick("float32", "float64")), quick=200, thorough=4000)
def mse(c):
    import torch
    from neuralcompression.loss_fn import MSELoss

    dt = getattr(torch, c["dtype"])
    L = MSELoss() if c["scale"] is None else MSELoss(scale_param=c["scale"])
    s = 255.0**2 if c["scale"] is None else c["scale"]
    x = rnd(c["shape"], c["seed"], "uniform", dt).requires_grad_(True)
    y = rnd(c["shape"], c["seed"] + 1, "uniform", dt).requires_grad_(True)
    v = L(x, y)
    d = (x - y).detach().double()
    n = d.numel()
    tol = 1e-5 if c["dtype"] == "float32" else 1e-12
    close(v, s * float((d**2).sum()) / n, tol, 1e-9, "scaled MSE")
    gx, gy = torch.autograd.grad(v, (x, y))
    close(gx, 2 * s * d / n, 10 * tol, 1e-9, "gradient")
    close(gy, -2 * s * d / n, 10 * tol, 1e-9, "gradient")
    return Info(n > 1 and s > 0)
