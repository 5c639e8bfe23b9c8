"""P22: normalisation and attention layers compute their documented formulas, position by position."""
import hypothesis.strategies as st

from ..core import Info, Prop, close, ensure, equal, raises, rnd, viewed
from ..gen import DT, big, fixed, fl, ints, pick, seeds

PROP = Prop(
    "P22",
    "cases = (shape, parameters incl. negative / below-threshold values, training histories, input scale); oracle = the "
    "documented formula evaluated in float64 with explicit loops over channels; non-trivial = more than one position and "
    "parameters away from their initial values",
)


def gdn_cases():
    return fixed(b=big(1, 3, 4, 9), c=big(1, 6, 16, 33, 65), h=big(1, 5, 16, 33), w=big(1, 5, 17, 32), seed=seeds, wseed=seeds, scale=pick(0.0, 1e-3, 1.0, 1.0, 30.0),
                 wscale=pick(0.0, 0.3, 2.0), beta_min=pick(1e-6, 1e-3, 0.5), gamma_init=pick(0.0, 0.1, 0.7), inverse=st.booleans(), neg=st.booleans(),
                 steps=ints(0, 3), fresh=st.booleans(), dtype=pick("float32", "float64"))


@PROP.sub("gdn", gdn_cases, quick=500, thorough=12000)
def gdn(c):
    import torch
    from neuralcompression.layers import SimplifiedGDN, SimplifiedInverseGDN

    cls = SimplifiedInverseGDN if c["inverse"] else SimplifiedGDN
    n = c["c"]
    dt = DT(c["dtype"])
    m = cls(n, gamma_init=c["gamma_init"], beta_min=c["beta_min"]).to(dt)
    g0 = m.gamma.detach().double().reshape(n, n)
    close(g0, torch.eye(n, dtype=torch.float64) * c["gamma_init"], 1e-6, 0, "initial gamma")
    equal(m.beta.detach().double(), torch.ones(n, dtype=torch.float64), "initial beta")
    if not c["fresh"]:
        with torch.no_grad():
            g = rnd((n, n), c["wseed"], "normal" if c["neg"] else "uniform", torch.float64, c["wscale"])
            bt = rnd((n,), c["wseed"] + 1, "normal" if c["neg"] else "uniform", torch.float64, 1.0)
            m.gamma.copy_(g.reshape(n, n, 1, 1).to(dt))
            m.beta.copy_(bt.to(dt))
    x = viewed(rnd((c["b"], n, c["h"], c["w"]), c["seed"], "normal", dt, c["scale"]), c["seed"])
    keep = x.clone()

    def ref(xx, gamma, beta):
        gamma = gamma.clamp(min=0.0)
        beta = beta.clamp(min=float(torch.tensor(c["beta_min"], dtype=dt)))
        den = beta[None, :, None, None] + torch.einsum("ij,bjhw->bihw", gamma, xx.abs())
        return xx * den if c["inverse"] else xx / den

    opt = torch.optim.SGD(m.parameters(), lr=0.5)
    for _ in range(c["steps"]):  # a training history: parameters may be pushed out of range at any step
        opt.zero_grad()
        m(x).sum().backward()
        opt.step()
        ensure(all(bool(torch.isfinite(p).all()) for p in m.parameters()) or c["scale"] > 1, "parameters diverged")
    if not all(bool(torch.isfinite(p).all()) for p in m.parameters()):
        return Info(False, "diverged")
    m.train(c["wseed"] % 2 == 0)  # the formula does not depend on the mode
    G = m.gamma.detach().double().reshape(n, n).clone()
    B = m.beta.detach().double().clone()
    xg = x.clone().requires_grad_(True)
    y = m(xg)
    tol = 2e-5 if c["dtype"] == "float32" else 1e-10
    exp = ref(x.double(), G, B)
    mag = float(exp.abs().max()) if exp.numel() else 0.0
    close(y, exp, tol, tol * (1e-3 + mag) * 1e-2, "layer output")
    equal(x, keep, "input modified")
    ensure(y.dtype == dt, "dtype changed")
    # the projection of the parameters
    close(m.gamma.detach().reshape(n, n), G.clamp(min=0), 1e-6, 0, "gamma after the forward pass")
    close(m.beta.detach(), B.clamp(min=float(torch.tensor(c["beta_min"], dtype=dt))), 1e-6, 0, "beta after the forward pass")
    ensure(bool((torch.sign(y) == torch.sign(x)).all()), "the sign of an element changed")
    # gradients of the formula at the projected parameters
    cot = rnd(y.shape, c["seed"] + 5, "normal", dt)
    m.zero_grad()
    (y * cot).sum().backward()
    xd = x.double().clone().requires_grad_(True)
    Gp = G.clamp(min=0).requires_grad_(True)
    Bp = B.clamp(min=float(torch.tensor(c["beta_min"], dtype=dt))).requires_grad_(True)
    den = Bp[None, :, None, None] + torch.einsum("ij,bjhw->bihw", Gp, xd.abs())
    r = xd * den if c["inverse"] else xd / den
    (r * cot.double()).sum().backward()
    gt = 2e-3 if c["dtype"] == "float32" else 1e-8
    for a, e, what in ((xg.grad, xd.grad, "input"), (m.gamma.grad.reshape(n, n), Gp.grad, "gamma"), (m.beta.grad, Bp.grad, "beta")):
        s = float(e.abs().max()) if e.numel() else 0.0
        if s < 1e30:
            close(a, e, gt, gt * (s + 1e-6), f"gradient of {what}")
    return Info(c["h"] * c["w"] > 1 and not c["fresh"] and c["scale"] > 0, "inverse" if c["inverse"] else "forward", f"steps{c['steps']}")


def cn_cases():
    return fixed(b=big(1, 3, 4, 9), c=big(2, 7, 16, 65, 220), h=big(1, 5, 16, 33), w=big(1, 5, 17, 32), seed=seeds, scale=pick(0.0, 1e-2, 1.0, 1.0, 50.0), shift=pick(0.0, 0.0, 3.0),
                 eps=pick(None, 1e-3, 1e-5, 0.1), affine=st.booleans(), train=st.booleans(), kind=pick("normal", "uniform", "const", "levels"))


@PROP.sub("channel_norm", cn_cases, quick=500, thorough=12000)
def channel_norm(c):
    import torch
    from neuralcompression.layers import ChannelNorm2D

    n = c["c"]
    kw = {} if c["eps"] is None else {"epsilon": c["eps"]}
    m = ChannelNorm2D(n, affine=c["affine"], **kw).train(c["train"])
    eps = c["eps"] or 1e-3
    g = b = None
    if c["affine"]:
        ps = dict(m.named_parameters())
        ensure(len(ps) == 2, f"affine parameters {sorted(ps)}")
        equal(m.gamma.detach(), torch.ones(1, n, 1, 1), "initial scale")
        equal(m.beta.detach(), torch.zeros(1, n, 1, 1), "initial shift")
        g, b = rnd((n,), c["seed"] + 1), rnd((n,), c["seed"] + 2)
        with torch.no_grad():
            m.gamma.copy_(g.reshape(1, n, 1, 1))
            m.beta.copy_(b.reshape(1, n, 1, 1))
    else:
        ensure(len(list(m.parameters())) == 0, "parameters without affine")
    x = viewed(rnd((c["b"], n, c["h"], c["w"]), c["seed"], c["kind"], torch.float32, c["scale"]) + c["shift"], c["seed"])
    keep = x.clone()
    y = m(x)
    equal(x, keep, "input modified")
    xd = x.double()
    mean = xd.sum(1, keepdim=True) / n
    var = ((xd - mean) ** 2).sum(1, keepdim=True) / (n - 1)
    e = (xd - mean) / torch.sqrt(var + eps)
    if c["affine"]:
        e = e * g.double().reshape(1, n, 1, 1) + b.double().reshape(1, n, 1, 1)
    close(y, e, 1e-4, 2e-4 * (1 + abs(c["shift"]) + (c["scale"] if c["kind"] == "const" else 0)), "channel normalisation")
    # a position's output depends on that position alone
    i, j, k = c["seed"] % c["b"], c["seed"] % c["h"], c["seed"] % c["w"]
    close(m(x[i : i + 1, :, j : j + 1, k : k + 1]), y[i : i + 1, :, j : j + 1, k : k + 1].detach(), 1e-4, 4e-4 * (1 + abs(c["shift"]) + (c["scale"] if c["kind"] == "const" else 0)), "one position alone")
    close(m(x), y.detach(), 1e-5, 1e-4 * (1 + abs(c["shift"])), "second evaluation")
    return Info(c["h"] * c["w"] > 1 and c["scale"] > 0, "affine" if c["affine"] else "plain")


def xca_cases():
    return fixed(b=big(1, 3, 4, 9), n=big(1, 6, 16, 65), heads=big(1, 4, 8), d=big(1, 4, 8, 16), seed=seeds, wseed=seeds, bias=st.booleans(), temp=st.booleans(),
                 drop=pick(0.0, 0.5), train=st.booleans(), amp=pick(0.2, 1.0, 4.0))


@PROP.sub("xca", xca_cases, quick=300, thorough=6000)
def xca(c):
    import torch
    from neuralcompression.layers import XCA

    dim = c["heads"] * c["d"]
    m = XCA(dim, num_heads=c["heads"], qkv_bias=c["bias"], attn_drop=c["drop"], proj_drop=c["drop"])
    m.train(c["train"] and c["drop"] == 0.0)
    with torch.no_grad():
        for k, p in enumerate(m.parameters()):
            if p.dim() < 3:
                p.copy_(rnd(p.shape, c["wseed"] + k, "normal", scale=c["amp"] / max(dim, 1) ** 0.5))
            elif c["temp"]:
                p.copy_(0.2 + rnd(p.shape, c["wseed"] + k, "uniform") * 4)
    sd = {k: v.double() for k, v in m.state_dict().items()}
    x = viewed(rnd((c["b"], c["n"], dim), c["seed"]), c["seed"])
    keep = x.clone()
    y = m(x).detach()
    equal(x, keep, "input modified")
    W = sd["qkv.weight"]
    bias = sd.get("qkv.bias", torch.zeros(3 * dim, dtype=torch.float64))
    qkv = x.double() @ W.T + bias
    out = torch.zeros(c["b"], c["n"], dim, dtype=torch.float64)
    D = c["d"]
    for b in range(c["b"]):
        for h in range(c["heads"]):
            q = qkv[b, :, h * D : (h + 1) * D]
            k = qkv[b, :, dim + h * D : dim + (h + 1) * D]
            v = qkv[b, :, 2 * dim + h * D : 2 * dim + (h + 1) * D]
            q = q / q.norm(dim=0).clamp(min=1e-12)
            k = k / k.norm(dim=0).clamp(min=1e-12)
            a = torch.softmax((q.T @ k) * sd["temperature"].reshape(-1)[h], dim=-1)  # channels attend to channels
            out[b, :, h * D : (h + 1) * D] = v @ a.T
    e = out @ sd["proj.weight"].T + sd["proj.bias"]
    close(y, e, 2e-4, 2e-4 * (1 + float(e.abs().max())), "cross-covariance attention")
    perm = torch.randperm(c["n"], generator=torch.Generator().manual_seed(c["seed"] % 1000))
    close(m(x[:, perm]).detach(), y[:, perm], 1e-4, 1e-4 * (1 + float(e.abs().max())), "token permutation does not commute with the layer")
    i = c["seed"] % c["b"]
    close(m(x[i : i + 1]).detach(), y[i : i + 1], 1e-4, 1e-4 * (1 + float(e.abs().max())), "batch items influence each other")
    return Info(c["n"] > 1 and dim > 1, f"heads{c['heads']}")


def lat_cases():
    return fixed(b=big(1, 3, 4, 9), cin=big(1, 5, 17), cmid=big(1, 5, 17), h=big(1, 4, 16), w=big(1, 4, 17), seed=seeds, wseed=seeds, nest=pick("none", "normalize", "project", "custom", "vq"),
                 scale=pick(0.0, 1e-8, 1.0, 20.0))


@PROP.sub("latent_wrappers", lat_cases, quick=300, thorough=6000)
def latent_wrappers(c):
    import torch
    from neuralcompression import VqVaeAutoencoderOutput as Out
    from neuralcompression.layers import NormalizeLatent, ProjectLatent, VQBottleneck

    x = viewed(rnd((c["b"], c["cin"], c["h"], c["w"]), c["seed"], scale=c["scale"]), c["seed"])
    marker = torch.tensor(3.25)

    class Spy(torch.nn.Module):
        def forward(self, o):
            self.seen = o.latent.detach().clone()
            o.latent = o.latent * 2 + 1
            o.num_bytes = 77
            return o

    def norm(t):
        t = t.double()
        return t / t.norm(dim=1, keepdim=True).clamp(min=1e-12)

    o = NormalizeLatent()(Out(latent=x.clone(), commitment_loss=marker))
    close(o.latent, norm(x), 1e-5, 1e-6, "normalised latent")
    ensure(o.commitment_loss is marker, "another field changed")
    spy = Spy()
    o = NormalizeLatent(child=spy)(Out(latent=x.clone(), embedding_loss=marker))
    close(spy.seen, norm(x), 1e-5, 1e-6, "what the child sees is not the normalised latent")
    close(o.latent, norm(x) * 2 + 1, 1e-5, 1e-5, "the child's latent is not returned")
    ensure(o.num_bytes == 77 and o.embedding_loss is marker, "the child's fields are lost")
    raises(ValueError, lambda: NormalizeLatent()(Out()), "missing latent")

    child = {"none": None, "normalize": NormalizeLatent(), "project": ProjectLatent(c["cmid"], 3), "custom": spy, "vq": VQBottleneck(4, c["cmid"])}[c["nest"]]
    m = ProjectLatent(c["cin"], c["cmid"], child=child)
    with torch.no_grad():
        for k, p in enumerate(m.parameters()):
            p.copy_(rnd(p.shape, c["wseed"] + k, "normal"))
    sd = {k: v.double() for k, v in m.state_dict().items()}
    o = m(Out(latent=x.clone(), commitment_loss=marker if c["nest"] != "vq" else None))
    lin = lambda t, n: torch.einsum("oi,bihw->bohw", sd[n + ".weight"].reshape(sd[n + ".weight"].shape[:2]), t) + sd[n + ".bias"][None, :, None, None]
    z = lin(x.double(), "input_conv")
    if c["nest"] == "normalize":
        z = norm(z)
    elif c["nest"] == "project":
        z = lin(lin(z, "child.input_conv"), "child.output_conv")
    elif c["nest"] == "custom":
        close(spy.seen, z, 1e-4, 1e-4 * (1 + float(z.abs().max())), "what the child sees is not the projected latent")
        z = z * 2 + 1
    elif c["nest"] == "vq":
        z = z + (rebuild(child, o, z) - z)
        ensure(o.indices is not None and o.num_bytes is not None and o.commitment_loss is not None, "the bottleneck's fields are lost")
    e = lin(z, "output_conv")
    close(o.latent, e, 1e-4, 1e-4 * (1 + float(e.abs().max())), "projected latent")
    ensure(c["nest"] == "vq" or o.commitment_loss is marker, "another field changed")
    return Info(c["scale"] >= 1 and c["h"] * c["w"] > 1, c["nest"])


def rebuild(vq, o, z):
    import torch.nn.functional as F

    b, d, h, w = z.shape
    cb = F.normalize(vq.codebooks[0].detach().double(), dim=1)
    return cb[o.indices.reshape(-1)].reshape(b, h, w, d).permute(0, 3, 1, 2)


@PROP.sub("refusals", lambda: fixed(n=ints(-1, 1)), quick=6, thorough=10, shards=1)
def refusals(c):
    from neuralcompression.layers import ChannelNorm2D

    raises(ValueError, lambda: ChannelNorm2D(c["n"]), "a single channel cannot be normalised")
    return Info(True)
