"""P19: information content = -log_base(p), reduced as asked."""
import hypothesis.strategies as st
import numpy as np

from ..core import Info, Prop, close, ensure, raises, rnd
from ..gen import DT, fixed, fl, ints, pick, seeds, shapes

PROP = Prop(
    "P19",
    "cases = probability tensors of rank 1-5 (contiguous, permuted, sliced; down to 1e-30, including 1) x base x reduction; "
    "oracle = numpy float64; non-trivial = more than one element and a non-default base or reduction or layout",
)


@PROP.sub(
    "content",
    lambda: fixed(shape=shapes(1, 5, 1, 5), kind=pick("uniform", "tiny", "ones", "mixed"), base=st.one_of(pick(2.0, 2.718281828459045, 10.0, 256.0), fl(1.1, 50)), default_base=st.booleans(),
                  reduction=pick("default", "sum", "batch_el", "none"), layout=pick("plain", "permuted", "sliced"), dtype=pick("float32", "float64"), seed=seeds, grad=st.booleans()),
    quick=1000, thorough=20000,
)
def content(c):
    import torch
    from neuralcompression.functional import information_content

    dt = DT(c["dtype"])
    sh = list(c["shape"])
    gsh = sh[::-1] if c["layout"] == "permuted" else ([2 * s for s in sh] if c["layout"] == "sliced" else sh)
    p = rnd(gsh, c["seed"], "uniform", torch.float64)
    if c["kind"] == "tiny":
        p = 10 ** (-30 * p)
    elif c["kind"] == "ones":
        p = torch.ones_like(p)
    elif c["kind"] == "mixed":
        p = torch.where(p < 0.3, torch.ones_like(p), torch.where(p < 0.5, 1e-9 * p, p))
    p = p.clamp(min=1e-30).to(dt)
    if c["layout"] == "permuted":
        p = p.permute(*range(p.dim() - 1, -1, -1))
    elif c["layout"] == "sliced":
        p = p[tuple(slice(1, None, 2) for _ in sh)]
    p = p.detach().requires_grad_(c["grad"])
    kw = {}
    if c["reduction"] != "default":
        kw["reduction"] = c["reduction"]
    base = 2.0
    if not c["default_base"]:
        base = kw["base"] = c["base"]
    got = information_content(p, **kw)
    e = -np.log(p.detach().double().numpy()) / np.log(base)
    red = "sum" if c["reduction"] == "default" else c["reduction"]
    if red == "sum":
        e = e.sum()
    elif red == "batch_el":
        e = e.reshape(e.shape[0], -1).sum(1)
    close(got, e, 2e-5, 2e-5, f"information content ({red}, base {base})")
    ensure(got.dtype == dt, "dtype changed")
    if c["grad"]:
        got.sum().backward()
        close(p.grad, -1.0 / (p.detach().double().numpy() * np.log(base)), 1e-4, 1e-5, "gradient")
    return Info(p.numel() > 1 and (c["layout"] != "plain" or red != "sum" or not c["default_base"]), red, c["layout"])


@PROP.sub("rejects", lambda: fixed(r=pick("mean", "", "batch", "SUM", "batch_mean", "avg")), quick=10)
def rejects(c):
    import torch
    from neuralcompression.functional import information_content

    raises(ValueError, lambda: information_content(torch.ones(2, 3), reduction=c["r"]), "unknown reduction")
    return Info(True)
