"""P21: lower bound clamps values and applies the chosen gradient rule."""
import hypothesis.strategies as st
import numpy as np

from ..core import Info, Prop, close, ensure, equal, raises
from ..gen import DT, fixed, fl, ints, pick, values

PROP = Prop(
    "P21",
    "cases = value arrays (including exact ties with the bound) x bound as float / scalar tensor / per-element tensor x "
    "gradient rule x incoming gradients of either sign; oracle = the three documented rules; non-trivial = some value below the bound",
)


@st.composite
def cases(draw):
    n = draw(ints(1, 12))
    b = draw(fl(-3, 3))
    v = st.one_of(fl(-6, 6), st.just(b), fl(-0.1, 0.1).map(lambda d: b + d))
    return dict(
        x=draw(st.lists(v, min_size=n, max_size=n)), b=b,
        bs=draw(st.lists(fl(-4, 4), min_size=n, max_size=n)),
        g=draw(st.lists(st.one_of(fl(-3, 3), st.just(0.0)), min_size=n, max_size=n)),
        form=draw(pick("float", "scalar", "tensor1", "full", "int")), dtype=draw(pick("float32", "float64")),
        mode=draw(pick("default", "disconnected", "identity", "identity_if_towards")),
        two_d=draw(st.booleans()),
    )


@PROP.sub("rules", cases, quick=900, thorough=20000)
def rules(c):
    import torch
    from neuralcompression.functional import lower_bound

    dt = DT(c["dtype"])
    x = torch.tensor(c["x"], dtype=dt)
    g = torch.tensor(c["g"], dtype=dt)
    if c["form"] == "float":
        bound, bfull = c["b"], torch.full_like(x, c["b"])
    elif c["form"] == "int":
        bound = int(round(c["b"]))
        bfull = torch.full_like(x, bound)
    elif c["form"] == "scalar":
        bound = torch.tensor(c["b"], dtype=dt)
        bfull = torch.full_like(x, c["b"])
    elif c["form"] == "tensor1":
        bound = torch.tensor([c["b"]], dtype=dt)
        bfull = torch.full_like(x, c["b"])
    else:
        bound = torch.tensor(c["bs"], dtype=dt)
        bfull = bound.clone()
    if c["two_d"]:
        x = torch.stack([x, x + 0.25])
        g = torch.stack([g, -g])
        bfull = torch.stack([bfull, bfull])
        if c["form"] == "full":
            bound = bfull.clone()
    x0 = x.clone()
    x.requires_grad_(True)
    kw = {} if c["mode"] == "default" else {"gradient": c["mode"]}
    y = lower_bound(x, bound, **kw)
    equal(y, torch.maximum(x0, bfull), "value")
    equal(x, x0, "input modified")
    ensure(y.dtype == dt, "dtype")
    (gx,) = torch.autograd.grad(y, x, g)
    mode = "identity_if_towards" if c["mode"] == "default" else c["mode"]
    above = x0 >= bfull
    if mode == "identity":
        e = g
    elif mode == "disconnected":
        e = torch.where(above, g, torch.zeros_like(g))
        tie = x0 == bfull  # "reach the bound": either reading of a tie (0, 1/2, 1 of the gradient) is consistent
        e = torch.where(tie, gx, e)
        ensure(bool(((gx.abs() <= g.abs()) | ~tie).all()), "gradient grew at a tie")
    else:
        # below the bound only gradients whose descent step raises x (negative ones) pass
        e = torch.where(above | (g < 0), g, torch.zeros_like(g))
    equal(gx, e, f"gradient rule {mode}")
    return Info(bool((x0 < bfull).any()), mode, c["form"])


@PROP.sub("rejects", lambda: fixed(m=pick("", "none", "Identity", "identity_if_away", "towards")), quick=10)
def rejects(c):
    import torch
    from neuralcompression.functional import lower_bound

    raises(ValueError, lambda: lower_bound(torch.ones(3), 0.5, gradient=c["m"]), "unknown gradient rule")
    return Info(True)
