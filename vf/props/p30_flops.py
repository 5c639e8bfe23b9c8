"""P30: operation counts of a module are the sum over the operations it executes."""
import hypothesis.strategies as st

from ..core import Info, Prop, close, ensure, equal, raises, rnd
from ..gen import fixed, ints, pick, seeds

PROP = Prop(
    "P30",
    "cases = generated straight-line modules (linear, convolution, transposed convolution, matrix products, every documented element-wise operation, in-place "
    "forms, unregistered and ignored operations) over generated shapes, and sequences of counting calls with and without "
    "estimates/overrides; oracle = closed-form count per operation; non-trivial = at least two different counted operations",
)

BASE = ["abs", "add", "div", "mul", "neg", "rsub", "sign", "sub"]
EST = ["erfc", "exp", "log", "log10", "log2", "pow", "reciprocal", "rsqrt", "sigmoid", "softplus", "sqrt", "tanh", "uniform_"]
INPLACE = ["abs_", "add_", "div_", "mul_", "neg_", "sign_", "sub_"]
EST_IN = ["exp_", "log_", "sqrt_", "tanh_", "sigmoid_", "reciprocal_", "rsqrt_", "pow_", "erfc_", "log2_", "log10_"]
FREE = ["relu", "reshape", "empty_like", "numel"]
UNKNOWN = ["cumsum", "sin", "erf", "ceil", "round", "cos", "log1p", "expm1", "sinh", "trunc", "square", "atan", "cosh", "tan"]


def op():
    return st.one_of(
        pick(*BASE), pick(*EST), pick(*INPLACE), pick(*EST_IN), pick(*FREE), pick(*UNKNOWN),
        fixed(lin=ints(1, 5), bias=st.booleans()), fixed(conv=ints(1, 4), k=pick(1, 3), s=pick(1, 2), g=st.booleans(), bias=st.booleans()), fixed(mm=ints(1, 4)),
        fixed(up=ints(1, 4), k=pick(2, 3), s=pick(1, 2)), fixed(grow=st.booleans()),
    )


def build(c):
    """(module, function computing the expected counts)."""
    import torch

    mods = torch.nn.ModuleList()
    plan = []
    shape = [c["b"], c["ch"], c["h"], c["w"]]
    n = lambda s: s[0] * s[1] * s[2] * s[3]
    want, unknown = {}, {}

    def add(k, v):
        want[k] = want.get(k, 0) + v

    for o in c["ops"]:
        if isinstance(o, str):
            plan.append((o, None))
            if o in ("empty_like", "numel"):
                add("add", n(shape))  # the result is added back
            elif o in FREE:
                pass
            elif o in UNKNOWN:
                unknown["aten::" + o] = unknown.get("aten::" + o, 0) + 1
            else:
                add(o, n(shape))
        elif "lin" in o:
            m = torch.nn.Linear(shape[3], o["lin"], bias=o["bias"])
            add("linear", n(shape) * o["lin"])
            shape = shape[:3] + [o["lin"]]
            mods.append(m)
            plan.append(("mod", len(mods) - 1))
        elif "conv" in o:
            if min(shape[2:]) < o["k"]:
                continue
            g = shape[1] if o["g"] else 1
            co = o["conv"] * g
            m = torch.nn.Conv2d(shape[1], co, o["k"], stride=o["s"], groups=g, bias=o["bias"])
            out = [(shape[2] - o["k"]) // o["s"] + 1, (shape[3] - o["k"]) // o["s"] + 1]
            add("conv", shape[0] * co * (shape[1] // g) * o["k"] ** 2 * out[0] * out[1])
            shape = [shape[0], co] + out
            mods.append(m)
            plan.append(("mod", len(mods) - 1))
        elif "up" in o:
            m = torch.nn.ConvTranspose2d(shape[1], o["up"], o["k"], stride=o["s"])
            add("conv", n(shape) * o["up"] * o["k"] ** 2)
            shape = [shape[0], o["up"], (shape[2] - 1) * o["s"] + o["k"], (shape[3] - 1) * o["s"] + o["k"]]
            mods.append(m)
            plan.append(("mod", len(mods) - 1))
        elif "mm" in o:
            plan.append(("mm", o["mm"]))
            add("matmul", n(shape) * o["mm"])
            shape = shape[:3] + [o["mm"]]
        elif "grow" in o:  # broadcasting: an operation costs its output, not its inputs
            plan.append(("grow", None))
            shape = [shape[0], shape[1], shape[2] * 1, shape[3] * 1]
            if shape[0] == 1:
                shape = [2] + shape[1:]
            add("add", n(shape))

    class M(torch.nn.Module):
        def __init__(self):
            super().__init__()
            self.mods = mods
            self.drop = torch.nn.Dropout(0.5)

        def forward(self, x):
            for k, v in plan:
                if k == "mod":
                    x = self.mods[v](x)
                elif k == "mm":
                    x = x @ torch.ones(x.shape[-1], v)
                elif k == "grow":
                    x = x + torch.ones(2 if x.shape[0] == 1 else x.shape[0], 1, 1, 1)
                elif k == "rsub":
                    x = 1 - x
                elif k == "softplus":
                    x = torch.nn.functional.softplus(x)
                elif k in ("add", "sub", "mul", "div"):
                    x = getattr(x, k)(2.0)
                elif k in ("add_", "sub_", "mul_", "div_"):
                    x = getattr(x, k)(2.0)
                elif k in ("pow", "pow_"):
                    x = getattr(x, k)(2)
                elif k == "uniform_":
                    x = x.uniform_()
                elif k == "reshape":
                    x = x.reshape(x.shape)
                elif k == "empty_like":
                    x = x + torch.empty_like(x)
                elif k == "numel":
                    x = x + x.numel()
                elif k == "cumsum":
                    x = x.cumsum(0)
                else:
                    x = getattr(x, k)()
            return x

    return M(), want, unknown


def cases():
    call = fixed(est=st.booleans(), over=st.lists(pick("add", "exp", "sin", "mul", "conv"), max_size=2, unique=True), as_list=st.booleans(), val=pick(0, 7, 1234))
    return fixed(b=pick(1, 2, 3), ch=ints(1, 3), h=ints(1, 6), w=ints(1, 6), ops=st.lists(op(), min_size=1, max_size=7), calls=st.lists(call, min_size=1, max_size=3), train=st.booleans())


@PROP.sub("programs", cases, quick=600, thorough=8000)
def programs(c):
    import logging
    import torch
    import neuralcompression.functional as ncF

    logging.disable(logging.CRITICAL)
    try:
        m, want, unknown = build(c)
        m.train(c["train"])
        for p in m.parameters():
            p.requires_grad_(False)
        sd = {k: v.clone() for k, v in m.state_dict().items()}
        x = rnd((c["b"], c["ch"], c["h"], c["w"]), 3, "uniform")
        for k in c["calls"]:
            over = {}
            for name in k["over"]:
                full = "aten::_convolution" if name == "conv" else "aten::" + name
                over[full] = (lambda v: lambda i, o: v)(k["val"])
            total, by_op, unsup = ncF.count_flops(m, [x.clone()] if k["as_list"] else (x.clone(),), counter_overrides=over or None, **({"use_single_flop_estimates": True} if k["est"] else {}))
            exp, miss = {}, dict(unknown)
            for o, v in want.items():
                base = o
                times = sum(1 for q in c["ops"] if q == o)
                if base in EST + EST_IN and not k["est"] and "aten::" + base not in over:
                    miss["aten::" + base] = times
                else:
                    exp[base] = v
            plan_counts = {}
            for name in k["over"]:
                times = {"add": count_add(c), "conv": sum(1 for q in m.mods if not isinstance(q, torch.nn.Linear))}.get(name, sum(1 for q in c["ops"] if q == name))
                if times:
                    exp[name] = times * k["val"]
                    miss.pop("aten::" + name, None)
            e = sum(exp.values())
            ensure(total == e, f"total {total} != {e}; by operator {by_op}; expected {exp}")
            ensure(sum(by_op.values()) == total, "the breakdown does not add up to the total")
            got = {}
            for q, v in by_op.items():
                q = q.split("::")[-1]
                q = {"_convolution": "conv"}.get(q, q)
                got[q] = got.get(q, 0) + v
            ensure({q: v for q, v in got.items() if v} == {q: v for q, v in exp.items() if v}, f"breakdown {got} != {exp}")
            ensure({q: v for q, v in dict(unsup).items() if v} == {q: v for q, v in miss.items() if v}, f"unsupported {dict(unsup)} != {miss}")
            ensure(m.training == c["train"] and m.drop.training == c["train"], "counting changed the module's mode")
            for n_, v in m.state_dict().items():
                equal(v, sd[n_], f"counting changed {n_}")
    finally:
        logging.disable(logging.NOTSET)
    return Info(len(want) > 1, f"calls{len(c['calls'])}")


def count_add(c):
    return sum(1 for q in c["ops"] if q in ("add", "empty_like", "numel") or (isinstance(q, dict) and "grow" in q))
