"""P33: learning-rate schedules equal their closed forms at every step, for every group, across restarts."""
import math

import hypothesis.strategies as st

from ..core import Info, Prop, Reject, close, ensure
from ..gen import big, fixed, fl, ints, pick

PROP = Prop(
    "P33",
    "cases = schedule, its parameters, base rates of several parameter groups, optimizer, number of steps, point of "
    "checkpoint and resume; oracle = the closed form at every step; non-trivial = the run crosses a phase boundary or resumes",
)

KINDS = ["identity", "ramp_const_cosine", "ramp_cosine", "vct_ramp_cosine", "vct_ramp_linear", "vct_warm_cosine"]


def strategy():
    return fixed(
        kind=pick(*KINDS), ramp=big(0, 12, 50, 101), cos=big(0, 12, 50, 101), extra=big(0, 12, 50, 101), minv=pick(None, 1e-12, 1e-3, 0.2), eta=pick(None, 0.0, 1e-5, 1e-3),
        lrs=st.lists(fl(1e-4, 2.0), min_size=1, max_size=3), adam=st.booleans(), steps=big(1, 40, 120, 280), resume=st.one_of(st.none(), big(0, 30, 60, 130)),
        named=st.booleans(),
    )


def formula(c, base, e):
    ramp, k = c["ramp"], c["kind"]
    if k == "identity":
        return base
    if k == "ramp_const_cosine":
        mx = c["ramp"] + c["extra"] + c["cos"]
        lo = c["minv"] if c["minv"] is not None else 1e-12
        if e < ramp:
            return base * max(e / ramp, lo)
        cs = e - (mx - c["cos"])
        return base * (max(math.cos(cs / c["cos"] * math.pi / 2), lo) if cs > 0 else 1.0)
    if k == "ramp_cosine":
        mx = max(c["ramp"] + c["extra"], 1)
        lo = c["minv"] if c["minv"] is not None else 1e-12
        if e < ramp:
            return base * max(e / ramp, lo)
        return base * max(math.cos((e - ramp) / mx * math.pi / 2), lo)
    tmax = c["ramp"] + c["extra"] + 2
    eta = c["eta"] or 0.0
    cosine = eta + (base - eta) * (1 + math.cos(math.pi * (e - ramp) / (tmax - ramp - 1))) / 2
    if k == "vct_ramp_cosine":
        return min(cosine, base * (1 + e) / ramp)
    if k == "vct_ramp_linear":
        return base * (1 + e) / ramp if e < ramp else base
    return base if e < ramp else cosine


def build(c, opt):
    from neuralcompression.optim import IdentitySchedule, RampConstCosineLRSchedule, RampCosineLRSchedule
    from projects.torch_vct.utils.schedulers import LinearRampCosineLR, LinearRampLinearLR, LinearWarmUpCosineLR

    k = c["kind"]
    mv = {} if c["minv"] is None else {"min_val": c["minv"]}
    et = {} if c["eta"] is None else {"eta_min": c["eta"]}
    tmax = c["ramp"] + c["extra"] + 2
    if k == "identity":
        return IdentitySchedule(opt)
    if k == "ramp_const_cosine":
        return RampConstCosineLRSchedule(opt, c["ramp"] + c["extra"] + c["cos"], c["ramp"], c["cos"], **mv)
    if k == "ramp_cosine":
        return RampCosineLRSchedule(opt, num_ramp_steps=c["ramp"], num_max_steps=max(c["ramp"] + c["extra"], 1), **mv)
    if k == "vct_ramp_cosine":
        return LinearRampCosineLR(opt, tmax, ramp_len=c["ramp"], **et)
    if k == "vct_ramp_linear":
        return LinearRampLinearLR(opt, tmax, ramp_len=c["ramp"])
    return LinearWarmUpCosineLR(opt, tmax, ramp_len=c["ramp"], **et)


def horizon(c):
    if c["kind"] == "identity":
        return 40
    if c["kind"] == "ramp_const_cosine":
        return c["ramp"] + c["extra"] + c["cos"]
    if c["kind"] == "ramp_cosine":
        return max(c["ramp"] + c["extra"], 1)
    return c["ramp"] + c["extra"] + 1


@PROP.sub("schedules", strategy, quick=1600, thorough=30000)
def schedules(case):
    import torch

    c = dict(case)
    if c["kind"].startswith("vct") and c["ramp"] == 0:
        c["ramp"] = 1
    n = min(c["steps"], horizon(c))
    if n < 0:
        raise Reject

    def optimizer():
        groups = [{"params": [torch.nn.Parameter(torch.ones(2))], "lr": lr} for lr in c["lrs"]]
        o = torch.optim.Adam(groups, lr=0.5) if c["adam"] else torch.optim.SGD(groups, lr=0.5)
        for g in groups:
            for p in g["params"]:
                p.grad = torch.ones_like(p)
        return o

    def check(opt, sch, e):
        for i, (g, base) in enumerate(zip(opt.param_groups, c["lrs"])):
            w = formula(c, base, e)
            close(g["lr"], w, 1e-9, 1e-15, f"{c['kind']} step {e} group {i}")
            close(sch.get_last_lr()[i], w, 1e-9, 1e-15, f"{c['kind']} get_last_lr step {e} group {i}")

    opt = optimizer()
    sch = build(c, opt)
    check(opt, sch, 0)
    resumed = False
    for e in range(1, n + 1):
        if c["resume"] is not None and e == c["resume"] + 1:
            so, ss = opt.state_dict(), sch.state_dict()
            opt = optimizer()
            sch = build(c, opt)
            opt.load_state_dict(so)
            sch.load_state_dict(ss)
            resumed = True
        opt.step()
        sch.step()
        check(opt, sch, e)
    ensure(len(opt.param_groups) == len(c["lrs"]), "parameter groups changed")
    return Info(resumed or n > c["ramp"], c["kind"], "resumed" if resumed else "straight")
