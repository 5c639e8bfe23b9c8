"""P39: bits-back coding with a hierarchical latent variable model is lossless, and its books balance."""
import contextlib
import copy
import io
import math
import os

import hypothesis.strategies as st
import numpy as np

from .. import cray, stubs
from ..core import Info, Prop, close, ensure, raises, seed_all
from ..gen import fixed, fl, ints, pick, seeds
from ..scratch import scratch

PROP = Prop(
    "P39",
    "cases = hierarchical Gaussian models (toy and diffusion) x data shapes, ranges and precisions x histories of encode, decode, checkpoint-and-restore; "
    "crash points of the encoding script; timestep spacings; oracle = a stack of the encoded batches and of the message bytes, closed-form Gaussian bin "
    "masses, and the data set itself for the script; non-trivial = at least two batches on the stack, a restore or a crash",
    assumptions=["craystack's codecs pop what they pushed (numpy stand-in)", "improved_diffusion, hydra, omegaconf, plotly and wandb are stand-ins"],
)


def toy(c, mod):
    """A hierarchical model with deterministic, rounded parameters."""
    shape, steps = tuple(c["shape"]), c["steps"]
    r = np.random.RandomState(c["mseed"] % 2**31)
    w, b = r.uniform(-1, 1, (steps + 1, 2) + shape), r.uniform(-1, 1, (steps + 1, 2) + shape)
    s = np.exp(r.uniform(-c["spread"], 0.5, (steps + 1, 2) + shape))

    class Toy(mod.BaseHLVModel):
        def __init__(self):
            super().__init__(steps=steps)
            self.calls = []

        def infer_fn(self, data):
            self.calls.append(np.array(data))
            return mod.GaussianParams(mean=np.round(0.7 * data + 0.1 * b[steps, 0], 6), stdd=np.round(s[steps, 0], 6) + 1e-3)

        def generate_fn(self, latent, step, data=None):
            k = 0 if data is None else 1
            mean = np.tanh(w[step, k] * latent + b[step, k])
            if data is not None:
                mean = 0.5 * mean + 0.5 * data
            return mod.GaussianParams(mean=np.round(mean, 6), stdd=np.round(s[step, k], 6) + 1e-3)

    return Toy()


def net():
    import torch

    class Net(torch.nn.Module):
        def __init__(self):
            super().__init__()
            self.lin = torch.nn.Parameter(torch.tensor([0.3, 0.01]))

        def forward(self, x, t, **kw):
            return (x * self.lin[0] + t.reshape(-1, 1, 1, 1).float() * self.lin[1]).sin()

    return Net().eval()


def diffusion_model(c, mod):
    betas = np.linspace(0.02, 0.3, c["steps"])
    return mod.DiffusionModel(model=net(), diffusion=cray.GaussianDiffusion(betas=betas), use_log_variance=c["logvar"], clip_denoised=c["clip"])


def setups():
    return dict(
        shape=st.tuples(ints(1, 2), ints(1, 3), ints(1, 2), ints(1, 3)).map(list), steps=ints(1, 4), mseed=seeds, spread=pick(0.5, 2.0, 5.0), kind=pick("toy", "toy", "diffusion"),
        logvar=st.booleans(), clip=st.booleans(), prior=pick(2, 4, 8, 10), lat_extra=pick(4, 8), prec=pick(1, 2, 4, 8, 8), obs_extra=pick(8, 12, 16), lim=pick([-1.0, 1.0], [-1.0, 1.0], [0.0, 1.0], [-2.0, 3.0]),
        track=st.booleans(), default=st.booleans(), nseed=seeds,
    )


def make(c, mod, track=None):
    seed_all(c["nseed"] % 10**6)
    np.random.seed(c["nseed"] % 2**31)
    m = diffusion_model(c, mod) if c["kind"] == "diffusion" else toy(c, mod)
    n = int(np.prod(c["shape"]))
    kw = dict(latent_prec=c["prior"] + c["lat_extra"], prior_prec=c["prior"], obs_prec=c["prec"] + c["obs_extra"], data_prec=c["prec"])
    if c["default"]:
        kw = dict(data_prec=c["prec"])
        c = dict(c, prior=10, lat_extra=8)
    kw["initial_len"] = 2 * n + n * c["steps"] * (c["prior"] + c["lat_extra"]) // 16 + 40
    return mod.BitsBackCodec(model=m, data_shape=tuple(c["shape"]), data_min=c["lim"][0], data_max=c["lim"][1], track=c["track"] if track is None else track, **kw)


def batch(c, seed):
    r = np.random.RandomState(seed % 2**31)
    hi = (1 << c["prec"]) - 1
    return {0: lambda: r.randint(0, hi + 1, c["shape"]), 1: lambda: r.choice([0, hi], c["shape"]), 2: lambda: np.full(c["shape"], r.randint(0, hi + 1))}[seed % 3]().astype(np.int32)


def through_file(state):
    buf = io.BytesIO()
    np.savez(buf, **state)
    buf.seek(0)
    return np.load(buf)


def strat_history():
    op = st.one_of(seeds.map(lambda s: {"enc": s}), seeds.map(lambda s: {"enc": s}), st.just({"dec": 1}), st.just({"dec": 1}), seeds.map(lambda s: {"restore": s}), st.just({"reload": 1}),
                   pick("low", "high", "shape", "swap").map(lambda k: {"bad": k}))
    return fixed(ops=st.lists(op, min_size=2, max_size=8), **setups())


@PROP.sub("lossless", strat_history, quick=220, thorough=4000)
def lossless(c):
    mod = cray.load("codec")
    codec = make(c, mod)
    size = int(np.prod(c["shape"]))
    first = codec.flat_message.nbytes
    ensure(codec.initial_bytes == first, "initial size")
    stack, flats, restored = [], [codec.flat_message.copy()], 0
    ops = list(c["ops"]) + [{"dec": 1}] * 9
    extra = None

    def books(when):
        ensure(int(codec.data_count) == len(stack), lambda: f"{when}: data_count {codec.data_count} with {len(stack)} batches on the message")
        flat = codec.flat_message
        ensure(flat.dtype == np.uint32 and np.array_equal(flat, flats[-1]), lambda: f"{when}: the message is not what it was at this depth ({flat.nbytes} bytes, {flats[-1].nbytes} before)")
        if c["track"]:
            net_ = int(codec.push_bytes.sum()) - int(codec.pop_bytes.sum())
            ensure(net_ == flat.nbytes - first, lambda: f"{when}: tracked pushes minus pops are {net_} bytes, the message grew by {flat.nbytes - first}")
            ensure(len(codec.push_bytes) == len(codec.pop_bytes) == c["steps"] + 1, "one entry per step")
        if stack:
            s = codec.statistics()
            bpd = lambda nb: 8 * nb / (len(stack) * size)
            ensure(int(s.samples) == len(stack) * c["shape"][0], lambda: f"{when}: {s.samples} samples")
            close(s.rate_total, bpd(flat.nbytes), 1e-9, 1e-9, "total rate")
            close(s.rate_effective, bpd(flat.nbytes - first), 1e-9, 1e-9, "effective rate")
            close(s.rate_used, bpd(flat.nbytes - first + extra), 1e-9, 1e-9, "used rate")
            if c["track"]:
                close(s.rate_effective_push, bpd(codec.push_bytes.astype(float)), 1e-9, 1e-9, "pushed rate per step")
                close(s.rate_effective_pop, bpd(codec.pop_bytes.astype(float)), 1e-9, 1e-9, "popped rate per step")
            else:
                ensure(s.rate_effective_push is None and s.rate_effective_pop is None, "untracked codec reports rates per step")

    for i, o in enumerate(ops):
        if "enc" in o:
            x = batch(c, o["enc"])
            keep = x.copy()
            if not stack:  # what the first batch borrows from the initial message
                twin = make(c, mod, track=True)
                twin.load_state_dict({"flat_message": codec.flat_message.copy()})
                twin.encode(x)
                extra = int(twin.pop_bytes.sum())
                ensure(int(twin.pop_bytes[0]) == 0, "encoding pops data")
            r = codec.encode(x)
            ensure(np.array_equal(x, keep), "the batch was modified")
            if c["kind"] == "toy":  # the levels span the model's data range, ends included
                lo, hi = c["lim"]
                close(codec.model.calls[-1], lo + keep * (hi - lo) / ((1 << c["prec"]) - 1), 1e-6, 1e-6, "data given to the model for the levels of the batch")
            stack.append(keep)
            flats.append(codec.flat_message.copy())
            ensure(np.array_equal(cray.flatten(r), flats[-1]), "encode returns another message than it keeps")
            if len(stack) == 1:
                ensure(int(codec.extra_bytes) == extra, lambda: f"extra bytes {codec.extra_bytes}, the first batch popped {extra}")
                ensure(np.array_equal(flats[-1], twin.flat_message), "the message depends on the tracking flag")
        elif "dec" in o:
            if not stack:
                continue
            r, y = codec.decode()
            want = stack.pop()
            flats.pop()
            ensure(np.shape(y) == tuple(c["shape"]) and np.array_equal(np.asarray(y).astype(np.int64), want), lambda: f"operation {i}: decoded batch differs from the encoded one at {int((np.asarray(y).astype(np.int64) != want).sum())} of {size} places")
            ensure(np.array_equal(cray.flatten(r), codec.flat_message), "decode returns another message than it keeps")
        elif "bad" in o:
            x = batch(c, 3)
            if o["bad"] == "low":
                x.reshape(-1)[-1] = -1
            elif o["bad"] == "high":
                x.reshape(-1)[0] = 1 << c["prec"]
            elif o["bad"] == "shape":
                x = np.concatenate([x, x])
            else:
                x = x.transpose(0, 1, 3, 2)
                if x.shape == tuple(c["shape"]):
                    continue
            raises(ValueError, lambda: codec.encode(x), f"batch with bad {o['bad']}")
        elif "reload" in o:
            codec.load_state_dict(through_file(codec.state_dict()))
        else:  # a new process takes over from the saved state
            state = through_file(codec.state_dict())
            codec = make(dict(c, nseed=o["restore"]), mod)
            codec.load_state_dict(state)
            restored += 1
        books(f"after {o}")
    ensure(not stack and np.array_equal(codec.flat_message, flats[0]), "the message is not back to its start")
    n = sum("enc" in o for o in c["ops"])
    return Info(n >= 2 or (n and restored), c["kind"], "restored" if restored else "straight", f"steps{c['steps']}")


# ----------------------------------------------------------------- data and bins


@PROP.sub("quantize", lambda: fixed(u=st.lists(fl(0, 1), min_size=1, max_size=12), dtype=pick("float32", "float64"), **setups()), quick=200, thorough=4000)
def quantize(c):
    mod = cray.load("codec")
    codec = make(dict(c, kind="toy", steps=1), mod)
    n, (lo, hi) = (1 << c["prec"]) - 1, c["lim"]
    dt = np.dtype(c["dtype"])
    k = np.arange(n + 1)
    grid = (lo + k * (hi - lo) / n).astype(dt)
    q = codec.quantize(grid)
    ensure(np.issubdtype(q.dtype, np.integer) and np.array_equal(q, k), lambda: f"level {k[np.argmax(q != k)]} of {n} quantises to {q[np.argmax(q != k)]}")
    x = (lo + np.array(c["u"]) * (hi - lo)).astype(dt).clip(lo, hi)
    q = codec.quantize(x)
    ensure(bool((q >= 0).all() and (q <= n).all()), lambda: f"{q} outside 0..{n}")
    err = np.abs(lo + q * (hi - lo) / n - x.astype(float))
    ensure(bool((err <= (hi - lo) / n * 0.5001 + 1e-6).all()), lambda: f"value {x[np.argmax(err)]} quantised to level {q[np.argmax(err)]} of {n}")
    return Info(n > 1, c["dtype"])


def bits(codec, x, shape):
    """Ideal code length of every entry, measured by pushing onto a roomy head."""
    head = np.full(shape, np.uint64(1) << np.uint64(37), dtype=np.uint64)
    (h2, tail) = codec.push((head, ()), x)[0]
    return np.log2(h2.astype(float)) - 37.0, tail


@st.composite
def strat_bins(draw):
    n = draw(ints(1, 6))
    prec = draw(pick(1, 2, 3, 5, 8))
    return dict(
        mean=draw(st.lists(st.one_of(fl(-1.2, 1.2), fl(-6, 6), st.just(0.0)), min_size=n, max_size=n)), ls=draw(st.lists(st.one_of(fl(-2, 1), fl(-14, 3)), min_size=n, max_size=n)), prec=prec,
        coding=draw(ints(prec + 8, 24)), seed=draw(seeds), rows=draw(ints(1, 3)), lim=draw(pick("unit", "unit", "other", "array")), f32=draw(st.booleans()),
    )


@PROP.sub("bins", strat_bins, quick=250, thorough=5000)
def bins(c):
    """The observation codec: lossless for every symbol; code lengths follow the Gaussian mass of its uniform bins."""
    mod = cray.load("codec")
    dt = np.float32 if c["f32"] else np.float64
    mean, std = np.array(c["mean"], dtype=dt), np.exp(np.array(c["ls"])).astype(dt)
    mean, std = np.broadcast_to(mean, (c["rows"], len(mean))).copy(), np.broadcast_to(std, (c["rows"], len(std))).copy()
    lo, hi = {"unit": (-1.0, 1.0), "other": (-2.0, 3.0), "array": (np.linspace(-2, -1, mean.shape[1]), np.linspace(1, 3, mean.shape[1]))}[c["lim"]]
    codec = mod.diag_gaussian_unif_bins(mean=mean, stdd=std, data_min=lo, data_max=hi, coding_prec=c["coding"], bin_prec=c["prec"])
    n = 1 << c["prec"]
    r = np.random.RandomState(c["seed"] % 2**31)
    xs = [r.randint(0, n, mean.shape), np.zeros(mean.shape, int), np.full(mean.shape, n - 1)]
    msg = cray.random_message(8 * mean.size + 50, mean.shape, r)
    flats = []
    for x in xs:
        flats.append(cray.flatten(msg))
        (msg,) = codec.push(msg, x)
    for x in reversed(xs):
        msg, y = codec.pop(msg)
        ensure(np.array_equal(np.asarray(y).astype(np.int64), x), "a symbol decodes to another one")
        ensure(np.array_equal(cray.flatten(msg), flats.pop()), "popping does not restore the message")
    if c["lim"] != "unit":
        return Info(n > 2, c["lim"])
    from scipy.special import ndtr

    w = 2 / (n - 1)
    syms = sorted({0, n - 1, *r.randint(0, n, 4).tolist()})
    m64, s64 = mean.astype(float), std.astype(float)
    total = 0
    for s in syms:
        a = -np.inf if s == 0 else -1 + (s - 0.5) * w
        b = np.inf if s == n - 1 else -1 + (s + 0.5) * w
        p = ndtr((b - m64) / s64) - ndtr((a - m64) / s64)
        L, _ = bits(codec, np.full(mean.shape, s), mean.shape)
        f = 2.0 ** (c["coding"] - L)  # frequency out of 2^coding
        want = p * 2.0 ** c["coding"]
        slack = 1.6 + 1e-3 * want + 2e-6 * 2.0 ** c["coding"] / np.maximum(s64, 1e-3) * (1 if c["f32"] else 0)
        top = want >= 0.5 * 2.0 ** c["coding"] / n  # the most likely bin absorbs all rounding
        slack = slack + np.where(top, n, 0)
        bad = (np.abs(f - want) > slack) & (f > 1.5)
        bad |= (f <= 1.5) & (want > 3 + slack)
        ensure(not bad.any(), lambda: f"symbol {s} of {n}: frequency {f[bad][0]:.2f} of 2^{c['coding']}, its Gaussian mass is {want[bad][0]:.2f} (mean {m64[bad][0]}, std {s64[bad][0]})")
    return Info(n > 2, c["lim"])


@PROP.sub("clip", lambda: fixed(floor=pick(1e-6, 1e-3, 0.5), below=pick(0.0, 0.5, 0.999), **setups()), quick=60, thorough=900)
def clip(c):
    """A likelihood with a vanishing standard deviation is floored, so data far off the mean still codes."""
    mod = cray.load("codec")
    shape = tuple(c["shape"])

    class Sharp(mod.BaseHLVModel):
        low = 0.0

        def infer_fn(self, data):
            return mod.GaussianParams(mean=0.5 * data, stdd=np.full(shape, 0.5))

        def generate_fn(self, latent, step, data=None):
            return mod.GaussianParams(mean=np.zeros(shape), stdd=np.full(shape, self.low if step == 0 else 0.7))

    n = int(np.prod(shape))
    x = batch(c, c["mseed"])
    sizes = []
    for low in (c["floor"] * c["below"], c["floor"]):
        np.random.seed(c["nseed"] % 2**31)
        model = Sharp(steps=c["steps"])
        model.low = low
        codec = mod.BitsBackCodec(model=model, data_shape=shape, data_prec=c["prec"], initial_len=2 * n + n * c["steps"] * 2 + 40, clip_stdd=c["floor"])
        start = codec.flat_message.copy()
        codec.encode(x)
        sizes.append(codec.flat_message.copy())
        _, y = codec.decode()
        ensure(np.array_equal(np.asarray(y).astype(np.int64), x) and np.array_equal(codec.flat_message, start), "not lossless with a vanishing standard deviation")
    ensure(np.array_equal(sizes[0], sizes[1]), "a standard deviation below the floor is not coded like the floor")
    return Info(True)


# ----------------------------------------------------------------- the diffusion model


@PROP.sub("parameters", lambda: fixed(b=ints(1, 3), steps=ints(1, 6), step=ints(0, 5), seed=seeds, logvar=pick(True, False, None), clip=pick(True, False, None), f64=st.booleans(), device=st.booleans(), size=pick(1.0, 1.0, 1e-14, 1e-6, 1e6)), quick=150, thorough=2500)
def parameters(c):
    """DiffusionModel hands the process the right arguments and returns its mean and standard deviation."""
    import torch

    mod = cray.load("codec")
    calls = []
    q = c["size"]

    class D(cray.GaussianDiffusion):
        """Inconsistent variances tell which of the two is used."""

        def q_mean_variance(self, x_start, t):
            calls.append(("q", x_start, t))
            return x_start * 2, torch.full_like(x_start, 4.0 * q), torch.full_like(x_start, math.log(9.0 * q))

        def q_posterior_mean_variance(self, x_start, x_t, t):
            calls.append(("post", x_start, x_t, t))
            return x_start + 3 * x_t, torch.full_like(x_t, 0.25 * q), torch.full_like(x_t, math.log(16.0 * q))

        def p_mean_variance(self, model, x, t, clip_denoised=True, denoised_fn=None, model_kwargs=None):
            calls.append(("p", x, t, clip_denoised, torch.is_grad_enabled(), model))
            return {"mean": x - model.lin[0].detach(), "variance": torch.full_like(x, 36.0 * q), "log_variance": torch.full_like(x, math.log(49.0 * q)), "pred_xstart": x}

    m = net()
    kw = {}
    if c["logvar"] is not None:
        kw["use_log_variance"] = c["logvar"]
    if c["clip"] is not None:
        kw["clip_denoised"] = c["clip"]
    if c["device"]:
        kw["device"] = "cpu"
    d = mod.DiffusionModel(model=m, diffusion=D(betas=np.linspace(0.1, 0.2, c["steps"])), **kw)
    ensure(d.steps == c["steps"], f"{d.steps} steps")
    r = np.random.RandomState(c["seed"] % 2**31)
    dt = np.float64 if c["f64"] else np.float32
    data, lat = r.uniform(-1, 1, (c["b"], 2, 2, 1)).astype(dt), r.randn(c["b"], 2, 2, 1).astype(dt)
    lv = bool(c["logvar"])
    k = c["step"] % c["steps"]

    def check(p, mean, sd, name):
        ensure(isinstance(p.mean, np.ndarray) and isinstance(p.stdd, np.ndarray), "not numpy arrays")
        close(p.mean, mean, 1e-5, 1e-6, f"{name} mean")
        close(p.stdd, np.full(mean.shape, sd * math.sqrt(q)), 1e-5, 0, f"{name} standard deviation")

    def args(want, name, *arrs):
        ensure(len(calls) == 1 and calls[0][0] == want, lambda: f"{name}: called {[x[0] for x in calls]}")
        for a, e in zip(calls[0][1:], arrs):
            ensure(a.dtype == (torch.long if e is t else torch.float32) and tuple(a.shape) == e.shape, lambda: f"{name}: {a.dtype} {tuple(a.shape)}")
            close(a, e, 1e-6, 1e-7, f"{name}: argument")

    t = np.full(c["b"], c["steps"] - 1)
    check(d.infer_fn(data), 2 * data, 3.0 if lv else 2.0, "q(z_T|x)")
    args("q", "infer", data, t)
    calls.clear()
    t = np.full(c["b"], k)
    check(d.generate_fn(lat, k, data), data + 3 * lat, 4.0 if lv else 0.5, "posterior")
    args("post", "posterior", data, lat, t)
    calls.clear()
    check(d.generate_fn(lat, k), lat - 0.3, 7.0 if lv else 6.0, "prior")
    args("p", "prior", lat, t)
    ensure(calls[0][3] == (True if c["clip"] is None else c["clip"]), "clip_denoised not passed on")
    ensure(not calls[0][4] and calls[0][5] is m, "prior: with gradients or with another model")
    return Info(c["steps"] > 1)


# ----------------------------------------------------------------- spacing


def reference_spacing(T, sections, start=()):
    """Evenly strided choices per section, ends included; ties of rounding may fall either way."""
    out, s0 = [{x} for x in start], 0
    size, extra = divmod(T, len(sections))
    for i, n in enumerate(sections):
        sz = size + (i < extra)
        for j in range(n):
            v = j * (sz - 1) / (n - 1) if n > 1 else 0.0
            near = {s0 + round(v - 1e-6), s0 + round(v + 1e-6)}
            out.append(near)
        s0 += sz
    return out


@PROP.sub("spacing", lambda: fixed(T=ints(1, 60), kind=pick("list", "text", "ddim", "vlb", "vlb", "none"), secs=st.lists(ints(1, 12), min_size=1, max_size=4), n=ints(1, 60)), quick=300, thorough=6000)
def spacing(c):
    su = cray.load("script_util")
    T, secs = c["T"], c["secs"]
    kind = c["kind"]
    if kind in ("list", "text", "none"):
        spec = secs if kind == "list" else ",".join(map(str, secs))
        if kind == "none":
            spec, secs = [T], [T]
        size, extra = divmod(T, len(secs))
        if any(size + (i < extra) < n for i, n in enumerate(secs)):
            raises(ValueError, lambda: su.space_timesteps(T, spec), f"{spec} of {T} steps")
            return Info(True, "refused")
        want = reference_spacing(T, secs)
    elif kind == "ddim":
        spec = f"ddim{c['n']}"
        ok = [i for i in range(1, T) if len(range(0, T, i)) == c["n"]]
        if not ok:
            raises(ValueError, lambda: su.space_timesteps(T, spec), f"{spec} of {T} steps")
            return Info(True, "refused")
        want = [{x} for x in range(0, T, ok[0])]
    else:
        spec, n = f"vlb{c['n']}", c["n"]
        if T // n >= n or T < n - T // n + 1:
            raises(ValueError, lambda: su.space_timesteps(T, spec), f"{spec} of {T} steps")
            return Info(True, "refused")
        want = reference_spacing(T, [n - T // n + 1], range(T // n))
    got = su.space_timesteps(T, spec)
    ensure(isinstance(got, (set, frozenset)) and all(0 <= x < T for x in got), lambda: f"{got} for {spec} of {T}")
    for w in want:
        ensure(bool(w & got), lambda: f"{spec} of {T} steps: {sorted(w)} missing from {sorted(got)}")
    allowed = set().union(*want)
    ensure(got <= allowed, lambda: f"{spec} of {T} steps: unexpected {sorted(got - allowed)}")
    ensure(len(got) <= len(want), "more steps than asked for")
    if kind == "none" or c["n"] % 2:  # the whole construction
        kw = {} if kind == "none" else {"timestep_respacing": spec}
        d = su.create_gaussian_diffusion(steps=T, **kw)
        ensure(d.use_timesteps == got and d.original_num_steps == T and d.num_timesteps == len(got), "the process is not built on the chosen steps")
    return Info(len(got) > 1, kind)


@PROP.sub("process", lambda: fixed(learn=st.booleans(), small=st.booleans(), noise=pick("linear", "cosine"), kl=st.booleans(), xstart=st.booleans(), rt=st.booleans(), rs=st.booleans(), T=ints(4, 20)), quick=80, thorough=600)
def process(c):
    su = cray.load("script_util")
    d = su.create_gaussian_diffusion(steps=c["T"], learn_sigma=c["learn"], sigma_small=c["small"], noise_schedule=c["noise"], use_kl=c["kl"], predict_xstart=c["xstart"], rescale_timesteps=c["rt"], rescale_learned_sigmas=c["rs"])
    want = dict(
        model_mean_type="start_x" if c["xstart"] else "epsilon", model_var_type="learned_range" if c["learn"] else ("fixed_small" if c["small"] else "fixed_large"),
        loss_type="rescaled_kl" if c["kl"] else ("rescaled_mse" if c["rs"] else "mse"), rescale_timesteps=c["rt"],
    )
    ensure(d.config == want, lambda: f"{d.config} for {c}")
    close(d.betas, cray.get_named_beta_schedule(c["noise"], c["T"]), 1e-6, 1e-9, "noise schedule")
    return Info(True)


# ----------------------------------------------------------------- checkpoints and the script


def strat_ckpt():
    f = st.builds(lambda p, n, s: f"{p}{n:06d}.{s}", pick("encode-ckpt", "encode-ckpt", "encode-ckpt", "decode-ckpt", "decode-ckpt", "model", "ema_0.9999_"), st.one_of(ints(0, 999999), ints(0, 50), ints(-99999, 0)), pick("npz", "npz", "npz", "pt"))
    return fixed(files=st.lists(f, max_size=9, unique=True), prefix=pick("encode-ckpt", "encode-ckpt", "encode-ckpt", "decode-ckpt", "ema", "model", None), where=pick("logdir", "logdir", "dir", "dir", "file", "missing"), nested=st.booleans(), k=ints(0, 9), noise=st.booleans())


@PROP.sub("latest", strat_ckpt, quick=200, thorough=3000)
def latest(c):
    """The newest checkpoint of the right kind is chosen, an explicit one is kept."""
    su = cray.load("script_util")
    with scratch() as d, inside(d):
        log = d / "logging"
        src = d / "given" if c["where"] == "dir" else log
        src.mkdir(parents=True)
        log.mkdir(exist_ok=True)
        for f in c["files"]:
            (src / f).write_bytes(b"x")
        if c["noise"]:
            (src / "notes.txt").write_text("x")
            (src / "opt000900.pt").write_bytes(b"x")
        key = "a.b.ckpt" if c["nested"] else "ckpt"
        given = {"logdir": None, "dir": "given", "file": "one.npz", "missing": "nothere.npz"}[c["where"]]
        if c["where"] == "file":
            (d / "one.npz").write_bytes(b"x")
        cfg = stubs.DictConfig({"a": {"b": {"ckpt": given, "z": 1}}, "ckpt": given})
        prefix = c["prefix"] or "model"
        suffix = "npz" if prefix.endswith("ckpt") else "pt"
        su.update_checkpoint(cfg, key, **({} if c["prefix"] is None else {"prefix": c["prefix"], "suffix": suffix}))
        got = cray._select(cfg, key)
        other = cfg["ckpt"] if c["nested"] else cfg["a"]["b"]["ckpt"]
        ensure(other == given and cfg["a"]["b"]["z"] == 1, "another entry of the configuration changed")
        step = lambda f: int(f.rsplit(".", 1)[0][-6:])
        cand = [f for f in c["files"] if f.startswith(prefix) and f.endswith("." + suffix)]
        if c["where"] == "file":
            ensure(os.path.samefile(got, d / "one.npz"), f"explicit file replaced by {got}")
        elif c["where"] == "missing" or not cand:
            ensure(got == given, lambda: f"{given} became {got}")
        else:
            best = max(map(step, cand))
            ensure(os.path.dirname(os.path.realpath(got)) == os.path.realpath(src) and os.path.basename(got) in cand and step(os.path.basename(got)) == best, lambda: f"chose {got} from {cand}")
        return Info(len(cand) > 1, c["where"])


@contextlib.contextmanager
def inside(d):
    old = os.getcwd()
    err = np.geterr()
    os.chdir(d)
    cray.Logger.dir = "logging"
    cray.Logger.kvs, cray.Logger.dumped = {}, []
    try:
        yield
    finally:
        os.chdir(old)
        np.seterr(**err)


class Crash(BaseException):
    pass


def strat_script():
    return fixed(
        batches=ints(1, 4), b=ints(1, 2), steps=ints(1, 3), seed=seeds, save=ints(1, 5), track=st.booleans(), crashes=st.lists(fixed(kind=pick("encode", "decode", "after-save"), at=ints(1, 5)), max_size=3), check=pick(True, True, False),
        given=st.booleans(), more=ints(0, 2),
    )


@PROP.sub("script", strat_script, quick=100, thorough=1500)
def script(c):
    """encode.py, killed at any point and started again, reproduces the data set."""
    import torch
    import torch.distributed as dist

    enc, mod = cray.load("encode"), cray.load("codec")
    W = __import__("wandb")
    shape = (c["b"], 3, 2, 2)
    r = np.random.RandomState(c["seed"] % 2**31)
    levels = [r.randint(0, 256, shape) for _ in range(c["batches"] + c["more"])]
    data = [torch.from_numpy((-1 + k * 2 / 255).astype(np.float32)) for k in levels]
    betas = np.linspace(0.05, 0.4, c["steps"])
    loaders = []

    def loader(**kw):
        loaders.append(kw)
        return iter([(x.clone(), {}) for x in data])

    crash = {"plan": None}
    counts = {}

    def hit(kind):
        counts[kind] = counts.get(kind, 0) + 1
        p = crash["plan"]
        if p and p["kind"] == kind and counts[kind] == p["at"]:
            raise Crash

    real_enc, real_dec, real_savez = mod.BitsBackCodec.encode, mod.BitsBackCodec.decode, np.savez

    def encode(self, *a, **k):
        hit("encode")
        return real_enc(self, *a, **k)

    def decode(self, *a, **k):
        hit("decode")
        return real_dec(self, *a, **k)

    def savez(*a, **k):
        real_savez(*a, **k)
        hit("after-save")

    n = 12 * c["b"]
    crashes = crashed = 0
    with scratch() as d, inside(d):
        (d / "logging").mkdir()
        cfg = lambda: stubs.DictConfig(dict(
            check=c["check"], save_interval=c["save"], encode_checkpoint="logging" if c["given"] and list((d / "logging").glob("encode-ckpt*")) else None, decode_checkpoint=None, evaluator=dict(num_samples=c["batches"] * c["b"], clip_denoised=True, model_path="m.pt"),
            data=dict(val=dict(_target_=loader, batch_size=c["b"])),
            codec=dict(_target_="bits_back_diffusion.codec.BitsBackCodec", model=dict(_target_="bits_back_diffusion.codec.DiffusionModel", use_log_variance=False), data_shape=shape, initial_len=2 * n + 2 * n * c["steps"] + 40, track=c["track"]),
        ))
        fake_setup = lambda cfg, *a, **k: (net(), cray.GaussianDiffusion(betas=betas), loader())
        with stubs.patched((cray.load("script_util"), "setup", fake_setup), (mod.BitsBackCodec, "encode", encode), (mod.BitsBackCodec, "decode", decode), (np, "savez", savez),
                           (dist, "get_world_size", lambda *a: 1), (dist, "barrier", lambda *a, **k: None), (dist, "get_rank", lambda *a: 0), (W, "log", lambda *a, **k: None)):
            for plan in list(c["crashes"]) + [None]:
                np.random.seed((c["seed"] + crashes) % 2**31)
                crash["plan"], counts = plan, {}
                cray.Logger.dumped = []
                try:
                    enc.main(cfg())
                except Crash:
                    crashed += 1
                crashes += 1
        out = d / "logging"
        files = sorted(out.glob("batch*.npz"))
        if c["check"]:
            ensure([int(f.stem[5:]) for f in files] == list(range(c["batches"])), lambda: f"decoded files {[f.name for f in files]} for {c['batches']} batches")
            for i, f in enumerate(files):
                ensure(np.array_equal(np.load(f)["batch"], levels[i]), lambda: f"{f.name} is not batch {i} of the data set")
        else:
            ensure(not files, "decoded although the check is off")
        ck = sorted(out.glob("encode-ckpt*.npz"), key=lambda f: int(f.stem[-6:]))
        ensure(ck and int(ck[-1].stem[-6:]) == c["batches"] * c["b"], lambda: f"no final checkpoint: {[f.name for f in ck]}")
        state = np.load(ck[-1])
        ensure(int(state["data_count"]) == c["batches"], lambda: f"the final message holds {state['data_count']} batches")
        codec = mod.BitsBackCodec(model=mod.DiffusionModel(net(), cray.GaussianDiffusion(betas=betas)), data_shape=shape, initial_len=2 * n + 100)
        codec.load_state_dict(state)
        for i in range(c["batches"] - 1, -1, -1):
            _, y = codec.decode()
            ensure(np.array_equal(np.asarray(y).astype(int), levels[i]), lambda: f"the final message does not hold batch {i} at its place")
        ensure(codec.flat_message.nbytes == int(state["initial_bytes"]), "the decoded message has not its initial size")
    return Info(crashed > 0 or c["batches"] > 1, f"crashes{crashed}", "tracked" if c["track"] else "plain")


@PROP.sub("bound", lambda: fixed(batches=ints(1, 4), b=ints(1, 3), T=ints(1, 5), seed=seeds, more=ints(0, 2), clip=st.booleans()), quick=60, thorough=800)
def bound(c):
    """compute_vlb.py reports the mean of the variational bounds of exactly the samples asked for."""
    import torch
    import torch.distributed as dist

    vlb = cray.load("compute_vlb")
    W = __import__("wandb")
    r = np.random.RandomState(c["seed"] % 2**31)
    data = [torch.from_numpy(r.uniform(-1, 1, (c["b"], 3, 2, 2)).astype(np.float32)) for _ in range(c["batches"] + c["more"])]
    seen = []

    class D:
        num_timesteps = c["T"]

        def calc_bpd_loop(self, model, x, clip_denoised=True, model_kwargs=None):
            seen.append((x.clone(), clip_denoised))
            s = x.flatten(1).double().mean(1)
            k = torch.arange(c["T"]).double()
            vb = s[:, None] + k[None]
            return {"vb": vb, "mse": vb * 2, "xstart_mse": vb * 3, "prior_bpd": s + 50, "total_bpd": vb.sum(1) + s + 50}

    def gather(out, t):
        out[0].copy_(t)

    with scratch() as d, inside(d):
        (d / "logging").mkdir()
        cfg = stubs.DictConfig(dict(evaluator=dict(num_samples=c["batches"] * c["b"], clip_denoised=c["clip"], model_path="m")))
        logged = []
        with stubs.patched((cray.load("script_util"), "setup", lambda cfg, *a, **k: (net(), D(), iter([(x, {}) for x in data]))), (dist, "get_world_size", lambda *a: 1), (dist, "get_rank", lambda *a: 0),
                           (dist, "barrier", lambda *a, **k: None), (dist, "all_gather", gather), (dist, "all_reduce", lambda *a, **k: None), (W, "log", lambda x, *a, **k: logged.append(x))):
            vlb.main(cfg)
        ensure(len(seen) == c["batches"] and all(torch.equal(a, b) for (a, _), b in zip(seen, data)) and all(k == c["clip"] for _, k in seen), lambda: f"{len(seen)} batches evaluated")
        x = np.concatenate([a.flatten(1).double().mean(1).numpy() for a in data[: c["batches"]]])
        vb = x[:, None] + np.arange(c["T"])[None]
        total = vb.sum(1) + x + 50
        last = cray.Logger.dumped[-1]
        close(last["total_bpd"], total.mean(), 1e-6, 1e-6, "reported bound")
        ensure(int(last["samples"]) == len(x), f"{last['samples']} samples")
        for name, arr in (("vb", np.concatenate([(x + 50)[:, None], vb], 1)), ("mse", 2 * vb), ("xstart_mse", 3 * vb)):
            arr = arr[:, ::-1]  # last step first
            f = np.load(d / "logging" / f"{name}-terms.npz")
            for k, v in (("mean", arr.mean(0)), ("stdd", arr.std(0)), ("min", arr.min(0)), ("max", arr.max(0))):
                close(f[k], v, 1e-6, 1e-6, f"{name} {k}")
    return Info(c["batches"] > 1)


@PROP.sub("cifar", lambda: fixed(seed=seeds, exists=pick("none", "train", "valid", "both"), overwrite=st.booleans()), quick=4, thorough=24, shards=2)
def cifar(c):
    """The CIFAR-10 dump names every image by class and index and never touches an existing split unless told to."""
    import sys

    import torchvision

    cray.install()
    import importlib.util

    path = os.path.join(cray.repo(), "projects", "bits_back_diffusion", "datasets", "cifar10.py")
    spec = importlib.util.spec_from_file_location("vf_cifar10", path)
    mod = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(mod)
    saved = {}
    made = []

    class Img:
        def __init__(self, key):
            self.key = key

        def save(self, f, *a, **k):
            saved[str(f)] = self.key

    class DS:
        def __init__(self, root, train=True, download=False, **kw):
            ensure(download and os.path.isdir(root), "no download")
            made.append(train)
            self.train, self.n = train, 50000 if train else 10000
            self.labels = np.random.RandomState((c["seed"] + train) % 2**31).randint(0, 10, self.n)

        def __len__(self):
            return self.n

        def __getitem__(self, i):
            return Img((self.train, i)), int(self.labels[i])

    names = "plane car bird cat deer dog frog horse ship truck".split()
    with scratch() as d:
        dirs = {True: d / "out" / "train_32x32", False: d / "out" / "valid_32x32"}
        for k, v in ((True, "train"), (False, "valid")):
            if c["exists"] in (v, "both"):
                dirs[k].mkdir(parents=True)
        want = {k: c["overwrite"] or not dirs[k].is_dir() for k in dirs}
        argv = sys.argv
        sys.argv = ["cifar10.py", "--out_dir", str(d / "out")] + (["--overwrite"] if c["overwrite"] else [])
        os.environ["TQDM_DISABLE"] = "1"
        try:
            with stubs.patched((torchvision.datasets, "CIFAR10", DS)):
                mod.main()
        finally:
            sys.argv = argv
            os.environ.pop("TQDM_DISABLE", None)
        ensure(sorted(made) == sorted(k for k in want if want[k]), lambda: f"splits fetched (train?): {made}, expected {want}")
        n = 0
        for k in want:
            if want[k]:
                ds = DS(d, k, True)
                made.pop()
                for i in range(len(ds)):
                    f = str(dirs[k] / f"{names[ds.labels[i]]}_{i:05d}.png")
                    if saved.get(f) != (k, i):
                        ensure(False, f"image {i} of train={k} is not in {f}")
                n += len(ds)
        ensure(len(saved) == n, lambda: f"{len(saved)} files, expected {n}")
    return Info(n > 0)
