"""P09: the craystack rANS coder is a lossless stack at the ideal rate, also with bits back."""
import math

import hypothesis.strategies as st
import numpy as np

from .. import jaxshim
from ..core import Info, Prop, ensure, raises
from ..gen import big, fixed, ints, pick, seeds

PROP = Prop(
    "P09",
    "cases = histories of pushed and popped messages (own shapes, lanes, precisions, alphabets, data types and probability tables) and bits-back "
    "models x initial stacks; oracle = a model stack of messages and buffers, the ideal code length, the ELBO; "
    "non-trivial = at least two lanes or two stacked messages, or bits back",
    assumptions=["JAX is a numpy stand-in with JAX's typing, clamping and dropping rules; vmap is a loop", "ample tail capacity (too little fails silently, as documented)",
                 "a message appended to a buffer has no more lanes than the message below it"],
)

HEAD_MIN = 1 << 24


def table(rng, n, kind, p):
    full = 1 << p
    if kind == "uniform":
        w = np.ones(n)
    elif kind == "skew":
        w = np.full(n, 1e-9)
        w[rng.integers(n)] = 1.0
    elif kind == "geo":
        w = 0.5 ** (np.arange(n) % 40)
    else:
        w = rng.uniform(size=n) ** rng.integers(1, 6)
    need = np.ones(n, dtype=np.int64)
    if kind == "holes":
        need = (rng.uniform(size=n) < 0.6).astype(np.int64)
        need[rng.integers(n)] = 1
        w = w * need + 1e-12 * need
    f = need + np.floor((full - need.sum()) * w / w.sum()).astype(np.int64)
    f[int(np.argmax(f))] += full - f.sum()
    return np.concatenate([[0], np.cumsum(f)])


KINDS = ("random", "random", "uniform", "skew", "geo", "holes")
DTYPES = ("int64", "int32", "uint8", "uint16")


@st.composite
def message(draw, lanes=None):
    p = draw(pick(16, 16, 16, 8, 12, 20, 24, 5))
    n = draw(st.one_of(ints(1, 5), ints(1, min(60, 1 << p)), pick(255, 256) if p >= 8 else ints(1, 8)))
    return dict(p=p, n=n, L=draw(st.one_of(ints(1, 5), big(1, 20, 33, 64, 130))), lanes=lanes or draw(big(1, 5, 6, 8, 17)), kind=draw(pick(*KINDS)), dt=draw(pick(*DTYPES)), out=draw(pick(*DTYPES)),
                src=draw(pick("any", "any", "model", "rare")), seed=draw(seeds), shared=draw(st.booleans()))


def build(m, B):
    """(messages array (B, L, lanes), codec, ideal bits per batch element, rounding loss)"""
    jnp, _, cs = jaxshim.load()
    rng = np.random.default_rng(m["seed"])
    full = 1 << m["p"]
    if m["shared"]:
        t = table(rng, m["n"], m["kind"], m["p"])
        cdf = np.broadcast_to(t, (B, m["lanes"], m["n"] + 1))
    else:
        cdf = np.stack([[table(rng, m["n"], m["kind"], m["p"]) for _ in range(m["lanes"])] for _ in range(B)])
    x = np.zeros((B, m["L"], m["lanes"]), dtype=np.int64)
    bits = np.zeros(B)
    for b in range(B):
        for k in range(m["lanes"]):
            f = np.diff(cdf[b, k])
            ok = np.flatnonzero(f)
            if m["src"] == "model":
                s = rng.choice(m["n"], size=m["L"], p=f / full)
            elif m["src"] == "rare":
                s = ok[np.argsort(f[ok])[rng.integers(0, max(1, len(ok) // 3), size=m["L"])]]
            else:
                s = ok[rng.integers(0, len(ok), size=m["L"])]
            if m["seed"] % 3 == 0 and f[-1] > 0:
                s[-1] = m["n"] - 1
            x[b, :, k] = s
            bits[b] -= np.log2(f[s] / full).sum()
    loss = m["L"] * m["lanes"] * math.log2(1 + 2.0 ** (m["p"] - 24)) * 1.01 + 1e-6
    codec = cs.fixed_array_cdf_codec(jnp.array(cdf.astype("uint32")), precision=m["p"], message_dtype=m["out"])
    return jnp.array(x.astype(m["dt"])), codec, bits, loss


def information(buf, lanes):
    """Bits held by a buffer: the heads in log scale plus eight per tail byte."""
    v = np.asarray(buf).astype(np.int64)
    h = v[: 4 * lanes].reshape(4, lanes)
    head = (h[0] << 24) + (h[1] << 16) + (h[2] << 8) + h[3]
    ensure((head >= HEAD_MIN).all(), lambda: f"a head {head.min()} left the interval [2^24, 2^32)")
    return float(np.log2(head).sum()) + 8 * (len(v) - 4 * lanes)


@st.composite
def histories(draw):
    B = draw(big(1, 3, 4, 9))
    ops, lanes, depth = [], 5, []
    for _ in range(draw(ints(1, 6))):
        if depth and draw(pick(True, False, False)):
            ops.append(None)
            depth.pop()
        else:
            m = draw(message(lanes=draw(ints(1, depth[-1] if depth else 5))))
            ops.append(m)
            depth.append(m["lanes"])
    return dict(B=B, ops=ops, cap=draw(ints(0, 40)), vary=draw(st.booleans()))


def arrays(bufs):
    return [np.asarray(b).tolist() for b in bufs]


@PROP.sub("stack", histories, quick=450, thorough=9000)
def stack(c):
    """Messages come off in reverse order, unchanged, and the buffer is then what it was before."""
    jnp, _, cs = jaxshim.load()
    B = c["B"]
    model = []  # (message, codec, x, buffers before)
    bufs, lanes = None, None
    cap0 = sum(4 * m["L"] * m["lanes"] + 6 * m["lanes"] + 40 for m in c["ops"] if m) + c["cap"]
    pops = 0
    seq = list(c["ops"]) + [None] * (sum(1 for m in c["ops"] if m) - sum(1 for m in c["ops"] if not m))
    for i, m in enumerate(seq):
        cap = cap0 + (13 * i if c["vary"] else 0)
        if m:
            x, codec, bits, loss = build(m, B)
            xs, ss = np.array(x.v), np.array(codec.cdf_state[0].v)
            out, state = cs.encode(x, codec, tail_capacity=cap, **({} if bufs is None else dict(start_buffers=bufs)))
            ensure(np.array_equal(x.v, xs) and np.array_equal(codec.cdf_state[0].v, ss), "encoding modified its input")
            ensure(len(out) == B, "number of buffers")
            for b in range(B):
                ensure(np.asarray(out[b]).dtype == np.uint8, "buffers are not bytes")
                before = information(bufs[b], lanes) if bufs is not None and lanes == m["lanes"] else None
                after = information(out[b], m["lanes"])
                if before is None and bufs is None:
                    before = 24.0 * m["lanes"]
                if before is not None:
                    # one spacer byte per appended message
                    ensure(-loss - 1e-3 <= after - before - bits[b] <= loss + 8.001, lambda: f"message {i} grew the buffer by {after - before:.3f} bits for {bits[b]:.3f} bits of information")
            model.append((m, codec, x, bufs, lanes))
            bufs, lanes = out, m["lanes"]
        else:
            m, codec, x, before, blanes = model.pop()
            pops += 1
            given = arrays(bufs)
            msg, rest, state = cs.decode(bufs, m["L"], (m["lanes"],), codec, tail_capacity=cap)
            ensure(arrays(bufs) == given, "decoding modified the buffer")
            got = np.asarray(msg)
            ensure(got.shape == x.v.shape and str(got.dtype) == m["out"], lambda: f"decoded {got.dtype}{got.shape}")
            want = x.v.astype(m["out"])
            ensure(np.array_equal(got, want), lambda: f"message of {m['L']}x{m['lanes']} symbols decoded with {int((got != want).sum())} errors, first at {np.argwhere(got != want)[0].tolist()}")
            ensure(len(rest) == B, "number of buffers")
            if before is not None:
                ensure(arrays(rest) == arrays(before), "the buffer under a removed message changed")
            else:
                for r in rest:
                    ensure(information(r, m["lanes"]) <= 24 * m["lanes"] + 8.001, "information is left after the last message was removed")
            bufs, lanes = (rest if before is not None else None), blanes
    return Info(pops > 1 or any(m and m["lanes"] > 1 for m in c["ops"]), f"messages{sum(1 for m in c['ops'] if m)}", f"pops{min(pops, 4)}")


@PROP.sub("defaults", lambda: fixed(B=ints(1, 3), m=message()), quick=200, thorough=4000)
def defaults(c):
    """Default capacity: enough whenever the message stays below it, for both directions."""
    jnp, _, cs = jaxshim.load()
    m = dict(c["m"], n=min(c["m"]["n"], 12), kind="uniform" if c["m"]["kind"] == "skew" else c["m"]["kind"], L=c["m"]["L"] + 12)
    x, codec, bits, loss = build(m, c["B"])
    cap = int(1.5 * m["L"] * m["lanes"])
    if (bits.max() + loss) / 8 + 2 * m["lanes"] + 2 > cap:
        m = dict(m, src="model", kind="uniform")
        x, codec, bits, loss = build(m, c["B"])
        if (bits.max() + loss) / 8 + 2 * m["lanes"] + 2 > cap:
            return Info(False, "too-rich")
    out, _ = cs.encode(x, codec)
    msg, rest, _ = cs.decode(out, m["L"], (m["lanes"],), codec)
    ensure(np.array_equal(np.asarray(msg), x.v.astype(m["out"])), "decoded with default capacity")
    big = cs.decode(out, m["L"], (m["lanes"],), codec, tail_capacity_mult=3.0)[0]
    ensure(np.array_equal(np.asarray(big), np.asarray(msg)), "a larger capacity changes the decoded message")
    for b in range(c["B"]):
        one = cs.fixed_array_cdf_codec(codec.cdf_state[0][b : b + 1], precision=m["p"], message_dtype=m["out"])
        alone, _ = cs.encode(x[b : b + 1], one)
        # the spacer byte is random filler
        ensure(information(alone[0], m["lanes"]) == information(out[b], m["lanes"]), "a buffer depends on the other batch elements")
        ensure(np.array_equal(np.asarray(cs.decode(alone, m["L"], (m["lanes"],), one)[0])[0], x.v[b].astype(m["out"])), "decoded alone")
    return Info(m["lanes"] > 1, f"lanes{m['lanes']}")


@PROP.sub("state", lambda: fixed(B=ints(1, 3), L=ints(1, 12), lanes=ints(1, 4), n=ints(2, 10), p=pick(16, 12, 20), seed=seeds, kind=pick(*KINDS[:-1])), quick=200, thorough=4000)
def state(c):
    """Position-dependent probabilities carried in the state: decoding runs the state backwards to its start."""
    jnp, _, cs = jaxshim.load()
    rng = np.random.default_rng(c["seed"])
    tabs = np.stack([[table(rng, c["n"], c["kind"], c["p"]) for _ in range(c["L"])] for _ in range(c["B"])]).astype("uint32")
    start = rng.integers(0, 5, size=c["B"])
    x = rng.integers(0, c["n"], size=(c["B"], c["L"], c["lanes"]))

    def cdf_fun(s, state):
        t, k, seen = state
        q = t[k - seen * 0]
        return q[s], q[s + 1], (t, (k + 1) % c["L"], seen + 1)

    def inv_fun(v, state):
        t, k, seen = state
        k = (k - 1) % c["L"]
        q = t[k]
        s = jnp.argmin(jnp.expand_dims(v, -1) >= q, axis=-1) - 1
        return q[s], q[s + 1], s, (t, k, seen - 1)

    st0 = (jnp.array(tabs), jnp.array(start % c["L"]), jnp.array(np.zeros(c["B"], "int64")))
    codec = cs.default_rans_codec(cdf_fun, inv_fun, st0, precision=c["p"])
    cap = 4 * c["L"] * c["lanes"] + 40
    out, st1 = cs.encode(jnp.array(x), codec, tail_capacity=cap)
    ensure(np.array_equal(np.asarray(st1[2]), np.full(c["B"], c["L"])), "the state was not updated once per symbol")
    codec2 = cs.default_rans_codec(cdf_fun, inv_fun, st1, precision=c["p"])
    msg, rest, st2 = cs.decode(out, c["L"], (c["lanes"],), codec2, tail_capacity=cap)
    ensure(np.array_equal(np.asarray(msg), x), "context-adaptive message")
    for a, b in zip(st0, st2):
        ensure(np.array_equal(np.asarray(a), np.asarray(b)), "decoding does not take the state back to its start")
    return Info(c["L"] > 1, f"lanes{c['lanes']}")


# ------------------------------------------------------------------ bits back


@st.composite
def bb_cases(draw):
    kind = draw(pick("any", "any", "exact"))
    return dict(kind=kind, B=draw(ints(1, 2)), L=draw(ints(1, 8)), lanes=draw(ints(1, 4)), nz=draw(pick(1, 2, 5, 16, 100, 200, 250)), nx=draw(pick(1, 2, 3, 8, 30)), a=draw(ints(0, 6)), b=draw(ints(0, 5)),
                init=draw(pick(0, 1, 2, 3, 5, 7, 30)), dt=draw(pick("int64", "uint8")), seed=draw(seeds), ks=draw(st.lists(pick("random", "uniform", "skew", "geo"), min_size=3, max_size=3)), p=draw(pick(16, 16, 12, 20)))


def bb_codec(c, rng):
    jnp, _, cs = jaxshim.load()
    p, lanes = c["p"], c["lanes"]
    J = lambda a: jnp.array(np.asarray(a).astype("uint32"))
    if c["kind"] == "exact":
        # z uniform over 2^a, x = (z + noise) mod 2^a-ish with uniform noise over 2^b values: the posterior is uniform over 2^b values
        nz = 1 << c["a"]
        w = 1 << min(c["b"], c["a"])
        full = 1 << p

        def window(center):
            f = np.zeros(nz, dtype=np.int64)
            f[(center + np.arange(w)) % nz] = full // w
            return np.concatenate([[0], np.cumsum(f)])

        prior = np.stack([np.linspace(0, full, nz + 1).astype(np.int64)] * lanes)
        obs = np.stack([window(z) for z in range(nz)])  # x in z .. z+w-1
        post = np.stack([window(x - w + 1) for x in range(nz)])  # z in x-w+1 .. x
        nx, per = nz, float(c["a"])
    else:
        nz, nx, per = c["nz"], c["nx"], None
        prior = np.stack([table(rng, nz, c["ks"][0], p) for _ in range(lanes)])
        obs = np.stack([table(rng, nx, c["ks"][1], p) for _ in range(nz)])
        post = np.stack([table(rng, nz, c["ks"][2], p) for _ in range(nx)])
    codec = cs.bitsback_ans_codec(
        cs.fixed_array_cdf_codec(J(prior), precision=p, message_dtype=c["dt"]),
        lambda x: cs.fixed_array_cdf_codec(J(post)[x], precision=p, allow_empty_pops=True, message_dtype=c["dt"]),
        lambda z: cs.fixed_array_cdf_codec(J(obs)[z], precision=p, message_dtype=c["dt"]),
        (lanes,), c["dt"],
    )
    return codec, nx, per


@PROP.sub("bits_back", bb_cases, quick=700, thorough=12000)
def bits_back(c):
    jnp, _, cs = jaxshim.load()
    rng = np.random.default_rng(c["seed"])
    codec, nx, per = bb_codec(c, rng)
    x = rng.integers(0, nx, size=(c["B"], c["L"], c["lanes"]))
    cap = 12 * c["L"] * c["lanes"] + 6 * c["lanes"] + 60 + 4 * c["init"] * c["lanes"]
    bufs = None
    if c["init"]:  # initial bits: a message with known content below
        m = dict(p=16, n=256 if c["init"] >= 30 else (2, 8, 64, 256)[c["seed"] % 4], L=c["init"], lanes=c["lanes"], kind="uniform" if c["init"] >= 30 else ("geo", "random", "skew")[c["seed"] % 3], dt="int64", out="int64", src="any", seed=c["seed"], shared=False)
        y, ycodec, _, _ = build(m, c["B"])
        bufs = cs.encode(y, ycodec, tail_capacity=cap)[0]
    out, _ = cs.encode(jnp.array(x.astype(c["dt"])), codec, tail_capacity=cap, **({} if bufs is None else dict(start_buffers=bufs)))
    msg, rest, _ = cs.decode(out, c["L"], (c["lanes"],), codec, tail_capacity=cap)
    got = np.asarray(msg)
    ensure(np.array_equal(got, x) and str(got.dtype) == c["dt"], lambda: f"bits-back message decoded with {int((got != x).sum())} errors")
    deep = c["init"] >= 30
    if deep:
        ensure(arrays(rest) == arrays(bufs), "bits back did not restore the stack it borrowed from")
        if per is not None:
            for b in range(c["B"]):
                grow = information(out[b], c["lanes"]) - information(bufs[b], c["lanes"])
                want = c["L"] * c["lanes"] * per
                slack = 3 * c["L"] * c["lanes"] * math.log2(1 + 2.0 ** (c["p"] - 24)) + 8.01
                ensure(abs(grow - want) <= slack, lambda: f"bits back pays {grow:.2f} bits for {want:.2f} bits of information")
    if c["init"]:
        for r, b in zip(arrays(rest), arrays(bufs)):
            # bits taken from beyond the bottom of the stack may stay below it
            ensure(r[: len(b)] == b, "bits back did not put the stack back on top")
        z = np.asarray(cs.decode(rest, c["init"], (c["lanes"],), ycodec, tail_capacity=cap)[0])
        ensure(np.array_equal(z, y.v), "the message below a bits-back message is damaged")
    return Info(True, c["kind"], "initial" if deep else "empty")


@PROP.sub("refusals", lambda: fixed(m=message(), short=ints(1, 6), B=ints(1, 2)), quick=60, thorough=1000)
def refusals(c):
    jnp, _, cs = jaxshim.load()
    x, codec, bits, loss = build(c["m"], c["B"])
    m = c["m"]
    cap = 4 * m["L"] * m["lanes"] + 6 * m["lanes"] + 40
    out, _ = cs.encode(x, codec, tail_capacity=cap)
    n = max(len(o.v) for o in out) - 4 * m["lanes"]
    small = max(0, n - c["short"])
    if small >= n:
        return Info(False, "empty")
    raises(ValueError, lambda: cs.decode(out, m["L"], (m["lanes"],), codec, tail_capacity=small), "a tail capacity smaller than the buffer")
    raises(ValueError, lambda: cs.encode(x, codec, tail_capacity=small, start_buffers=out), "a tail capacity smaller than the start buffer")
    return Info(True, "refused")


@PROP.finding("more-lanes")
def more_lanes():
    """A two-lane message appended to a one-lane buffer: the second head may be read below 2^24."""
    jnp, _, cs = jaxshim.load()
    rng = np.random.default_rng(3)
    t = np.arange(5) * 16384
    mk = lambda lanes: cs.fixed_array_cdf_codec(jnp.array(np.tile(t, (1, lanes, 1)).astype("uint32")))
    x, y = jnp.array(rng.integers(0, 4, size=(1, 2, 1))), jnp.array(rng.integers(0, 4, size=(1, 3, 2)))
    a = cs.encode(x, mk(1), tail_capacity=400)[0]
    b = cs.encode(y, mk(2), tail_capacity=400, start_buffers=a)[0]
    ensure(np.array_equal(np.asarray(cs.decode(b, 3, (2,), mk(2), tail_capacity=400)[0]), y.v), "two lanes on top of one")
