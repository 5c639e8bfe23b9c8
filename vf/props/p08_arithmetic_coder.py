"""P08: the JAX arithmetic coder is lossless at the ideal rate, or refuses."""
import math

import hypothesis.strategies as st
import numpy as np

from .. import jaxshim
from ..core import Info, Prop, ensure
from ..gen import big, fixed, ints, pick, seeds

PROP = Prop(
    "P08",
    "cases = batches of messages x probability models (fixed tables per batch element, adaptive counts, Markov contexts, zero-probability "
    "symbols, near-certain and near-impossible symbols) x buffer sizes; oracle = the message itself, the ideal code length, and refusal when the "
    "buffer is too small; non-trivial = more than one symbol has mass and the message has at least 3 symbols",
    assumptions=["JAX is a numpy stand-in with JAX's typing, clamping and dropping rules; vmap is a loop"],
)

FULL = 1 << 16


def table(rng, n, kind, used=None):
    """Integer CDF over n symbols summing to 2**16; every used symbol has mass at least 1."""
    if kind == "quarter" and n >= 3:  # the middle symbol starts at exactly a quarter: its repetition keeps bits pending for ever
        mid = n // 2
        q = FULL // 4
        m = 2 * q if rng.integers(2) else q + int(rng.integers(1, q))
        f = np.ones(n, dtype=np.int64)
        f[0] += q - mid
        f[mid] = m
        f[n - 1] += FULL - q - m - (n - 1 - mid)
        return np.concatenate([[0], np.cumsum(f)])
    if kind == "uniform":
        w = np.ones(n)
    elif kind == "skew":
        w = np.full(n, 1e-9)
        w[rng.integers(n)] = 1.0
    elif kind == "geo":
        w = 0.5 ** (np.arange(n) % 40)
    elif kind == "half":  # the middle of the range is where carries pend
        w = np.full(n, 1e-9)
        w[n // 2] = 1.0
        w[0] = w[-1] = 1.0
    else:
        w = rng.uniform(size=n) ** rng.integers(1, 6)
    need = np.ones(n, dtype=np.int64)
    if kind == "holes":
        need = (rng.uniform(size=n) < 0.5).astype(np.int64)
        if used is not None:
            need[list(used)] = 1
        if need.sum() == 0:
            need[0] = 1
        w = w * need
    f = need + np.floor((FULL - need.sum()) * w / w.sum()).astype(np.int64)
    f[int(np.argmax(f))] += FULL - f.sum()
    return np.concatenate([[0], np.cumsum(f)])


KINDS = ("random", "uniform", "skew", "geo", "half", "quarter", "holes")


@st.composite
def cases(draw):
    model = draw(pick("fixed", "fixed", "adaptive", "markov"))
    n = draw(st.one_of(ints(1, 6), ints(2, 40), pick(128, 255, 256))) if model == "fixed" else draw(ints(1, 8))
    c = dict(model=model, n=n, B=draw(big(1, 3, 4, 9, odds=20)), L=draw(st.one_of(ints(1, 6), big(7, 40, 64, 129, 260, odds=20))), kind=draw(pick(*KINDS)), seed=draw(seeds), src=draw(pick("uniform", "model", "rare", "constant")),
                lens=draw(pick(None, None, "ragged")), over=draw(pick("ample", "ample", "tight", "default")), slack=draw(ints(-3, 3)))
    if c["kind"] == "quarter" and draw(st.booleans()):
        c.update(model="fixed", n=max(3, c["n"]), src="constant", B=1, L=draw(ints(2, 300)))
    return c


def source(c, rng, cdf, L):
    p = np.diff(cdf) / FULL
    ok = np.flatnonzero(p > 0)
    if c["src"] == "constant":
        return np.full(L, len(p) // 2 if c["kind"] == "quarter" else ok[rng.integers(len(ok))])
    if c["src"] == "rare":
        return ok[np.argsort(p[ok])[rng.integers(0, max(1, len(ok) // 3), size=L)]]
    if c["src"] == "model":
        return rng.choice(len(p), size=L, p=p)
    return ok[rng.integers(0, len(ok), size=L)]


def setup(c):
    """(message lists, encoder model, decoder model, states per element, ideal bits per element)"""
    jnp, ac, _ = jaxshim.load()
    rng = np.random.default_rng(c["seed"])
    n, B = c["n"], c["B"]
    lens = [c["L"]] * B if not c["lens"] else [int(x) for x in rng.integers(1, c["L"] + 1, size=B)]
    if c["model"] == "fixed":
        cdfs = np.stack([table(rng, n, c["kind"]) for _ in range(B)])
        msgs = [source(c, rng, cdfs[b], lens[b]) for b in range(B)]
        bits = [float(-np.log2(np.diff(cdfs[b])[m] / FULL).sum()) for b, m in enumerate(msgs)]
        states = (jnp.array(cdfs.astype("uint32")),)

        def cdf_fun(s, state):
            s = s.astype("int32")
            return state[0][s], state[0][s + 1], state

        def inv_fun(v, state):
            s = jnp.argmin(v >= state[0]) - 1
            return state[0][s], state[0][s + 1], s, state

    elif c["model"] == "adaptive":
        cnt = rng.integers(1, 60, size=(B, n))
        flat = np.linspace(0, FULL, n + 1).astype(np.int64)
        msgs = [source(c, rng, flat, lens[b]) for b in range(B)]

        def to_cdf(f):
            f = np.asarray(f).astype(np.float64)
            q = 1 + np.floor((FULL - len(f)) * f / f.sum()).astype(np.int64)
            q[int(np.argmax(q))] += FULL - q.sum()
            return np.concatenate([[0], np.cumsum(q)])

        bits = []
        for b, m in enumerate(msgs):
            f, t = cnt[b].copy(), 0.0
            for s in m:
                q = to_cdf(f)
                t -= math.log2((q[s + 1] - q[s]) / FULL)
                f[s] += 1
            bits.append(t)
        states = (jnp.array(cnt),)

        def cdf_fun(s, state):
            q = jnp.array(to_cdf(state[0]).astype("uint32"))
            s = s.astype("int32")
            return q[s], q[s + 1], (state[0].at[s].add(1),)

        def inv_fun(v, state):
            q = jnp.array(to_cdf(state[0]).astype("uint32"))
            s = jnp.argmin(v >= q) - 1
            return q[s], q[s + 1], s, (state[0].at[s].add(1),)

    else:
        tabs = np.stack([np.stack([table(rng, n, c["kind"] if c["kind"] != "holes" else "geo") for _ in range(n)]) for _ in range(B)])
        msgs = [source(c, rng, tabs[b][0], lens[b]) for b in range(B)]
        bits = []
        for b, m in enumerate(msgs):
            prev, t = 0, 0.0
            for s in m:
                t -= math.log2((tabs[b][prev][s + 1] - tabs[b][prev][s]) / FULL)
                prev = s
            bits.append(t)
        states = (jnp.array(tabs.astype("uint32")), jnp.array(np.zeros(B, "int32")))

        def cdf_fun(s, state):
            s = s.astype("int32")
            q = state[0][state[1]]
            return q[s], q[s + 1], (state[0], s)

        def inv_fun(v, state):
            q = state[0][state[1]]
            s = (jnp.argmin(v >= q) - 1).astype("int32")
            return q[s], q[s + 1], s, (state[0], s)

    return msgs, cdf_fun, inv_fun, states, bits


def pickb(states, b):
    return tuple(s[b : b + 1] for s in states)


@PROP.sub("roundtrip", cases, quick=450, thorough=12000)
def roundtrip(c):
    jnp, ac, _ = jaxshim.load()
    msgs, cdf_fun, inv_fun, states, bits = setup(c)
    need = max(math.ceil((b + 2 + 0.001 * len(m)) / 8) + 1 for b, m in zip(bits, msgs))
    L = max(len(m) for m in msgs)
    if c["over"] == "default":
        kw, ample = {}, int(1.5 * L) >= need + 1
    elif c["over"] == "tight":  # sizes around the compressed length: either exact or refused
        size = max(1, need + c["slack"])
        kw, ample = dict(buffer_oversize=(size + 0.25) / L), c["slack"] >= 2
    else:
        kw, ample = dict(buffer_oversize=(need + 8 + 0.25) / L), True
    data, refused = [], 0
    groups = [list(range(len(msgs)))] if not c["lens"] else [[b] for b in range(len(msgs))]
    for g in groups:
        x = jnp.array(np.stack([msgs[b] for b in g]).astype("uint8"))
        st_ = states if len(g) == len(msgs) else pickb(states, g[0])
        k = kw
        if c["lens"] and kw:
            k = dict(buffer_oversize=kw["buffer_oversize"] * L / len(msgs[g[0]]))
        good = ample if kw else int(1.5 * len(msgs[g[0]])) >= max(math.ceil((bits[b] + 2 + 0.001 * len(msgs[b])) / 8) + 1 for b in g) + 1
        if not kw and int(1.5 * len(msgs[g[0]])) < 1:
            good = False
        try:
            out = ac.encode(x, cdf_fun, st_, **k)
        except RuntimeError as e:
            ensure("stand-in" not in str(e), lambda: f"encoding does not end: {e}")
            ensure(not good, lambda: f"a message of {max(bits[b] for b in g):.1f} bits was refused with {k or 'the default buffer'}")
            refused += 1
            return Info(True, "refused")
        ensure(len(out) == len(g), "number of strings")
        data += list(out)
    for b, d in enumerate(data):
        ensure(isinstance(d, bytes), "compressed data is not bytes")
        limit = math.floor((bits[b] + 2 + 0.001 * len(msgs[b])) / 8) + 1
        ensure(len(d) <= limit, lambda: f"{len(d)} bytes for {bits[b]:.2f} bits of information")
        ensure(8 * len(d) >= bits[b] - 0.001 * len(msgs[b]) - 1, lambda: f"{len(d)} bytes hold {bits[b]:.2f} bits of information")
    lens = jnp.array(np.array([len(m) for m in msgs]))
    dec = ac.decode(data, lens, inv_fun, states)
    ensure(len(dec) == len(msgs), "number of decoded messages")
    for b, m in enumerate(msgs):
        got = np.asarray(dec[b]).tolist()
        ensure(got == m.tolist(), lambda: f"element {b}: decoded {got} instead of {m.tolist()}")
    return Info(c["n"] > 1 and L >= 3, c["model"], c["over"], "ragged" if c["lens"] else "equal")


@PROP.sub("independent", lambda: cases(), quick=90, thorough=2500)
def independent(c):
    """Each element's string does not depend on the rest of the batch."""
    jnp, ac, _ = jaxshim.load()
    c = dict(c, lens=None, B=max(2, c["B"]))
    msgs, cdf_fun, inv_fun, states, bits = setup(c)
    size = max(math.ceil(b / 8) for b in bits) + 10
    kw = dict(buffer_oversize=(size + 0.25) / len(msgs[0]))
    x = jnp.array(np.stack(msgs).astype("uint8"))
    before = np.array(x.v), [np.array(s.v) for s in states]
    whole = ac.encode(x, cdf_fun, states, **kw)
    for b in range(len(msgs)):
        one = ac.encode(x[b : b + 1], cdf_fun, pickb(states, b), **kw)
        ensure(one[0] == whole[b], f"string {b} depends on the other batch elements")
    ensure(ac.encode(x, cdf_fun, states, **kw) == whole, "encoding is not deterministic")
    ensure(np.array_equal(before[0], x.v) and all(np.array_equal(p, q.v) for p, q in zip(before[1], states)), "the input was modified")
    return Info(c["n"] > 1 and c["L"] >= 3, c["model"])
