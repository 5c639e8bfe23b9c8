"""P14: memoised calls always return what the function would return, once per distinct call and cache."""
import hypothesis.strategies as st

from ..core import Info, Prop, ensure, raises
from ..gen import fixed, ints, pick, weighted

PROP = Prop(
    "P14",
    "cases = histories of calls (two functions, several caches or none, scalar / string / nested container / tensor "
    "arguments by position or keyword, short-lived tensors, hit expectations); oracle = the plain function and a "
    "model of the seen keys; non-trivial = at least one repeated call through a cache",
)

scal = st.one_of(ints(-3, 3), st.sampled_from(["a", "b", ""]), st.none())
arg = st.one_of(
    scal, scal,
    st.lists(scal, min_size=1, max_size=3).map(lambda v: {"list": v}),
    st.lists(st.tuples(pick("k", "l"), scal), min_size=1, max_size=2, unique_by=lambda t: t[0]).map(lambda v: {"dict": [list(t) for t in v]}),
    ints(0, 3).map(lambda i: {"tensor": i}),
    ints(0, 3).map(lambda i: {"fresh": i}),
    st.lists(ints(0, 3), min_size=1, max_size=2).map(lambda v: {"tensors": v}),
)
op = st.fixed_dictionaries(
    dict(f=ints(0, 1), cache=pick(0, 0, 1, None), args=st.lists(arg, max_size=2), kw=st.lists(st.tuples(pick("x", "y"), arg), max_size=2, unique_by=lambda t: t[0]),
         repeat=st.booleans(), rename=st.booleans())
)


def strategy():
    return fixed(ops=weighted((9, st.lists(op, min_size=1, max_size=12)), (1, st.lists(op, min_size=20, max_size=40))))


def fingerprint(v):
    import torch

    if isinstance(v, torch.Tensor):
        return ("t", tuple(v.shape), tuple(v.flatten().tolist()))
    if isinstance(v, (list, tuple)):
        return ("s",) + tuple(fingerprint(x) for x in v)
    if isinstance(v, dict):
        return ("d",) + tuple((k, fingerprint(x)) for k, x in v.items())
    return v


@PROP.sub("history", strategy, quick=600, thorough=10000)
def history(c):
    import torch
    from projects.torch_vct.utils import memoize as M

    calls = [0, 0]

    def mk(i):
        def fn(*args, **kw):
            calls[i] += 1
            return (i, fingerprint(args), fingerprint(dict(sorted(kw.items()))))

        return fn

    plain = [mk(0), mk(1)]
    fs = [M.memoize(p) for p in plain]
    caches = [M.create_cache(), M.create_cache()]
    pool = [torch.tensor([float(i), 1.0]) for i in range(4)]
    seen = {}
    hits = {}
    reps = 0

    def val(a):
        if not isinstance(a, dict):
            return a
        if "list" in a:
            return list(a["list"])
        if "dict" in a:
            return {k: v for k, v in a["dict"]}
        if "tensor" in a:
            return pool[a["tensor"]]
        if "tensors" in a:
            return tuple(pool[i] for i in a["tensors"])
        return torch.tensor([float(a["fresh"]), 2.0])

    for o in c["ops"]:
        fresh = "fresh" in repr(o)
        args = [val(a) for a in o["args"]]
        kw = {k: val(a) for k, a in o["kw"]}
        i = o["f"]
        cache = None if o["cache"] is None else caches[o["cache"]]
        g = M.bind(fs[i], cache)
        if o["rename"] and kw and not fresh:
            # same values under other names / as positional arguments: a different call
            swap = {"x": "y", "y": "x"}
            alt = [([*args], {swap[k]: v for k, v in kw.items()}), ([*args, *kw.values()], {})]
            for a2, k2 in alt:
                g2 = M.bind(fs[i], M.create_cache())
                for aa, kk in ((args, kw), (a2, k2), (args, kw), (a2, k2)):
                    exp = (i, fingerprint(aa), fingerprint(dict(sorted(kk.items()))))
                    out = g2(*aa, **kk)
                    ensure(out == exp, lambda: f"memoised call returned {out}, the function returns {exp}")
        for rep in range(2 if o["repeat"] else 1):
            if rep and len(kw) > 1:
                kw = dict(reversed(list(kw.items())))  # keyword order is irrelevant
            exp = (i, fingerprint(args), fingerprint(dict(sorted(kw.items()))))
            before = calls[i]
            out = g(*args, **kw)
            ensure(out == exp, lambda: f"memoised call returned {out}, the function returns {exp}")
            ran = calls[i] - before
            if cache is None:
                ensure(ran == 1, "without a cache the function must run")
                continue
            if fresh and rep == 0:
                ensure(ran <= 1, "function ran more than once")
                if ran == 0:
                    # may only be a hit on a tensor that is still the same object, impossible here
                    ensure(False, "a new tensor object hit the cache entry of another one")
                continue
            key = (o["cache"], i, repr(o["args"]), repr(sorted(o["kw"], key=str)), rep if fresh else 0)
            if fresh:
                key = None
            if rep == 1:
                ensure(ran == 0, "an identical call through the same cache ran the function again")
                hits[(o["cache"], i)] = hits.get((o["cache"], i), 0) + 1
                reps += 1
            else:
                if key in seen:
                    ensure(ran == 0, "an identical call through the same cache ran the function again")
                    reps += 1
                if ran == 0:
                    hits[(o["cache"], i)] = hits.get((o["cache"], i), 0) + 1
                seen[key] = True
        for k in range(2):
            for f in range(2):
                ensure(fs[f].get_total_cache_hits(caches[k]) == hits.get((k, f), 0), f"hit counter {fs[f].get_total_cache_hits(caches[k])}, model {hits.get((k, f), 0)}")
    return Info(reps > 0, f"reps{min(reps, 3)}")


@PROP.sub("expect", lambda: fixed(a=ints(-5, 5), b=ints(-5, 5), nested=st.booleans()), quick=150, thorough=1500)
def expect(c):
    """Hit expectations are enforced; caches passed as arguments are not part of the key; metadata survives."""
    from projects.torch_vct.utils import memoize as M

    n = [0]

    @M.memoize
    def inner(x, y=0):
        "doc of inner"
        n[0] += 1
        return x * 10 + y

    @M.memoize
    def outer(x, cache=None):
        return M.bind(inner, cache)(x) + 1

    ensure(inner.__name__ == "inner" and inner.__doc__ == "doc of inner", "metadata lost")
    k1, k2 = M.create_cache(), M.create_cache()
    raises(AssertionError, lambda: M.bind(inner, k1, expect_cache_hit=True)(c["a"], y=c["b"]), "expected hit on an empty cache")
    k1 = M.create_cache()
    ensure(M.bind(inner, k1, expect_cache_hit=False)(c["a"], y=c["b"]) == c["a"] * 10 + c["b"], "value")
    ensure(M.bind(inner, k1, expect_cache_hit=True)(c["a"], y=c["b"]) == c["a"] * 10 + c["b"], "value")
    raises(AssertionError, lambda: M.bind(inner, k1, expect_cache_hit=False)(c["a"], y=c["b"]), "unexpected hit accepted")
    raises(AssertionError, lambda: M.bind(inner, None, expect_cache_hit=True)(c["a"]), "hit expected without a cache")
    ensure(inner(c["a"]) == c["a"] * 10, "unbound call")
    for k in (k1, k2):
        before = n[0]
        ensure(M.bind(outer, k)(c["a"], cache=k) == c["a"] * 10 + 1, "nested value")
        ensure(M.bind(outer, k)(c["a"], cache=k) == c["a"] * 10 + 1, "nested value")
        ensure(n[0] - before == 1, "nested memoised function ran more than once")
        ensure(outer.get_total_cache_hits(k) == 1, "nested hit not counted")
    return Info(True)


@PROP.sub("lifetime", lambda: fixed(vals=st.lists(ints(0, 50), min_size=2, max_size=40), size=ints(1, 20)), quick=200, thorough=3000)
def lifetime(c):
    """Short-lived tensors: a cache entry never answers for a different tensor."""
    import torch
    from projects.torch_vct.utils import memoize as M

    @M.memoize
    def f(t):
        return float(t.sum())

    cache = M.create_cache()
    g = M.bind(f, cache)
    for v in c["vals"]:
        got = g(torch.full((c["size"],), float(v)))
        ensure(got == float(v * c["size"]), f"got {got} for a tensor summing to {v * c['size']}")
    return Info(len(set(c["vals"])) > 1)
