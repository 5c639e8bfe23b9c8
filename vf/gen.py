"""Strategies shared by the property modules (all yield JSON-able values)."""
import hypothesis.strategies as st

seeds = st.integers(0, 2**31 - 1)
dtypes = st.sampled_from(["float32", "float64"])


def fl(lo, hi):
    return st.floats(lo, hi, allow_nan=False, allow_infinity=False, width=64)


def fixed(**kw):
    return st.fixed_dictionaries(kw)


def pick(*xs):
    return st.sampled_from(list(xs))


def ints(lo, hi):
    return st.integers(lo, hi)


def shapes(min_dims=1, max_dims=4, lo=1, hi=5):
    return st.lists(st.integers(lo, hi), min_size=min_dims, max_size=max_dims)


def values(strategy, lo=1, hi=24):
    return st.lists(strategy, min_size=lo, max_size=hi)


def DT(name):
    import torch

    return getattr(torch, name)


def weighted(*pairs):
    """weighted((3, a), (1, b)): a three times as often as b (one_of drops repeated branches)."""
    table = [i for i, (w, _) in enumerate(pairs) for _ in range(w)]

    @st.composite
    def s(draw):
        return draw(pairs[draw(st.sampled_from(table))][1])

    return s()


def big(lo, hi, *bigs, odds=10):
    """Mostly lo..hi; one draw in ``odds`` is one of the listed larger values."""
    return weighted((odds - 1, st.integers(lo, hi)), (1, st.sampled_from(list(bigs))))


def grown(base, *variants, odds=12):
    """Mostly ``base``; one draw in odds+len(variants) each takes a variant's larger ranges instead."""
    return weighted((odds, fixed(**base)), *[(1, fixed(**{**base, **v})) for v in variants])
