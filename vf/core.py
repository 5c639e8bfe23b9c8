"""Harness core: sub-checks, the Hypothesis driver, helpers shared by the property modules.

A *sub* pairs a Hypothesis strategy that yields a plain JSON-able ``case`` with a
``check(case)`` function.  ``check`` imports and drives the code under test, raises on a
violation (any exception escaping it is one) and returns an ``Info`` otherwise.  A case is
the whole input: replaying the JSON file of a shrunk case needs no generator.
"""
import contextlib
import hashlib
import io
import json
import random
import signal
import threading
import time
import traceback
import warnings


class Violation(AssertionError):
    """The property does not hold on this case."""


class Reject(Exception):
    """The generated case lies outside the property's domain."""


class Unsupported(Exception):
    """The harness (a stand-in for a missing dependency) cannot execute this case."""


class Hang(Violation):
    """A case did not terminate (the limit is ~1000x what a case takes)."""


class StopBudget(BaseException):
    """Wall-clock budget used up; ends the search, never a verdict."""


class Info:
    __slots__ = ("nontrivial", "labels")

    def __init__(self, nontrivial=True, *labels):
        self.nontrivial = bool(nontrivial)
        self.labels = [str(x) for x in labels if x is not None]


class Sub:
    def __init__(self, name, strategy, check, quick, thorough, shards, examples, rule):
        self.name = name
        self.strategy = strategy  # zero-argument callable
        self.check = check
        self.quick = quick
        self.thorough = thorough
        self.shards = shards
        self.examples = examples or []
        self.rule = rule


class Prop:
    def __init__(self, pid, rule, preload=None, assumptions=()):
        self.pid = pid
        self.rule = rule
        self.subs = []
        self.known = []  # (key in KNOWN_FINDINGS.txt, function raising while the finding persists)
        self.preload = preload
        self.assumptions = list(assumptions)

    def sub(self, name, strategy, quick=100, thorough=None, shards=None, examples=None, rule=""):
        def deco(fn):
            self.subs.append(
                Sub(name, strategy, fn, quick, thorough or quick * 12, shards, examples, rule)
            )
            return fn

        return deco

    def finding(self, key):
        """A recorded defect: one specific failing input, outside the generated domain."""

        def deco(fn):
            self.known.append((key, fn))
            return fn

        return deco


def seed_all(n=0):
    import numpy as np
    import torch

    random.seed(n)
    np.random.seed(n & 0xFFFFFFFF)
    torch.manual_seed(n)


def dumps(case):
    return json.dumps(case, sort_keys=True)


CASE_LIMIT_S = 100  # a case takes milliseconds to seconds; this only ends endless loops


def _on_alarm(signum, frame):
    raise Hang(f"the code under test did not finish within {CASE_LIMIT_S} s on this case")


@contextlib.contextmanager
def case_limit():
    if threading.current_thread() is not threading.main_thread():
        yield
        return
    old = signal.signal(signal.SIGALRM, _on_alarm)
    signal.setitimer(signal.ITIMER_REAL, CASE_LIMIT_S)
    try:
        yield
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


CURRENT = None  # file that names the running case, so that a native crash can be attributed


def run_one(sub, case):
    """Execute one case in a clean-ish state; returns Info or raises."""
    text = dumps(case)
    case = json.loads(text)  # what a replay sees is what is checked
    if CURRENT:
        with open(CURRENT, "w") as f:
            f.write(text)
    seed_all(0)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        with contextlib.redirect_stderr(io.StringIO()), contextlib.redirect_stdout(io.StringIO()), case_limit():
            info = sub.check(case)
    return info if isinstance(info, Info) else Info(True)


def describe(exc):
    tb = traceback.extract_tb(exc.__traceback__)
    frames = [f"{f.filename}:{f.lineno} {f.name}" for f in tb[-4:]]
    msg = str(exc)
    if len(msg) > 1500:
        msg = msg[:1500] + "..."
    return f"{type(exc).__name__}: {msg}\n  at " + "\n  at ".join(frames)


def drive(sub, seed, max_examples, deadline, shrink_budget=60.0):
    """Search one shard. Returns a JSON-able result dict."""
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings

    res = {
        "sub": sub.name,
        "evaluations": 0,
        "rejected": 0,
        "unsupported": 0,
        "unsupported_why": [],
        "nontrivial": [],
        "labels": {},
        "samples": [],
        "failure": None,
        "stopped_early": False,
    }
    state = {"first_fail": None, "best": None}
    seen = set()

    def record_failure(case, exc):
        text = dumps(case)
        if state["first_fail"] is None:
            state["first_fail"] = time.monotonic()
        if state["best"] is None or len(text) <= len(state["best"][0]):
            state["best"] = (text, describe(exc))

    def body(case):
        now = time.monotonic()
        if state["first_fail"] is not None:
            if now - state["first_fail"] > shrink_budget:
                raise StopBudget()
        elif now > deadline:
            res["stopped_early"] = True
            raise StopBudget()
        try:
            info = run_one(sub, case)
        except Reject:
            res["rejected"] += 1
            hypothesis.reject()
        except Unsupported as e:
            res["unsupported"] += 1
            if len(res["unsupported_why"]) < 3:
                res["unsupported_why"].append(str(e)[:200])
            return
        except (MemoryError, KeyboardInterrupt):
            raise
        except Exception as e:
            record_failure(case, e)
            if isinstance(e, Hang):
                raise StopBudget()  # shrinking a hang costs the limit per step
            raise
        if state["first_fail"] is None:
            res["evaluations"] += 1
            for lab in info.labels:
                res["labels"][lab] = res["labels"].get(lab, 0) + 1
            if info.nontrivial:
                h = hashlib.sha1(dumps(case).encode()).hexdigest()[:16]
                if h not in seen:
                    seen.add(h)
                    if len(res["samples"]) < 2 or (len(seen) % 17 == 0 and len(res["samples"]) < 4):
                        text = dumps(case)
                        res["samples"].append(case if len(text) < 1500 else text[:1500] + "...")

    test = settings(
        max_examples=max_examples,
        database=None,
        deadline=None,
        derandomize=False,
        print_blob=False,
        report_multiple_bugs=False,
        phases=(Phase.generate, Phase.shrink),
        suppress_health_check=list(HealthCheck),
    )(given(sub.strategy())(body))
    test = hypothesis.seed(seed)(test)
    try:
        with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
            test()
    except StopBudget:
        pass
    except (MemoryError, KeyboardInterrupt):
        raise
    except BaseException:
        if state["best"] is None:
            raise
    if state["best"] is not None:
        res["failure"] = {"case": json.loads(state["best"][0]), "error": state["best"][1]}
    res["nontrivial"] = sorted(seen)
    return res


# ---------------------------------------------------------------- assertions


def ensure(cond, msg):
    if not bool(cond):
        raise Violation(msg() if callable(msg) else msg)


def same_shape(a, b, what="shape"):
    ensure(tuple(a.shape) == tuple(b.shape), lambda: f"{what}: {tuple(a.shape)} != {tuple(b.shape)}")


def close(actual, expected, rtol, atol, what="value"):
    """Elementwise |a-e| <= atol + rtol*|e|, equal NaN/inf patterns, same shape."""
    import numpy as np
    import torch

    def arr(x):
        if isinstance(x, torch.Tensor):
            return x.detach().cpu().to(torch.float64).numpy()
        return np.asarray(x, dtype=np.float64)

    a, e = arr(actual), arr(expected)
    ensure(a.shape == e.shape, lambda: f"{what}: shape {a.shape} != {e.shape}")
    if a.size == 0:
        return
    with np.errstate(all="ignore"):
        same = (a == e) | (np.isnan(a) & np.isnan(e))
        bad = ~same & ~(np.abs(a - e) <= atol + rtol * np.abs(e))
    if bad.any():
        i = tuple(int(x) for x in np.argwhere(bad)[0])
        raise Violation(
            f"{what}: {int(bad.sum())}/{bad.size} elements differ, first at {i}: "
            f"actual {a[i]!r} expected {e[i]!r} (rtol={rtol}, atol={atol})"
        )


def equal(actual, expected, what="value"):
    close(actual, expected, 0.0, 0.0, what)


def raises(excs, fn, what):
    try:
        fn()
    except excs:
        return
    raise Violation(f"{what}: expected {excs}, nothing was raised")


# ---------------------------------------------------------------- data recipes


def rnd(shape, seed, kind="normal", dtype=None, scale=1.0):
    """A tensor that is a pure function of its recipe."""
    import torch

    g = torch.Generator().manual_seed(int(seed))
    shape = tuple(int(s) for s in shape)
    if kind == "normal":
        t = torch.randn(shape, generator=g, dtype=torch.float64)
    elif kind == "uniform":
        t = torch.rand(shape, generator=g, dtype=torch.float64)
    elif kind == "symmetric":
        t = 2 * torch.rand(shape, generator=g, dtype=torch.float64) - 1
    elif kind == "zeros":
        t = torch.zeros(shape, dtype=torch.float64)
    elif kind == "ones":
        t = torch.ones(shape, dtype=torch.float64)
    elif kind == "const":
        t = torch.full(shape, float(torch.rand((), generator=g)), dtype=torch.float64)
    elif kind == "binary":
        t = torch.randint(0, 2, shape, generator=g).double()
    elif kind == "levels":  # few distinct levels incl. the extremes 0 and 1
        t = torch.randint(0, 6, shape, generator=g).double() / 5.0
    elif kind == "ramp":
        n = 1
        for s in shape:
            n *= s
        t = (torch.arange(n, dtype=torch.float64) / max(n - 1, 1)).reshape(shape)
    elif kind == "impulse":
        t = torch.zeros(shape, dtype=torch.float64)
        if t.numel():
            t.view(-1)[int(torch.randint(0, t.numel(), (1,), generator=g))] = 1.0
    else:
        raise ValueError(kind)
    return (t * scale).to(dtype or torch.float32)


IMAGE_KINDS = ["uniform", "zeros", "ones", "const", "binary", "levels", "ramp", "impulse"]


def viewed(x, seed):
    """The same values in another memory layout (two recipes in five): behaviour must not depend on it."""
    import torch

    r = int(seed) % 5
    if r == 3 and x.dim() > 1:
        return x.transpose(-1, -2).contiguous().transpose(-1, -2)
    if r == 4 and x.dim() == 4:
        return x.contiguous(memory_format=torch.channels_last)
    if r == 4 and x.dim() > 0:
        return torch.stack([x, -x], -1)[..., 0]
    return x
