#!/usr/bin/env python
"""Driver: run.py <property> [--tier quick|thorough] [--replay FILE] [--sub NAME] [--seed N] [--jobs N]"""
import argparse
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import signal
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VF_REPO", "/repo")
sys.dont_write_bytecode = True
sys.path.insert(0, HERE)
sys.path.insert(0, REPO)

from vf import deps  # noqa: E402

deps.ensure()

from vf import core  # noqa: E402

BUDGET = {"quick": (120.0, 240.0), "thorough": (600.0, 840.0)}  # per task, whole run (s)


def load(pid):
    for fn in sorted(os.listdir(os.path.join(HERE, "vf", "props"))):
        if fn.startswith(pid.lower() + "_") and fn.endswith(".py"):
            return importlib.import_module("vf.props." + fn[:-3]).PROP
    raise SystemExit(f"unknown property {pid}")


def derive(seed, *parts):
    h = hashlib.sha256(repr((int(seed),) + parts).encode()).digest()
    return int.from_bytes(h[:6], "big")


CRASHES = (-signal.SIGSEGV, -signal.SIGABRT, -signal.SIGBUS, -signal.SIGFPE, -signal.SIGILL)


def crash_child(sub, case):
    import torch

    torch.set_num_threads(1)
    os.dup2(os.open(os.devnull, os.O_WRONLY), 2)
    try:
        core.run_one(sub, case)
    except BaseException:
        pass
    os._exit(0)


def confirm_crash(ctx, sub, case):
    """Does this case, alone in a fresh worker, bring the interpreter down again?"""
    p = ctx.Process(target=crash_child, args=(sub, case))
    p.start()
    p.join(200)
    if p.is_alive():
        p.kill()
        p.join()
        return False
    return p.exitcode in CRASHES


def worker(sub, seed, n, budget, global_end, path, run_examples):
    try:
        core.CURRENT = path + ".cur"
        os.dup2(os.open(os.devnull, os.O_WRONLY), 2)
        import torch

        torch.set_num_threads(1)
        deadline = min(time.monotonic() + budget, global_end)
        res = None
        if run_examples:
            for case in sub.examples:
                try:
                    core.run_one(sub, case)
                except (core.Reject, core.Unsupported):
                    pass
                except Exception as e:  # pinned regression case failed
                    res = {
                        "sub": sub.name, "evaluations": 1, "rejected": 0, "unsupported": 0,
                        "unsupported_why": [], "nontrivial": [], "labels": {}, "samples": [],
                        "stopped_early": False,
                        "failure": {"case": case, "error": core.describe(e)},
                    }
                    break
        if res is None:
            res = core.drive(sub, seed, n, deadline)
            if run_examples:
                res["evaluations"] += len(sub.examples)
        out = {"ok": True, "res": res}
    except BaseException:
        out = {"ok": False, "error": traceback.format_exc()}
    tmp = path + ".tmp"
    with open(tmp, "w") as f:
        json.dump(out, f)
    os.rename(tmp, path)
    os._exit(0)


def findings(pid):
    """Lines "known: property=<id> <key>: <what fails>" of the committed file."""
    out = {}
    with open(os.path.join(HERE, "KNOWN_FINDINGS.txt")) as f:
        for line in f:
            if line.startswith(f"known: property={pid} "):
                key, _, what = line.split(" ", 2)[2].strip().partition(": ")
                out[key] = what
    return out


def write_replay(pid, sub, failure):
    d = os.path.join(HERE, "replays")
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, f"{pid}-{sub}.json")
    with open(p, "w") as f:
        json.dump({"property": pid, "sub": sub, **failure}, f, indent=1)
    return p


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED") or 1))
    ap.add_argument("--replay")
    ap.add_argument("--sub")
    ap.add_argument("--jobs", type=int, default=min(8, os.cpu_count() or 1))
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    tier = a.tier if a.tier in BUDGET else "quick"
    t0 = time.monotonic()

    prop = load(a.property)
    pid = prop.pid
    import torch

    torch.set_num_threads(1)
    os.chdir(tempfile.gettempdir())

    if a.replay:
        with open(a.replay) as f:
            rep = json.load(f)
        sub = next(s for s in prop.subs if s.name == rep["sub"])
        try:
            core.run_one(sub, rep["case"])
        except core.Reject:
            print("replay: case outside the domain")
            return 0
        except Exception as e:
            print(core.describe(e))
            print(f"VIOLATION property={pid} replay={os.path.abspath(a.replay)}")
            return 1
        print("replay: property held on this case")
        return 0

    if prop.preload:
        try:
            prop.preload()
        except Exception:
            pass  # surfaces inside the cases, where it is attributed

    subs = [s for s in prop.subs if not a.sub or s.name == a.sub]
    per_task, whole = BUDGET[tier]
    global_end = t0 + whole
    tasks = []
    for s in subs:
        total = s.quick if tier == "quick" else s.thorough
        shards = s.shards or max(1, min(8, -(-12 // len(subs)), total // 10 or 1))
        for k in range(shards):
            tasks.append((s, k, -(-total // shards)))
    tasks.sort(key=lambda t: t[1])  # one shard of every sub first

    ctx = mp.get_context("fork")
    tmpdir = tempfile.mkdtemp(prefix="vf_run_")
    running, results, errors, failed = {}, [], [], None
    try:
        queue = list(enumerate(tasks))
        while (queue or running) and failed is None:
            while queue and len(running) < a.jobs:
                i, (s, k, n) = queue.pop(0)
                path = os.path.join(tmpdir, f"{i}.json")
                p = ctx.Process(
                    target=worker,
                    args=(s, derive(a.seed, pid, s.name, k), n, per_task, global_end, path, k == 0),
                )
                p.start()
                running[i] = (p, path, s)
            time.sleep(0.02)
            for i, (p, path, s) in list(running.items()):
                if p.is_alive():
                    if time.monotonic() > global_end + 150:
                        p.kill()
                        p.join()
                        errors.append(f"{s.name}: a single case ran past the budget")
                        del running[i]
                    continue
                p.join()
                del running[i]
                if not os.path.exists(path):
                    cur = path + ".cur"
                    if p.exitcode in CRASHES and os.path.exists(cur):
                        with open(cur) as f:
                            case = json.loads(f.read())
                        if confirm_crash(ctx, s, case):
                            failed = {
                                "sub": s.name, "evaluations": 1, "rejected": 0, "unsupported": 0,
                                "unsupported_why": [], "nontrivial": [], "labels": {}, "samples": [],
                                "stopped_early": False,
                                "failure": {"case": case, "error": f"native crash (signal {-p.exitcode}) on this case"},
                            }
                            results.append(failed)
                            break
                    errors.append(f"{s.name}: worker died (exit {p.exitcode})")
                    continue
                with open(path) as f:
                    out = json.load(f)
                if not out["ok"]:
                    errors.append(f"{s.name}: {out['error']}")
                    continue
                results.append(out["res"])
                if out["res"]["failure"]:
                    failed = out["res"]
    finally:
        for p, _, _ in running.values():
            p.kill()
        for p, _, _ in running.values():
            p.join()
        for fn in os.listdir(tmpdir):
            os.unlink(os.path.join(tmpdir, fn))
        os.rmdir(tmpdir)

    per_sub = {}
    distinct = 0
    for s in subs:
        rs = [r for r in results if r["sub"] == s.name]
        keys = set()
        labels = {}
        samples = []
        for r in rs:
            keys.update(r["nontrivial"])
            samples.extend(r["samples"])
            for k, v in r["labels"].items():
                labels[k] = labels.get(k, 0) + v
        distinct += len(keys)
        per_sub[s.name] = {
            "evaluations": sum(r["evaluations"] for r in rs),
            "distinct_nontrivial": len(keys),
            "rejected": sum(r["rejected"] for r in rs),
            "unsupported": sum(r["unsupported"] for r in rs),
            "stopped_by_budget": sum(bool(r["stopped_early"]) for r in rs),
            "labels": dict(sorted(labels.items())),
            "samples": samples[:3],
        }
        why = [w for r in rs for w in r["unsupported_why"]]
        if why:
            per_sub[s.name]["unsupported_why"] = why[:3]
        if s.rule:
            per_sub[s.name]["rule"] = s.rule
    evals = sum(v["evaluations"] for v in per_sub.values())
    all_samples = [
        {"sub": n, "case": c} for n, v in per_sub.items() for c in v["samples"][:2]
    ]
    ev = {
        "property": pid,
        "tier": tier,
        "seed": a.seed,
        "level": "exploration",
        "coverage": {
            "evaluations": evals,
            "distinct_nontrivial": distinct,
            "rule": prop.rule,
            "samples": all_samples[:12],
            "subs": {n: {k: x for k, x in v.items() if k != "samples"} for n, v in per_sub.items()},
        },
        "assumptions": prop.assumptions,
        "wall_s": round(time.monotonic() - t0, 2),
        "violations": 1 if failed else 0,
    }
    if not a.sub:
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        p = os.path.join(HERE, "evidence", f"{pid}.json")
        with open(p + ".tmp", "w") as f:
            json.dump(ev, f, indent=1)
        os.rename(p + ".tmp", p)

    if not a.sub and failed is None:
        listed = findings(pid)
        for key, fn in prop.known:
            try:
                fn()
            except Exception as e:
                if key in listed:
                    print(f"KNOWN-FINDING: property={pid} {listed[key]}")
                else:
                    failed = {"sub": "finding-" + key, "failure": {"case": key, "error": core.describe(e)}}
    if a.v:
        print(json.dumps(ev["coverage"]["subs"], indent=1))
    if failed:
        p = write_replay(pid, failed["sub"], failed["failure"])
        print(f"{pid}/{failed['sub']}: {failed['failure']['error']}")
        print("case:", json.dumps(failed["failure"]["case"])[:2000])
        print(f"VIOLATION property={pid} replay={p}")
        return 1
    if errors:
        print("\n".join(errors), file=sys.stderr)
        print(f"{pid}: harness error", file=sys.stderr)
        return 2
    if evals == 0:
        print(f"{pid}: nothing was evaluated", file=sys.stderr)
        return 2
    print(
        f"{pid}: held on {evals} cases ({distinct} distinct non-trivial), "
        f"tier={tier} seed={a.seed}, {ev['wall_s']} s"
    )
    return 0


if __name__ == "__main__":
    code = main()
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(code)
