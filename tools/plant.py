"""Verify planted bugs: plant.py ID... (patch applies, tests pass, demo separates, the check catches it)."""
import json, os, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def sh(cmd, cwd, env=None, timeout=1200):
    e = dict(os.environ)
    e.update(env or {})
    try:
        p = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired:
        return 124, "timeout"


def one(pid, tests=True):
    d = os.path.join(ROOT, "seeded", pid)
    meta = json.load(open(os.path.join(d, "meta.json")))
    copy = f"/tmp/plant_{pid}"
    shutil.rmtree(copy, ignore_errors=True)
    subprocess.check_call(["cp", "-a", "/repo", copy])
    res = {"id": pid, "property": meta["property"]}
    try:
        rc, out = sh(["git", "apply", os.path.join(d, "patch.diff")], copy)
        if rc:
            return {**res, "error": out}
        env = {"PYTHONPATH": copy}
        rc, out = sh(["bash", os.path.join(d, "demo.sh")], "/repo")
        res["demo_clean"] = rc if rc == 0 else (rc, out[-500:])
        rc, out = sh(["bash", os.path.join(d, "demo.sh")], copy, env)
        res["demo_bug"] = rc
        rc, out = sh([os.path.join(ROOT, "run.sh"), meta["property"]], ROOT, {"VF_REPO": copy, "VERIF_SEED": "1"})
        res["check"] = rc
        res["msg"] = out[:300]
        if tests:
            rc, out = sh(["bash", "-c", f". /opt/vp/env.sh; python -m pytest -q -p no:cacheprovider -n 4 --continue-on-collection-errors --ignore=tests/loss_fn/test_mse_lpips_loss.py tests projects/torch_vct/tests 2>&1 | tail -15"], copy, env)
            res["tests"] = out.strip().splitlines()[-1]
            bad = [l for l in out.splitlines() if l.startswith(("FAILED", "ERROR"))]
            res["bad"] = bad
    finally:
        shutil.rmtree(copy, ignore_errors=True)
    return res


if __name__ == "__main__":
    ids = [a for a in sys.argv[1:] if not a.startswith("-")] or sorted(os.listdir(os.path.join(ROOT, "seeded")))
    for i in ids:
        print(json.dumps(one(i, "--notests" not in sys.argv), indent=1), flush=True)
