"""mkbug.py SPEC.py: SPEC defines BUGS = [dict(id, property, needs, breaks, edits=[(file, old, new)], demo=python source)]."""
import json, os, subprocess, sys, shutil

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ns = {}
exec(open(sys.argv[1]).read(), ns)
for b in ns["BUGS"]:
    if sys.argv[2:] and b["id"] not in sys.argv[2:]:
        continue
    d = os.path.join(ROOT, "seeded", b["id"])
    os.makedirs(d, exist_ok=True)
    wt = "/tmp/mkbug_wt"
    shutil.rmtree(wt, ignore_errors=True)
    subprocess.check_call(["git", "-C", "/repo", "worktree", "prune"])
    subprocess.check_call(["git", "clone", "-q", "/repo", wt])
    for f, old, new in b["edits"]:
        p = os.path.join(wt, f)
        s = open(p).read()
        assert s.count(old) == 1, (b["id"], f, s.count(old))
        open(p, "w").write(s.replace(old, new))
    diff = subprocess.check_output(["git", "-C", wt, "diff"], text=True)
    assert diff
    open(os.path.join(d, "patch.diff"), "w").write(diff)
    open(os.path.join(d, "demo.py"), "w").write("import os, sys\nsys.path.insert(0, os.getcwd())\nsys.dont_write_bytecode = True\n" + b["demo"].strip() + "\n")
    open(os.path.join(d, "demo.sh"), "w").write('#!/bin/bash\n. /opt/vp/env.sh >/dev/null 2>&1\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
    json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
    shutil.rmtree(wt)
    print(b["id"], len(diff.splitlines()), "lines")
