#!/usr/bin/env python
"""Mutation campaign: syntactic mutants of a source file, each judged by the quick checks mapped to it.

mutate.py --list FILE                      show the mutants
mutate.py --run OUT.jsonl [--max N] [--workers W] FILE...   run them in scratch copies under /tmp/mut
The checks run from a copy of /verif (evidence and replays of the real one stay as they are).
"""
import ast
import copy
import json
import os
import random
import shutil
import subprocess
import sys
import time
from concurrent.futures import ThreadPoolExecutor
from queue import Queue

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"

CMP = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.Is: ast.IsNot, ast.IsNot: ast.Is, ast.In: ast.NotIn, ast.NotIn: ast.In}
BIN = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult, ast.FloorDiv: ast.Div, ast.Mod: ast.FloorDiv, ast.Pow: ast.Mult}
NAMES = {"min": "max", "max": "min", "floor": "ceil", "ceil": "floor", "sum": "mean", "mean": "sum", "zeros": "ones", "ones": "zeros", "zeros_like": "ones_like", "ones_like": "zeros_like",
         "height": "width", "width": "height", "exp": "expm1", "log": "log1p", "sigmoid": "tanh", "argmin": "argmax", "argmax": "argmin", "append": "extend", "round": "floor", "any": "all", "all": "any",
         "train": "eval", "maximum": "minimum", "minimum": "maximum", "sin": "cos", "cos": "sin", "relu": "gelu", "abs": "square"}
DROP = {"clone", "detach", "contiguous", "float", "to", "eval", "cpu", "sqrt", "exp", "abs", "clamp", "round", "sum", "mean", "unsqueeze", "squeeze", "permute", "transpose", "sorted", "copy", "item", "long", "int", "flip"}


class Skip(Exception):
    pass


def sites(tree):
    """Yield (line, description, function applying the mutation to a node found by index)."""
    out = []
    skip = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module, ast.AsyncFunctionDef)) and n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant):
            skip.update(map(id, ast.walk(n.body[0])))
        if isinstance(n, ast.Raise):
            skip.update(map(id, ast.walk(n)))
        if isinstance(n, ast.Assert) and n.msg is not None:
            skip.update(map(id, ast.walk(n.msg)))
        if isinstance(n, (ast.AnnAssign,)):
            skip.update(map(id, ast.walk(n.annotation)))
        if isinstance(n, ast.arg) and n.annotation is not None:
            skip.update(map(id, ast.walk(n.annotation)))
        if isinstance(n, (ast.FunctionDef,)) and n.returns is not None:
            skip.update(map(id, ast.walk(n.returns)))
        if isinstance(n, ast.JoinedStr):
            skip.update(map(id, ast.walk(n)))
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            skip.add(id(n))
    nodes = list(ast.walk(tree))
    for i, n in enumerate(nodes):
        if id(n) in skip:
            continue
        line = getattr(n, "lineno", 0)

        def add(desc, fn, i=i, line=line):
            out.append((line, desc, i, fn))

        if isinstance(n, ast.Compare):
            for k, op in enumerate(n.ops):
                if type(op) in CMP:
                    add(f"compare {type(op).__name__}->{CMP[type(op)].__name__}", lambda m, k=k: m.ops.__setitem__(k, CMP[type(m.ops[k])]()))
        if isinstance(n, ast.BinOp) and type(n.op) in BIN:
            if not (isinstance(n.left, ast.Constant) and isinstance(n.left.value, str)):
                add(f"binop {type(n.op).__name__}->{BIN[type(n.op)].__name__}", lambda m: setattr(m, "op", BIN[type(m.op)]()))
        if isinstance(n, ast.AugAssign) and type(n.op) in BIN:
            add("augassign op", lambda m: setattr(m, "op", BIN[type(m.op)]()))
        if isinstance(n, ast.BoolOp):
            add("and<->or", lambda m: setattr(m, "op", ast.Or() if isinstance(m.op, ast.And) else ast.And()))
        if isinstance(n, (ast.If, ast.IfExp, ast.While)):
            add("cond->True", lambda m: setattr(m, "test", ast.Constant(True)))
            add("cond->False", lambda m: setattr(m, "test", ast.Constant(False)))
        if isinstance(n, ast.Constant):
            v = n.value
            if isinstance(v, bool):
                add(f"{v}->{not v}", lambda m: setattr(m, "value", not m.value))
            elif isinstance(v, int):
                add(f"{v}->{v + 1}", lambda m: setattr(m, "value", m.value + 1))
                if v not in (0,):
                    add(f"{v}->{v - 1}", lambda m: setattr(m, "value", m.value - 1))
            elif isinstance(v, float):
                add(f"{v}->{v * 1.1 + (v == 0) * 0.1}", lambda m: setattr(m, "value", m.value * 1.1 + (m.value == 0) * 0.1))
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.USub, ast.Not)):
            def f(m):
                m.op = ast.UAdd() if isinstance(m.op, ast.USub) else ast.Not()
                if isinstance(m.op, ast.Not):
                    m.operand = ast.UnaryOp(ast.Not(), m.operand)
            add("drop unary", f)
        for fld in ("body", "orelse", "finalbody"):
            body = getattr(n, fld, None)
            if isinstance(body, list):
                for k, s in enumerate(body):
                    if id(s) in skip:
                        continue
                    ok = isinstance(s, (ast.AugAssign, ast.Assert)) or (isinstance(s, ast.Expr) and not isinstance(s.value, ast.Constant)) or (
                        isinstance(s, ast.Assign) and (not isinstance(s.targets[0], ast.Name) or rebound(n, s)))
                    if ok:
                        out.append((s.lineno, "delete: " + ast.unparse(s)[:60].replace("\n", " "), i, lambda m, fld=fld, k=k: getattr(m, fld).__setitem__(k, ast.Pass())))
                    if isinstance(s, ast.With):
                        out.append((s.lineno, "drop with " + ast.unparse(s.items[0])[:40], i, lambda m, fld=fld, k=k: getattr(m, fld).__setitem__(k, ast.If(ast.Constant(True), getattr(m, fld)[k].body, []))))
        if isinstance(n, ast.Call):
            for k, kw in enumerate(n.keywords):
                if kw.arg:
                    out.append((line, f"drop keyword {kw.arg}", i, lambda m, k=k: m.keywords.pop(k)))
            if len(n.args) >= 2 and not any(isinstance(a, ast.Starred) for a in n.args[:2]) and ast.dump(n.args[0]) != ast.dump(n.args[1]):
                add("swap args", lambda m: m.args.__setitem__(slice(0, 2), [m.args[1], m.args[0]]))
            if isinstance(n.func, ast.Attribute) and n.func.attr in DROP and not isinstance(n.func.value, ast.Name) or (
                    isinstance(n.func, ast.Attribute) and n.func.attr in DROP and isinstance(n.func.value, ast.Name) and n.func.value.id not in ("torch", "math", "np", "F")):
                def g(m):
                    inner = m.func.value
                    m.func, m.args, m.keywords = ast.Lambda(ast.arguments([], [ast.arg("z")], None, [], [], None, []), ast.Name("z")), [inner], []
                add(f"drop .{n.func.attr}()", g)
        if isinstance(n, ast.Attribute) and n.attr in NAMES:
            add(f".{n.attr}->.{NAMES[n.attr]}", lambda m: setattr(m, "attr", NAMES[m.attr]))
        if isinstance(n, ast.Name) and n.id in NAMES and isinstance(n.ctx, ast.Load):
            add(f"{n.id}->{NAMES[n.id]}", lambda m: setattr(m, "id", NAMES[m.id]))
        if isinstance(n, ast.FunctionDef) and n.decorator_list:
            for k, dd in enumerate(n.decorator_list):
                t = ast.unparse(dd)
                if "no_grad" in t or "jit" in t:
                    add(f"drop decorator {t}", lambda m, k=k: m.decorator_list.pop(k))
    return out


def rebound(parent, s):
    """The name is assigned elsewhere too, or is a reassignment of itself."""
    t = s.targets[0].id
    return any(isinstance(x, ast.Name) and x.id == t for x in ast.walk(s.value))


def mutants(path):
    src = open(path).read()
    tree = ast.parse(src)
    base = ast.unparse(tree)
    seen = {base}
    for line, desc, i, fn in sites(tree):
        t = copy.deepcopy(tree)
        node = list(ast.walk(t))[i]
        try:
            fn(node)
            new = ast.unparse(ast.fix_missing_locations(t))
            compile(new, path, "exec")
        except Exception:
            continue
        if new in seen:
            continue
        seen.add(new)
        yield line, desc, new


def mapping():
    sys.path.insert(0, os.path.join(HERE, "tools"))
    extra = json.load(open(os.path.join(HERE, "tools", "mutmap.json")))
    return extra


def main():
    if sys.argv[1] == "--list":
        for f in sys.argv[2:]:
            ms = list(mutants(os.path.join(REPO, f)))
            print(f, len(ms))
            if len(sys.argv) == 3:
                for line, desc, _ in ms:
                    print(line, desc)
        return
    out = sys.argv[2]
    args = sys.argv[3:]
    mx, workers = 10**9, 8
    files = []
    while args:
        a = args.pop(0)
        if a == "--max":
            mx = int(args.pop(0))
        elif a == "--workers":
            workers = int(args.pop(0))
        else:
            files.append(a)
    mp = mapping()
    done = set()
    if os.path.exists(out):
        for l in open(out):
            r = json.loads(l)
            done.add((r["file"], r["line"], r["desc"], r["idx"]))
    jobs = []
    for f in files:
        ms = list(mutants(os.path.join(REPO, f)))
        idx = list(range(len(ms)))
        random.Random(f).shuffle(idx)
        for k in sorted(idx[:mx]):
            line, desc, new = ms[k]
            if (f, line, desc, k) not in done:
                jobs.append((f, k, line, desc, new))
    print(len(jobs), "mutants", flush=True)
    root = "/tmp/mut"
    os.makedirs(root, exist_ok=True)
    verif = os.path.join(root, "verif")
    subprocess.run(["rm", "-rf", verif], check=True)
    subprocess.run(["bash", "-c", f"mkdir -p {verif} && cd {HERE} && cp -a run.sh run.py vf KNOWN_FINDINGS.txt {verif}/"], check=True)
    p = os.path.join(verif, "run.py")
    s = open(p).read().replace('"quick": (120.0, 240.0)', '"quick": (400.0, 500.0)')
    open(p, "w").write(s)
    pool = Queue()
    for w in range(workers):
        d = os.path.join(root, f"w{w}")
        if not os.path.exists(d):
            subprocess.run(["cp", "-a", REPO, d], check=True)
        subprocess.run(["bash", "-c", f"cd {d} && git checkout -q -- . && git pull -q {REPO} HEAD 2>/dev/null; git reset -q --hard $(git -C {REPO} rev-parse HEAD)"], check=True)
        pool.put(d)

    def run(job):
        f, k, line, desc, new = job
        d = pool.get()
        target = os.path.join(d, f)
        orig = open(target).read()
        res = {"file": f, "line": line, "desc": desc, "idx": k, "killed": None, "rc": {}}
        t0 = time.time()
        try:
            open(target, "w").write(new)
            for pid in mp.get(f, []):
                try:
                    r = subprocess.run([os.path.join(verif, "run.sh"), pid, "--jobs", "2", "--seed", "5"], env={**os.environ, "VF_REPO": d}, capture_output=True, text=True, timeout=700)
                    rc, txt = r.returncode, r.stdout
                except subprocess.TimeoutExpired:
                    rc, txt = "timeout", ""
                res["rc"][pid] = rc
                if rc == 1 and "VIOLATION" in txt:
                    res["killed"] = pid
                    res["why"] = " ".join(txt.split())[:200]
                    break
                if rc not in (0, 1):
                    res["err"] = (txt[-300:])
        finally:
            open(target, "w").write(orig)
            pool.put(d)
        res["s"] = round(time.time() - t0)
        with open(out, "a") as fh:
            fh.write(json.dumps(res) + "\n")
        if not res["killed"]:
            print("SURVIVED", f, line, desc, res["rc"], res["s"], flush=True)

    with ThreadPoolExecutor(workers) as ex:
        list(ex.map(run, jobs))


if __name__ == "__main__":
    main()
