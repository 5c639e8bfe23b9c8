"""Write properties.jsonl and MANIFEST.json from the catalogue."""
import json, os, sys

here = os.path.dirname(os.path.abspath(__file__))
root = os.path.dirname(here)
sys.path.insert(0, here)
import catalog

with open(os.path.join(root, "properties.jsonl"), "w") as f:
    for p in sorted(catalog.P, key=lambda p: p["id"]):
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]]},
        }) + "\n")
        for x in p["files"]:
            assert os.path.exists("/repo/" + x), x
man = {
    "version": 1, "setup_cmd": "./setup.sh",
    "checks": [
        {"property": p["id"], "quick_cmd": f"./run.sh {p['id']} --tier quick", "thorough_cmd": f"./run.sh {p['id']} --tier thorough",
         "technique": p["technique"], "level": "exploration", "level_note": p["note"]}
        for p in sorted(catalog.P, key=lambda p: p["id"])
    ],
    "not_applicable": catalog.NOT_APPLICABLE,
}
with open(os.path.join(root, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1)
    f.write("\n")
print(len(catalog.P), "properties")

# ---- DESIGN.md
sys.path.insert(0, root)
os.environ.setdefault("PYTHONDONTWRITEBYTECODE", "1")
from vf import deps
deps.ensure()
import importlib
out = [open(os.path.join(here, "design_head.md")).read(), "## Properties\n\n"]
mods = {fn[:3].upper(): fn[:-3] for fn in os.listdir(os.path.join(root, "vf", "props")) if fn[0] == "p"}
for p in sorted(catalog.P, key=lambda p: p["id"]):
    m = importlib.import_module("vf.props." + mods[p["id"]])
    out.append(f"### {p['id']} {p['title']}\n\n")
    out.append(f"*Method*: {p['technique']}.  *Bounds and trust*: {p['note']}\n\n")
    if m.__doc__:
        out.append("*Oracle*: " + " ".join(m.__doc__.split()).split(": ", 1)[-1] + "\n\n")
    out.append(f"*Generated*: {m.PROP.rule}\n\n")
    out.append("*Why tests cannot*: " + p["why"] + "\n\n")
    out.append("| sub-check | quick cases | thorough cases |\n|---|---|---|\n")
    for s in m.PROP.subs:
        out.append(f"| {s.name} | {s.quick} | {s.thorough} |\n")
    out.append("\n")
tail = os.path.join(here, "design_tail.md")
if os.path.exists(tail):
    out.append(open(tail).read())
with open(os.path.join(root, "DESIGN.md"), "w") as f:
    f.write("".join(out))
