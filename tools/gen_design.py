import ast
import json
import os
HERE = os.path.dirname(os.path.abspath(__file__))
V = os.path.dirname(HERE)


def doc(path):
    return (ast.get_docstring(ast.parse(open(path).read())) or "").strip()


def write(props):
    o = [open(HERE + "/design_head.md").read().rstrip(), "", "## Properties", ""]
    for p in props:
        if p.get("na"):
            continue
        r = V + "/rules/%s.py" % p["id"].lower()
        if not os.path.exists(r):
            continue
        o += ["### %s. %s" % (p["id"], p["title"]), "", p["statement"], "",
              "*Quantifies over* %s. *Tests cannot settle it:* %s" % (p["quant"], p["why"]), "",
              "*Decided by* %s:" % p["technique"], "", doc(r), "", "*Bounds.* " + p["note"], ""]
    o += ["## Not decided with this family", ""]
    for p in props:
        if p.get("na"):
            o.append("* **%s. %s**: %s" % (p["id"], p["title"], p["na"]))
    o += ["", open(HERE + "/design_tail.md").read().rstrip(), "", "## Defects found", ""]
    kf = json.load(open(V + "/known_findings.json"))
    o.append("Repaired in /repo (each by its own `fix:` commit; the check fires again on the tree without the repair unless noted):")
    o.append("")
    o += ["* " + x for x in kf["fixed"]]
    o += ["", "Recorded, not repaired:", ""]
    for f in kf["findings"]:
        o.append("* " + (f if isinstance(f, str) else json.dumps(f)))
    if not kf["findings"]:
        o.append("* none that a check reports.")
    o += ["", "## Planted bugs", "", "| change | property | needs | caught by |", "|---|---|---|---|"]
    caught = json.load(open(HERE + "/caught.json")) if os.path.exists(HERE + "/caught.json") else {}
    for d in sorted(os.listdir(V + "/seeded")):
        m = json.load(open(V + "/seeded/" + d + "/meta.json"))
        o.append("| %s: %s | %s | %s | %s |" % (d, m["what_it_breaks"].replace("|", "/"), m["property"], m["needs"].replace("|", "/"),
                                                 ", ".join(caught.get(d, [])) or "not caught"))
    open(V + "/DESIGN.md", "w").write("\n".join(o) + "\n")
