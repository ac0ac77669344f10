"""Writes DESIGN.md: the table of properties from properties.jsonl, the rest from the text below and tools/design_*.md."""
import ast
import json
import os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = os.path.join(HERE, "tools")


def const(cid, names):
    tree = ast.parse(open(os.path.join(HERE, "pvm", "checks", cid + ".py")).read())
    out = {}
    for s in tree.body:
        if isinstance(s, ast.Assign) and s.targets[0].id in names:
            out[s.targets[0].id] = ast.literal_eval(s.value)
    return out


out = [open(os.path.join(T, "design_head.md")).read()]
extra = {}
for blk in open(os.path.join(T, "design_props.md")).read().split("\n## ")[1:]:
    k, b = blk.split("\n", 1)
    extra[k.strip()] = b.strip()
for l in open(os.path.join(HERE, "properties.jsonl")):
    p = json.loads(l)
    c = const(p["id"], ("RULE", "CASES", "ASSUMES", "MIN"))
    out.append("### %s  %s\n" % (p["id"], p["title"]))
    out.append(extra[p["id"]] + "\n")
    out.append("*Case and evaluation:* " + c["RULE"] + ".\n")
    out.append("*Bounds:* %d cases (quick), %d (thorough), seeded by VERIF_SEED.%s A run that saw fewer events than %s "
               "gives no answer (exit 2) instead of passing.\n" % (
                   c["CASES"]["quick"], c["CASES"]["thorough"],
                   " Assumes: " + "; ".join(c["ASSUMES"]) + "." if "ASSUMES" in c else "",
                   ", ".join("%s %d" % kv for kv in c["MIN"].items())))
rows = ["| bug | property | needs | caught by |", "|---|---|---|---|"]
for b in sorted(os.listdir(os.path.join(HERE, "seeded"))):
    m = json.load(open(os.path.join(HERE, "seeded", b, "meta.json")))
    caught = json.load(open(os.path.join(T, "caught.json"))).get(b, "?")
    rows.append("| %s | %s | %s | %s |" % (b, m["property"], m["needs"], caught))
out.append(open(os.path.join(T, "design_tail.md")).read().replace("@BUGS@", "\n".join(rows)))
with open(os.path.join(HERE, "DESIGN.md"), "w") as f:
    f.write("\n".join(out))
