"""Writes FAMILIES.md: what every check enumerates in quick (with counts from the last quick runs in evidence/) and in thorough."""
import contextlib
import importlib
import io
import json
import os
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
out = ["# Families of cases, check by check", "",
       "Written by tools/mk_families.py. Counts are those of quick (cases / steps judged); the thorough bound is given where it differs.", ""]
titles = {}
for line in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(line)
    titles[p["id"]] = p["title"]
for i in sorted(titles):
    m = importlib.import_module("mc.props." + i.lower())
    ev = json.load(open(os.path.join(V, "evidence", i + ".json")))
    assert ev["tier"] == "quick"
    out += ["## %s %s" % (i, titles[i]), ""]
    with contextlib.redirect_stdout(io.StringIO()):
        th = {f.name: f.bound for f in m.families("thorough")}
    seen = set()
    for f in ev["coverage"]["families"]:
        seen.add(f["name"])
        t = th.get(f["name"])
        out.append("* **%s** (%d / %d): %s%s" % (f["name"], f["cases"], f["transitions"], f["bound"],
                   " *Thorough:* %s" % t if t and t != f["bound"] else "" if t else " (quick only)"))
    for k in th:
        if k not in seen:
            out.append("* **%s** (thorough only): %s" % (k, th[k]))
    out.append("")
open(os.path.join(V, "FAMILIES.md"), "w").write("\n".join(out))
