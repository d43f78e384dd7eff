"""Writes DESIGN.md from doc/head.md, doc/tail.md, doc/oracles.py, mc/catalog.py, the bounds in mc/props and the last evidence."""
import ast
import json
import os
import re
import sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, here)
from mc import catalog  # noqa
ns = {}
exec(open(os.path.join(here, "doc/oracles.py")).read(), ns)


def consts(pid):
    t = ast.parse(open(os.path.join(here, "mc/props/%s.py" % pid.lower())).read())
    r = {}
    for n in t.body:
        if isinstance(n, ast.Assign) and getattr(n.targets[0], "id", "") in ("BOUNDS", "RULE", "ASSUMPTIONS"):
            r[n.targets[0].id] = ast.literal_eval(n.value)
    return r


out = [open(os.path.join(here, "doc/head.md")).read().rstrip() + "\n"]
old = {}
if os.path.exists(os.path.join(here, "DESIGN.md")):
    for m in re.finditer(r"^### (P\d+).*?^\* Cost: (.*?)$", open(os.path.join(here, "DESIGN.md")).read(), re.S | re.M):
        old[m.group(1)] = m.group(2)
for p in catalog.PROPS:
    c = consts(p["id"])
    ev = os.path.join(here, "evidence", p["id"] + ".json")
    cost = old.get(p["id"], "not measured")
    if os.path.exists(ev):
        e = json.load(open(ev))
        if e["tier"] == "quick":
            v = e["coverage"]
            r = lambda n: ("%.1e" % n if n > 9999 else str(n))  # noqa
            cost = "quick about %d s on 8 cores: %s states, %s judged steps, %s executions." % (round(e["wall_s"] + .5), r(v["states"]), r(v["transitions"]), r(v["traces_validated_against_impl"]))
    out.append("### %s %s\n" % (p["id"], p["title"]))
    out.append("%s\n" % p["statement"])
    out.append("* Decided by: %s." % p["tech"])
    out.append("* Judged against: %s" % ns["O"].get(p["id"], ""))
    out.append("* Quick bounds: %s." % c["BOUNDS"]["quick"].rstrip("."))
    out.append("* Thorough bounds: %s." % c["BOUNDS"]["thorough"].rstrip("."))
    out.append("* One execution: %s." % c["RULE"].rstrip("."))
    out.append("* Assumptions: %s." % "; ".join(c["ASSUMPTIONS"]))
    out.append("* Cost: %s" % cost)
    out.append("* Beyond the tests: %s\n" % p["why"])
tail = open(os.path.join(here, "doc/tail.md")).read()
kf = json.load(open(os.path.join(here, "known_findings.json")))["findings"]
tail = tail.replace("@@FIXED@@", "\n".join("* %s" % f["what"].replace("fixed: property=", "") for f in sorted(kf, key=lambda x: x["property"]) if f["status"] == "fixed"))
more = os.path.join(here, "doc/findings.md")
tail = tail.replace("@@MOREFINDINGS@@", open(more).read() if os.path.exists(more) else "")
rows = ["| planted bug | property | breaks | needs | quick check |", "|---|---|---|---|---|"]
caught = json.load(open(os.path.join(here, "doc/caught.json")))
for s in sorted(os.listdir(os.path.join(here, "seeded"))):
    d = json.load(open(os.path.join(here, "seeded", s, "meta.json")))
    rows.append("| %s | %s | %s | %s | %s |" % (s, d["property"], d["what_it_breaks"], d["needs"], caught.get(s, "not run")))
tail = tail.replace("@@SEEDS@@", "\n".join(rows) + "\n")
mu = os.path.join(here, "doc/mutation.md")
tail = tail.replace("@@MUTATION@@", open(mu).read() if os.path.exists(mu) else "")
out.append(tail.strip() + "\n")
open(os.path.join(here, "DESIGN.md"), "w").write("\n".join(out))
