#!/usr/bin/env python3
"""writes DESIGN.md from tools/design/*.md, props.py, known_findings.txt and the planted bugs' meta.json"""
import glob, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
import props
D = json.load(open(V + "/tools/design/props.json"))
R = lambda n: open(V + "/tools/design/" + n).read()
o = [R("1.md")]
for k in sorted(props.PROPS):
    d, p = D[k], props.PROPS[k]
    o.append(f"### {k} — {p['title']}\n\n{p['statement']}\n\n* *Generated:* {d[0]}\n* *Oracle:* {d[1]}\n* *Bounds:* {d[2]}\n* *Beyond the tests:* {p['why']}\n\n")
o.append("### Not applicable\n\n")
for k, v in props.NOT_APPLICABLE.items():
    o.append(f"* {k} — {v['title']}: {v['reason']}\n")
o.append(R("2.md"))
for l in open(V + "/known_findings.txt"):
    if l.startswith("fixed:"):
        o.append("* " + l[6:].strip() + "\n")
o.append(R("3.md"))
o.append("| id | what it breaks | needs | caught by |\n|---|---|---|---|\n")
for f in sorted(glob.glob(V + "/seeded/*/meta.json")):
    m = json.load(open(f))
    n = m["needs"] if isinstance(m["needs"], str) else "; ".join(m["needs"])
    o.append(f"| {os.path.basename(os.path.dirname(f))} | {m['what_it_breaks']} | {n} | {m.get('caught_by', m['property'])} |\n")
if os.path.exists(V + "/tools/design/4.md"):
    o.append(R("4.md"))
open(V + "/DESIGN.md", "w").write("".join(o))
