"""tools/mkbug.py ID PROPERTY FILE < spec: writes seeded/ID/{patch.diff,meta.json,demo.sh}.
spec (stdin): JSON {"edits": [[file, old, new], ...], "needs": ..., "breaks": ...}"""
import json, os, subprocess, sys, shutil
ident, prop = sys.argv[1], sys.argv[2]
spec = eval(sys.stdin.read())
assert not subprocess.run(["git", "-C", "/repo", "status", "--porcelain"], capture_output=True, text=True).stdout
try:
    for f, old, new in spec["edits"]:
        p = "/repo/" + f
        s = open(p).read()
        assert s.count(old) == 1, (f, s.count(old), old)
        open(p, "w").write(s.replace(old, new))
    d = subprocess.run(["git", "-C", "/repo", "diff"], capture_output=True, text=True).stdout
finally:
    subprocess.run(["git", "-C", "/repo", "checkout", "-q", "--", "."])
o = "/verif/seeded/" + ident
os.makedirs(o, exist_ok=True)
open(o + "/patch.diff", "w").write(d)
json.dump({"property": prop, "needs": spec["needs"], "what_it_breaks": spec["breaks"]}, open(o + "/meta.json", "w"), indent=1)
if not spec.get("keepdemo"):
    shutil.copy("/verif/tools/demo_asio.sh" if "exec/asio/" in spec.get("demo", "") else "/verif/tools/demo.sh", o + "/demo.sh")
if "demo" in spec:
    open(o + "/demo.cpp", "w").write(spec["demo"])
print(d)
