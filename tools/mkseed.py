#!/usr/bin/env python3
"""mkseed.py ID SPEC.json -- write /verif/seeded/ID from a description:
{"property","needs","what_it_breaks","edits":[[file,old,new],...],"demo":"go source","package":optional,"plain":optional}
"""
import json, os, shutil, subprocess, sys, tempfile
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sid, spec = sys.argv[1], json.load(open(sys.argv[2]))
d = os.path.join(H, "seeded", sid)
shutil.rmtree(d, ignore_errors=True)
os.makedirs(d)
w = tempfile.mkdtemp(prefix="mkseed.")
subprocess.check_call(["cp", "-a", "/repo", w + "/repo"])
for f, old, new in spec["edits"]:
    p = os.path.join(w, "repo", f)
    s = open(p).read()
    assert s.count(old) == 1, (f, s.count(old), old)
    open(p, "w").write(s.replace(old, new))
diff = subprocess.check_output(["git", "-C", w + "/repo", "diff"], text=True)
open(os.path.join(d, "patch.diff"), "w").write(diff)
shutil.copy(os.path.join(H, "tools", "seedlib", "demo.sh"), d)
for x in spec.get("lib", ["puppet_test.go", "env_test.go"]):
    shutil.copy(os.path.join(H, "harness", "go", x), d)
open(os.path.join(d, "demo_test.go"), "w").write(spec["demo"])
if spec.get("package"):
    open(os.path.join(d, "package"), "w").write(spec["package"] + "\n")
json.dump({k: spec[k] for k in ("property", "needs", "what_it_breaks")}, open(os.path.join(d, "meta.json"), "w"), indent=1)
shutil.rmtree(w)
print(diff)
