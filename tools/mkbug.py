#!/usr/bin/env python3
"""tools/mkbug.py SPEC: makes /verif/seeded/<id>/ from a spec file (python dict literal)."""
import ast, os, shutil, subprocess, sys, json
spec = {}
exec(open(sys.argv[1]).read(), spec)
b = "/verif/seeded/" + spec["id"]
os.makedirs(b, exist_ok=True)
w = "/tmp/mkbug"
subprocess.run(["git", "-C", "/repo", "worktree", "prune"])
if not os.path.isdir(w):
    subprocess.run(["git", "clone", "-q", "/repo", w], check=True)
subprocess.run(["git", "-C", w, "fetch", "-q", "origin"], check=True)
subprocess.run(["git", "-C", w, "reset", "-q", "--hard", "origin/HEAD"], check=True)
for f, old, new in spec["edits"]:
    p = os.path.join(w, f)
    s = open(p).read()
    assert s.count(old) == 1, (f, s.count(old), old)
    open(p, "w").write(s.replace(old, new))
d = subprocess.run(["git", "-C", w, "diff"], capture_output=True, text=True, check=True).stdout
open(b + "/patch.diff", "w").write(d)
pkg = spec.get("package", "detour")
open(b + "/package", "w").write(pkg + "\n")
shutil.copy("/verif/tools/demo/demo.sh", b + "/demo.sh")
os.chmod(b + "/demo.sh", 0o755)
if spec.get("util", pkg == "detour"):
    shutil.copy("/verif/tools/demo/util_test.go", b + "/util_test.go")
open(b + "/demo_test.go", "w").write(spec["demo"].lstrip())
subprocess.run(["gofmt", "-w", b + "/demo_test.go"], check=True)
json.dump({"property": spec["property"], "needs": spec["needs"], "what_it_breaks": spec["breaks"]},
          open(b + "/meta.json", "w"), indent=1)
