#!/usr/bin/env python3
# seed.py ID PROP WORKTREE DEMO_TEST NEEDS BREAKS : keep the change made in WORKTREE as a planted bug after confirming it
import json, os, shutil, subprocess, sys
V = "/verif"
id, prop, wt, demo, needs, breaks = sys.argv[1:7]
d = f"{V}/seeded/{id}"
os.makedirs(d, exist_ok=True)
def run(c, cwd): return subprocess.run(["bash", "-c", ". /opt/vp/env.sh; " + c], cwd=cwd, capture_output=True, text=True)
diff = run("git diff HEAD", wt).stdout
assert diff.strip(), "no change"
open(f"{d}/patch.diff", "w").write(diff)
shutil.copy(demo, f"{d}/demo_test.go")
shutil.copy(f"{V}/tools/demo/lib_test.go", d)
shutil.copy(f"{V}/tools/demo/demo.sh", d)
os.chmod(f"{d}/demo.sh", 0o755)
json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(f"{d}/meta.json", "w"), indent=1)
ok = True
r = run(f"bash {d}/demo.sh", "/repo")
if r.returncode != 0: ok = False; print("demo fails on the unchanged tree:", (r.stdout + r.stderr)[-1500:])
assert run("git status --porcelain", "/repo").stdout.strip() == "", "repo not clean"
try:
    a = run(f"git apply {d}/patch.diff", "/repo"); assert a.returncode == 0, a.stderr
    b = run("go build ./...", "/repo")
    if b.returncode != 0: ok = False; print("does not build", b.stderr)
    r = run(f"bash {d}/demo.sh", "/repo")
    if r.returncode == 0: ok = False; print("demo passes with the patch")
    else: print("with patch:", (r.stdout + r.stderr)[-500:])
    run("bash /opt/vp/test.sh /tmp/seed_t.json", "/repo")
    t = json.load(open("/tmp/seed_t.json")); base = json.load(open("/opt/vp/BASELINE.json"))
    stable = base.get("passed") or base.get("stable") or []
    miss = [x for x in stable if x not in t["passed"]]
    if miss: ok = False; print("tests broken:", miss)
finally:
    run("git checkout -- .", "/repo")
print(id, "KEPT" if ok else "REJECTED")
if not ok: shutil.rmtree(d)
