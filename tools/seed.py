#!/usr/bin/env python3
"""tools/seed.py ID PROP 'needs' 'what' [crate ...]: take the uncommitted diff of the
scratch worktree /tmp/seed (made by tools/seed.py new) as seeded bug ID; main.rs must lie in /tmp/seed-main.rs.
tools/seed.py new | try ID"""
import json, os, subprocess, sys, shutil
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); W = "/tmp/seed"
def sh(c, **k): return subprocess.run(["bash", "-c", c], **k)
if sys.argv[1] == "new":
    if not os.path.isdir(W): sh("cp -a /repo %s" % W)
    sh("cd %s && git checkout -q -- . && git fetch -q origin 2>/dev/null; git -C %s pull -q /repo HEAD 2>/dev/null; git -C %s log --oneline | head -1" % (W, W, W)); sys.exit()
if sys.argv[1] == "try":
    rc = 0
    for i in sys.argv[2:]:
        d = os.path.join(ROOT, "seeded", i); p = json.load(open(d + "/meta.json"))["property"]
        sh("git -C /repo apply %s/patch.diff" % d, check=True)
        try: r = sh("cd %s && python3 check.py %s --noev" % (ROOT, p), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        finally: sh("git -C /repo checkout -q -- .")
        o = r.stdout.decode(); caught = r.returncode == 1 and "VIOLATION property=%s " % p in o
        print("%s %s: %s\n%s" % (i, p, "CAUGHT" if caught else "MISSED rc=%d" % r.returncode, "\n".join("    " + l[:300] for l in o.splitlines()[-8:])), flush=True)
    sys.exit()
i, prop, needs, what = sys.argv[1:5]; crates = sys.argv[5:] or ["rawler"]
d = os.path.join(ROOT, "seeded", i); os.makedirs(d, exist_ok=True)
diff = subprocess.run(["git", "-C", W, "diff"], stdout=subprocess.PIPE).stdout
assert diff, "no change in " + W
open(d + "/patch.diff", "wb").write(diff)
paths = {"rawler": "rawler", "embedftp": "embedftp", "dnglab-lib": "bin/dnglab/dnglab-lib"}
extra = {"tokio": 'tokio = { version = "1", features = ["full"] }', "serde_json": 'serde_json = "1"', "clap": 'clap = "4"', "image": 'image = { version = "*", default-features = false }'}
deps = "\n".join(extra[c] if c in extra else '%s = { path = "$repo/%s" }' % (c, paths[c]) for c in crates)
open(d + "/demo.sh", "w").write(open(os.path.join(ROOT, "tools/demo.sh.in")).read().replace("@DEPS@", deps)); os.chmod(d + "/demo.sh", 0o755)
shutil.copy("/tmp/seed-main.rs", d + "/main.rs")
json.dump({"property": prop, "needs": needs, "what_it_breaks": what}, open(d + "/meta.json", "w"), indent=1)
r1 = sh("cd /repo && bash %s/demo.sh" % d); r2 = sh("cd %s && bash %s/demo.sh" % (W, d))
print("demo unchanged rc=%d, with patch rc=%d" % (r1.returncode, r2.returncode))
t = sh(". /opt/vp/env.sh; cd %s && cargo test --workspace --offline -q 2>&1 | grep -E 'test result|FAILED|failed|^error' | grep -v ' 0 failed'" % W, stdout=subprocess.PIPE)
print("tests:", t.stdout.decode().strip() or "pass")
ok = r1.returncode == 0 and r2.returncode not in (0, 2) and not t.stdout.strip()
print("OK" if ok else "NOT USABLE"); sh("git -C %s checkout -q -- ." % W)
