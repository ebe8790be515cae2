#!/usr/bin/env python3
"""Developer tool: confirms planted bugs in a scratch copy (/tmp/sd), outside /repo.
  seedtest.py ID...      patch applies, builds, stable tests pass, demo 0 / nonzero
  seedtest.py --new ID   makes patch.diff from the edits in /tmp/sd/repo and resets them
"""
import sys, os, subprocess, json, re, shutil
S = "/tmp/sd"; R = S + "/repo"; SE = "/verif/seeded"
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
def fresh():
    os.makedirs(S, exist_ok=True)
    shutil.rmtree(R, ignore_errors=True)
    os.system("git clone -q /repo " + R)
    w = S + "/ws"; os.makedirs(w, exist_ok=True)
    t = open("/opt/vp/ws/Cargo.toml").read(); open(w + "/Cargo.toml", "w").write(t)
    shutil.copy("/opt/vp/ws/Cargo.lock.base", w + "/Cargo.lock")
    for m in ("pasture-core", "pasture-algorithms", "pasture-derive"):
        if not os.path.islink(w + "/" + m): os.symlink(R + "/" + m, w + "/" + m)
def tests():
    l = S + "/log"; shutil.rmtree(l, ignore_errors=True); os.makedirs(l)
    pre = ". /opt/vp/env.sh; export CARGO_TARGET_DIR=%s/target; cd %s/ws; " % (S, S)
    a = sh("bash -c '%s cargo test --workspace --no-fail-fast --offline -- --test-threads 8 >%s/a.log 2>&1'" % (pre, l))
    b = sh("bash -c '%s cargo test -p pasture-core --lib --features serde --no-fail-fast --offline -- --test-threads 8 >%s/b.log 2>&1'" % (pre, l))
    if a.returncode or b.returncode:
        t = open(l + "/a.log").read() + open(l + "/b.log").read()
        return "FAIL " + "\n".join(x for x in t.splitlines() if "FAILED" in x or x.startswith("error") or "panicked" in x)[:1500]
    return "ok"
def demo(d):
    r = sh("bash %s/demo.sh" % d, cwd=R, timeout=600)
    return r.returncode, (r.stdout + r.stderr)[-600:]
a = sys.argv[1:]
if a and a[0] == "--init": fresh(); sys.exit()
if a and a[0] == "--new":
    os.makedirs(SE + "/" + a[1], exist_ok=True)
    d = sh("git -C %s diff" % R).stdout
    open("%s/%s/patch.diff" % (SE, a[1]), "w").write(d)
    sh("git -C %s checkout -- ." % R); print(d); a = a[1:]
for i in a:
    d = SE + "/" + i
    sh("git -C %s checkout -- . && git -C %s pull -q" % (R, R))
    meta = json.load(open(d + "/meta.json"))
    c = demo(d)
    ap = sh("git -C %s apply %s/patch.diff" % (R, d))
    if ap.returncode: print(i, "patch does not apply", ap.stderr); continue
    t = tests(); f = demo(d)
    sh("git -C %s checkout -- ." % R)
    print(i, meta["property"], "clean demo:", c[0], "tests:", t, "patched demo:", f[0], "OK" if c[0] == 0 and t == "ok" and f[0] not in (0,) else "BAD")
    if c[0]: print(c[1])
    print("   ", f[1][-300:].replace("\n", "\n    "))
