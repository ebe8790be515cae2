#!/usr/bin/env python3
"""Decides one property of /repo by symbolic execution of its compiled code.

  check.py <property> [--tier quick|thorough] [--only ENTRY] [--keep]
  check.py --replay FILE        replay a recorded counterexample natively
  check.py --setup              build the engine and every harness

1. builds the executor (/verif/symex) and the property's harness (/verif/harness) against
   /repo's working tree; rustc emits the whole program, after link-time optimisation, as
   LLVM IR, and the same module as a native executable
2. every entry point of the harness is executed symbolically (8 at a time); z3 decides
   each branch and assertion
3. counterexamples are replayed on the native executable before they are reported, and
   models of finished paths are replayed too (the observations must agree)
"""
import sys, os, json, subprocess, time, glob, fcntl, concurrent.futures as cf, re, shutil

ROOT = os.path.dirname(os.path.abspath(__file__))
TGT = os.path.join(ROOT, "target")
HAR = os.path.join(ROOT, "harness")
EVID = os.path.join(ROOT, "evidence")
SYMEX = os.path.join(TGT, "symex", "release", "symex")
T0 = time.time()

ENV = dict(os.environ)
ENV.setdefault("HOME", "/root")
ENV["PATH"] = "/usr/local/bin:/root/.cargo/bin:/usr/local/sbin:/usr/sbin:/usr/bin:/sbin:/bin:" + ENV.get("PATH", "")
ENV.update(RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true",
           CARGO_INCREMENTAL="0", CARGO_TERM_COLOR="never", RUSTC_WRAPPER="", RUST_BACKTRACE="0",
           PROJ_NETWORK="OFF", CARGO_TERM_PROGRESS_WHEN="never")
for k in list(ENV):
    if k.startswith("CARGO_PROFILE_") or k in ("RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "CARGO_TARGET_DIR"):
        del ENV[k]

sys.path.insert(0, ROOT)
from catalog import CHECKS  # noqa: E402


def sh(cmd, **kw):
    kw.setdefault("env", ENV)
    return subprocess.run(cmd, capture_output=True, text=True, **kw)


def die(msg):
    print("ERROR: " + msg)
    sys.exit(2)


class Lock:
    def __enter__(self):
        os.makedirs(TGT, exist_ok=True)
        self.f = open(os.path.join(TGT, ".lock"), "w")
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        self.f.close()


def build_engine():
    with Lock():
        e = dict(ENV, CARGO_TARGET_DIR=os.path.join(TGT, "symex"))
        r = sh(["cargo", "build", "--release", "--offline", "--locked", "-q"], cwd=os.path.join(ROOT, "symex"), env=e)
        if r.returncode:
            die("the executor does not build\n" + r.stderr[-4000:])
        shim = os.path.join(TGT, "shim.o")
        r = sh(["gcc", "-O1", "-fPIC", "-c", os.path.join(HAR, "shim.c"), "-o", shim])
        if r.returncode:
            die("shim.c does not build\n" + r.stderr)


def build_harness(name):
    """Returns (IR file, native executable)."""
    with Lock():
        tdir = os.path.join(TGT, "harness")
        e = dict(ENV, CARGO_TARGET_DIR=tdir)
        deps = os.path.join(tdir, "debug", "deps")
        for f in glob.glob(os.path.join(deps, name + "-*")):
            os.unlink(f)
        feats = CHECKS[name.upper()].get("features", "")
        cmd = ["cargo", "rustc", "--offline", "-q", "--bin", name]
        if feats:
            cmd += ["--features", feats]
        cmd += ["--", "--emit=llvm-ir,link", "-C", "save-temps", "-C", "link-arg=" + os.path.join(TGT, "shim.o"), "--cap-lints", "warn"]
        r = sh(cmd, cwd=HAR, env=e)
        if r.returncode:
            die("the harness does not build against /repo\n" + re.sub(r"(?ms)^warning.*?(?=^error|\Z)", "", r.stderr)[-6000:])
        ll = [f for f in glob.glob(os.path.join(deps, name + "-*.ll")) if re.fullmatch(name + r"-[0-9a-f]+\.ll", os.path.basename(f))]
        if len(ll) != 1:
            die("no IR for " + name)
        # own copies, so that a concurrent check does not replace them
        out = os.path.join(TGT, "out", name)
        os.makedirs(out, exist_ok=True)
        dst = os.path.join(out, name + ".ll")
        shutil.copy(ll[0], dst)
        exe = os.path.join(out, name)
        shutil.copy(os.path.join(tdir, "debug", name), exe)
        for f in glob.glob(os.path.join(deps, name + "-*")):
            os.unlink(f)
        return dst, exe


def write_inputs(path, inputs):
    with open(path, "w") as f:
        for n, h in inputs:
            f.write(n + " " + h + "\n")


def native(exe, entry, inputs, tag, tool=None, timeout=120):
    """Runs one input assignment natively. Returns (outcome, detail, observations)."""
    d = os.path.dirname(exe)
    pi, po = os.path.join(d, tag + ".in"), os.path.join(d, tag + ".out")
    write_inputs(pi, inputs)
    if os.path.exists(po):
        os.unlink(po)
    e = dict(ENV, SX_INPUTS=pi, SX_OUT=po)
    cmd = [exe, entry]
    if tool == "valgrind":
        cmd = ["valgrind", "-q", "--error-exitcode=9", "--leak-check=no"] + cmd
    try:
        r = sh(cmd, env=e, timeout=timeout)
        rc, err = r.returncode, r.stderr
    except subprocess.TimeoutExpired:
        rc, err = "timeout", ""
    lines = open(po).read().splitlines() if os.path.exists(po) else []
    for p in (pi, po):
        if os.path.exists(p):
            os.unlink(p)
    obs = [l[4:] for l in lines if l.startswith("obs ")]
    expect = False
    for l in lines:
        if l.startswith("expect "):
            expect = l == "expect 1"
    msg = lines[-1] if lines else ""
    pm = re.search(r"panicked at ([^\n]*)\n([^\n]*)", err)
    if rc == 0:
        return "ok", "", obs
    if rc == 1:
        return "check", msg[6:], obs
    if rc == 77:
        return "assume", "", obs
    if rc == 9:
        return "memory", err[:1500], obs
    if pm and "unsafe precondition" not in err and "cannot unwind" not in err and "misaligned" not in err:
        return ("panic-expected" if expect else "panic"), (pm.group(1) + " " + pm.group(2)), obs
    if isinstance(rc, int) and rc < 0:
        return "crash", "signal %d %s" % (-rc, err[-600:]), obs
    return "other", "exit %s %s %s" % (rc, msg, err[-600:]), obs


_asan = {}


def asan_exe(name):
    """The same harness under AddressSanitizer (only built when a memory error is to be confirmed)."""
    with Lock():
        if name in _asan:
            return _asan[name]
        tdir = os.path.join(TGT, "asan")
        e = dict(ENV, CARGO_TARGET_DIR=tdir, RUSTUP_TOOLCHAIN="nightly-x86_64-unknown-linux-gnu",
                 RUSTFLAGS="-Zsanitizer=address -C link-arg=" + os.path.join(TGT, "shim.o"))
        feats = CHECKS[name.upper()].get("features", "")
        cmd = ["cargo", "build", "--offline", "--locked", "-q", "--bin", name, "--target", "x86_64-unknown-linux-gnu",
               "--profile", "asan"] + (["--features", feats] if feats else [])
        r = sh(cmd, cwd=HAR, env=e)
        exe = os.path.join(tdir, "x86_64-unknown-linux-gnu", "asan", name)
        _asan[name] = exe if r.returncode == 0 else None
        if r.returncode:
            print("note: no AddressSanitizer build: " + r.stderr[-500:])
        return _asan[name]


def confirm(name, exe, entry, v, tag):
    """Does the native program show the violation?"""
    o, d, _ = native(exe, entry, v["inputs"], tag)
    k = v["kind"]
    if o in ("check", "panic", "crash"):
        return True, o + ": " + d
    if o == "other" and "timeout" in d:
        return k == "limit", "native run does not end"
    # a memory error need not show by itself
    o2, d2, _ = native(exe, entry, v["inputs"], tag, tool="valgrind", timeout=300)
    if o2 in ("memory", "check", "panic", "crash"):
        return True, "valgrind: " + d2
    if k == "memory":
        a = asan_exe(name)
        if a:
            pi = os.path.join(os.path.dirname(exe), tag + ".in")
            write_inputs(pi, v["inputs"])
            r = sh([a, entry], env=dict(ENV, SX_INPUTS=pi, SX_OUT="/dev/null", ASAN_OPTIONS="detect_leaks=0"), timeout=300)
            os.unlink(pi)
            if "AddressSanitizer" in r.stderr:
                return True, "asan: " + r.stderr[:1500]
    return False, o + " " + d


def run_entry(ll, name, entry, tier, seed, cfg):
    of = os.path.join(TGT, "out", name, entry + ".json")
    if os.path.exists(of):
        os.unlink(of)
    o = dict(cfg.get("opts", {}))
    o.update(cfg.get("entry_opts", {}).get(entry, {}))
    lim = o.get("max-secs", 400) if tier == "quick" else o.get("max-secs-thorough", 3600)
    if tier == "quick":
        # a check has 900 s in all, replays included
        lim = int(max(5, min(lim, 700 - (time.time() - T0))))
    cmd = [SYMEX, ll, entry, "--out", of, "--seed", str(seed), "--max-secs", str(lim),
           "--samples", str(o.get("samples", 4 if tier == "quick" else 12)), "--max-viol", str(o.get("max-viol", 24))]
    for k in ("query-ms", "max-steps", "fanout", "z3", "merge"):
        if k in o:
            cmd += ["--" + k, str(o[k])]
    if tier == "thorough" and "query-ms" not in o:
        cmd += ["--query-ms", "120000"]
    t = time.time()
    try:
        r = sh(cmd, timeout=lim + 200)
        err = r.stderr
        rc = r.returncode
    except subprocess.TimeoutExpired:
        rc, err = "timeout", ""
    if not os.path.exists(of):
        return {"entry": entry, "fatal": "symex ended with %s: %s" % (rc, err[-1500:]), "wall_s": time.time() - t}
    with open(of) as f:
        return json.load(f)


def main():
    a = sys.argv[1:]
    if a and a[0] == "--setup":
        build_engine()
        r = sh([SYMEX, "--selftest", "--rounds", "50000"])
        if r.returncode:
            die("the executor's rewriting is wrong: " + r.stdout)
        names = a[1:] or sorted(CHECKS)[:1]
        for n in names:
            build_harness(n.lower())
        print("setup done in %.0f s" % (time.time() - T0))
        return
    if a and a[0] == "--replay":
        rp = json.load(open(a[1]))
        build_engine()
        ll, exe = build_harness(rp["property"].lower())
        ok, d = confirm(rp["property"].lower(), exe, rp["entry"], rp, "replay")
        print(("REPRODUCED " if ok else "NOT REPRODUCED ") + d)
        sys.exit(1 if ok else 0)
    pid = a[0].upper()
    cfg = CHECKS[pid]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in a:
        tier = a[a.index("--tier") + 1]
    only = a[a.index("--only") + 1] if "--only" in a else None
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    name = pid.lower()
    build_engine()
    ll, exe = build_harness(name)
    t_build = time.time() - T0
    entries = sh([exe]).stdout.split()
    if tier == "quick":
        entries = [e for e in entries if not e.startswith("t_")]
    if only:
        entries = [e for e in entries if only in e]
    slow = cfg.get("first", [])
    entries.sort(key=lambda e: (0 if e in slow else 1, e))
    known = [k for k in json.load(open(os.path.join(ROOT, "known-findings.json")))["findings"]
             if k.get("status") == "known" and k["property"] == pid]
    with cf.ThreadPoolExecutor(max_workers=cfg.get("jobs", 8)) as ex:
        res = list(ex.map(lambda e: run_entry(ll, name, e, tier, seed, cfg), entries))
    problems, undecided, viols, knowns = [], [], [], {}
    validated = 0
    samples = []
    jobs = []
    for r in res:
        if "fatal" in r:
            problems.append("%s: %s" % (r["entry"], r["fatal"]))
            continue
        for e in r["errors"]:
            undecided.append("%s: %s (%d paths) at %s" % (r["entry"], e["msg"], e["count"], "; ".join(e["stack"][:3])))
        if r["paths_ok"] + r["paths_panic"] + r["paths_viol"] == 0:
            problems.append("%s: vacuous: no path reaches its end" % r["entry"])
        for i, s in enumerate(r["samples"]):
            jobs.append((r["entry"], i, s))

    def val(j):
        e, i, s = j
        return j, native(exe, e, s["inputs"], "%s-s%d" % (e, i))
    with cf.ThreadPoolExecutor(max_workers=8) as ex:
        vres = list(ex.map(val, jobs))
    mism = []
    for (e, i, s), (o, d, obs) in vres:
        want = "ok" if s["end"] == "ok" else "panic-expected"
        if o != want or obs != s["obs"]:
            mism.append("%s: symbolic run ends %s %s, native run ends %s %s %s; inputs %s" % (e, s["end"], s["obs"][:6], o, d[:200], obs[:6], json.dumps(s["inputs"])[:400]))
        else:
            validated += 1
            if len(samples) < 6 and i == 0:
                samples.append({"entry": e, "inputs": [[n, h[:64]] for n, h in s["inputs"]][:12], "end": s["end"], "native": "agrees", "observations": s["obs"][:4]})
    nconf = 0
    rdir = os.path.join(EVID, "replay")
    os.makedirs(rdir, exist_ok=True)
    for f in glob.glob(os.path.join(rdir, pid + "-*.json")):
        os.unlink(f)
    seen = {}
    for r in res:
        for v in r.get("violations", []):
            if not v["kind"]:
                continue
            key = (r["entry"], v["kind"], v["msg"], v["stack"][0] if v["stack"] else "")
            if seen.get(key, 0) >= 2:
                continue
            seen[key] = seen.get(key, 0) + 1
            ok, d = confirm(name, exe, r["entry"], v, "%s-v%d" % (r["entry"], nconf))
            nconf += 1
            v = dict(v, property=pid, entry=r["entry"], native=d)
            if not ok:
                mism.append("%s: counterexample for '%s' (%s) at %s does not reproduce natively: %s; inputs %s" % (r["entry"], v["msg"], v["kind"], "; ".join(v["stack"][:2]), d[:300], json.dumps(v["inputs"])[:600]))
                continue
            kf = None
            for k in known:
                if (k.get("entry") in (None, r["entry"]) and k.get("kind") in (None, v["kind"]) and re.search(k.get("msg", ""), v["msg"])
                        and (not k.get("where") or any(k["where"] in s for s in v["stack"]))):
                    kf = k
            if kf:
                knowns.setdefault(kf["id"], kf)
                continue
            p = os.path.join(rdir, "%s-%d.json" % (pid, len(viols)))
            json.dump(v, open(p, "w"), indent=1)
            viols.append((p, v))
    tot = {k: sum(r.get(k, 0) for r in res) for k in
           ("paths_ok", "paths_panic", "paths_assume", "paths_viol", "paths_err", "insts", "forks", "checks", "checks_solver",
            "queries", "cache_hits", "sat", "unsat", "unknown", "fp_queries", "fallback", "solver_s")}
    fns = {}
    for r in res:
        for f, n, l in r.get("functions", []):
            fns.setdefault((f.replace("/repo/", ""), re.sub(r"<.*", "", n)), 0)
            fns[(f.replace("/repo/", ""), re.sub(r"<.*", "", n))] = max(fns[(f.replace("/repo/", ""), re.sub(r"<.*", "", n))], l)
    repo_fns = sorted("%s::%s (%d lines)" % (f, n, l) for (f, n), l in fns.items() if f.startswith("pasture"))
    covers = sorted({c for r in res for c in r.get("covers", {})})
    bounds = sorted({b for r in res for b in r.get("bounds", [])})
    miss = [c for c in cfg.get("must_cover", []) if c not in covers] if not only else []
    for c in miss:
        problems.append("vacuous: no path reaches the witness '%s'" % c)
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": tot["forks"] + len(res), "transitions": tot["insts"], "traces_validated_against_impl": validated,
            "samples": samples,
            "explanation": "states: symbolic states created (entry points + forks); transitions: IR instructions executed symbolically; traces: path models replayed on the native build with equal observations",
            "entries": {r["entry"]: {k: r.get(k) for k in ("paths_ok", "paths_panic", "paths_assume", "paths_viol", "paths_err", "insts", "checks", "checks_solver", "queries", "unsat", "solver_s", "wall_s")} for r in res},
            "paths": {"finished": tot["paths_ok"], "ended in the panic the property asks for": tot["paths_panic"], "cut by an assumption": tot["paths_assume"], "violating": tot["paths_viol"], "undecided": tot["paths_err"]},
            "assertions": {"reached": tot["checks"], "sent to the solver": tot["checks_solver"], "closed by term rewriting": tot["checks"] - tot["checks_solver"]},
            "solver": {"queries": tot["queries"], "cache_hits": tot["cache_hits"], "sat": tot["sat"], "unsat": tot["unsat"], "unknown": tot["unknown"], "floating_point_queries": tot["fp_queries"], "answered_by_cvc5": tot["fallback"], "seconds": round(tot["solver_s"], 2), "slowest_query_s": max([r.get("max_query_s", 0) for r in res] or [0])},
            "functions_encoded": repo_fns, "bounds": bounds, "witnesses_reached": covers,
            "counterexamples_replayed": nconf, "build_s": round(t_build, 1),
        },
        "assumptions": cfg.get("assumptions", []) + ["the IR rustc/LLVM emits (opt-level 1, debug assertions and overflow checks on) stands for the source", "z3's and cvc5's verdicts"],
        "wall_s": round(time.time() - T0, 2), "violations": len(viols),
    }
    if problems or mism:
        ev["coverage"]["problems"] = problems + mism
    if undecided:
        # neither held nor violated: outside of what this run explored
        ev["coverage"]["undecided"] = undecided
    os.makedirs(EVID, exist_ok=True)
    if not only:
        json.dump(ev, open(os.path.join(EVID, pid + ".json"), "w"), indent=1)
    for k in knowns.values():
        print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    print("%s %s: %d entries, %d paths, %d instructions, %d assertions (%d by solver), %d queries (%.1f s), %d traces validated, build %.0f s, total %.0f s"
          % (pid, tier, len(res), tot["paths_ok"] + tot["paths_panic"], tot["insts"], tot["checks"], tot["checks_solver"], tot["queries"], tot["solver_s"], validated, t_build, time.time() - T0))
    if "-v" in a:
        for r in sorted(res, key=lambda r: -r["wall_s"]):
            print("   %-40s ok %d panic %d assume %d viol %d err %d insts %d queries %d solver %.1f wall %.1f" % tuple(r.get(k, 0) for k in ("entry", "paths_ok", "paths_panic", "paths_assume", "paths_viol", "paths_err", "insts", "queries", "solver_s", "wall_s")))
    for p in (problems + mism)[:12]:
        print("PROBLEM " + p[:600])
    for p in undecided[:12]:
        print("UNDECIDED " + p[:600])
    for p, v in viols:
        print("VIOLATION property=%s replay=%s" % (pid, p))
        print("   %s: %s: %s at %s; native: %s" % (v["entry"], v["kind"], v["msg"], "; ".join(v["stack"][:2]), v["native"].strip()[:300]))
    if viols:
        sys.exit(1)
    if problems or mism or (undecided and "--strict" in a):
        sys.exit(2)


if __name__ == "__main__":
    main()
