#!/usr/bin/env python3
"""Builds and runs the monitor of one property against /repo's working tree.

  run.py C09 [--tier quick|thorough]         the registered check
  run.py C09 --replay GROUP:INDEX [--seed N] re-executes one case and prints its inputs
exit 0 held, 1 violated (VIOLATION line), 3 inconclusive / harness error.
"""
import argparse, glob, hashlib, json, os, re, shutil, struct, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
H = os.path.join(HERE, "harness")
BASE = ["-std=c++14", "-DBOOST_RESULT_OF_USE_TR1_WITH_DECLTYPE_FALLBACK", "-DBOOST_CHRONO_HEADER_ONLY",
        "-DBOOST_PARAMETER_MAX_ARITY=20", "-ftemplate-depth=1024", "-w", "-I" + REPO, "-I" + H, "-g1"]
MODES = {
    "san": dict(cxx="g++", flags=["-O1", "-fsanitize=address,undefined", "-fno-sanitize-recover=all",
                                  "-fno-sanitize=float-divide-by-zero", "-D_GLIBCXX_ASSERTIONS"]),
    "dbg": dict(cxx="g++", flags=["-O1", "-D_GLIBCXX_DEBUG", "-fsanitize=address,undefined", "-fno-sanitize-recover=all"]),
    "opt": dict(cxx="g++", flags=["-O2"]),
    "clang": dict(cxx="clang++", flags=["-O1", "-fsanitize=address,undefined", "-fno-sanitize-recover=all"]),
}

def die(msg, code=3):
    print("INCONCLUSIVE: " + msg, flush=True)
    sys.exit(code)

def build(pid, mode, out):
    m = MODES[mode]
    os.makedirs(out, exist_ok=True)
    srcs = sorted(glob.glob(os.path.join(H, pid + "*.cpp"))) + [os.path.join(H, "vt_main.cpp")]
    if len(srcs) < 2:
        die("no harness for " + pid)
    def one(src):
        obj = os.path.join(out, os.path.basename(src) + ".o")
        r = subprocess.run([m["cxx"]] + BASE + m["flags"] + ["-c", src, "-o", obj], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
        return src, obj, r
    with ThreadPoolExecutor(8) as ex:
        res = list(ex.map(one, srcs))
    for src, obj, r in res:
        if r.returncode:
            print("\n".join(dict.fromkeys(l[:400] for l in r.stdout.splitlines() if "error" in l or "harness/" in l and "required" in l))[:3500])
            die("harness %s does not compile against the tree (mode %s)" % (os.path.basename(src), mode))
    exe = os.path.join(out, "monitor")
    r = subprocess.run([m["cxx"]] + m["flags"] + [o for _, o, _ in res] + ["-o", exe], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        print(r.stdout[-4000:])
        die("link failed")
    return exe

def env():
    e = dict(os.environ)
    e["ASAN_OPTIONS"] = "abort_on_error=1:detect_leaks=0:handle_abort=0:handle_segv=0:handle_sigfpe=0:handle_sigill=0:hard_rss_limit_mb=3000:detect_stack_use_after_return=1:allocator_may_return_null=0"
    e["UBSAN_OPTIONS"] = "print_stacktrace=1:abort_on_error=1:halt_on_error=1"
    return e

def run_shard(exe, args, wd, k, n, limit, seed, scale, only):
    o, c, hsh, log = [os.path.join(wd, "%s%d" % (x, k)) for x in ("out", "crash", "hash", "log")]
    with open(log, "w") as lf:
        try:
            p = subprocess.run([exe, "--seed", str(seed), "--tier", args.tier, "--shard", "%d/%d" % (k, n), "--out", o, "--crash", c, "--hashes", hsh, "--scale", str(scale)] + (["--only", only] if only else []),
                               stdout=lf, stderr=subprocess.STDOUT, env=env(), timeout=limit)
            rc = p.returncode
        except subprocess.TimeoutExpired:
            rc = "timeout"
    return rc, o, c, hsh, log

def tail(path, n=2500):
    try:
        t = open(path, errors="replace").read()
        return t if len(t) < 2 * n else t[:n] + "\n...\n" + t[-n:]
    except OSError:
        return ""

def sanitizer_line(t):
    for l in t.splitlines():
        if "ERROR: AddressSanitizer" in l or "runtime error:" in l or "Assertion" in l:
            return l.strip()[:400]
    return t.strip().splitlines()[-1][:300] if t.strip() else ""

def known(pid):
    f = os.path.join(HERE, "known-findings.jsonl")
    r = []
    if os.path.exists(f):
        for line in open(f):
            line = line.strip()
            if line and not line.startswith("#"):
                d = json.loads(line)
                if d.get("property") == pid and d.get("status") == "known":
                    r.append(d)
    return r

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--replay")
    ap.add_argument("--only", default="")
    ap.add_argument("--mode", default="")
    ap.add_argument("--scale", type=float, default=1.0)
    ap.add_argument("--shards", type=int, default=8)
    ap.add_argument("--keep", action="store_true")
    args = ap.parse_args()
    if args.tier not in ("quick", "thorough"):
        args.tier = "quick"
    t0 = time.time()
    spec = json.load(open(os.path.join(H, "rules.json"))).get(args.pid, {})
    # quick: the sanitizer build, then an optimised build that drives other cases (another seed) many times deeper
    deep = args.seed + 7919, args.scale * (spec.get("opt_scale", 40) if args.tier == "quick" else 1)
    if args.mode or args.replay:
        modes = [(args.pid, args.only, args.mode or "san", args.seed, args.scale)]
    else:
        modes = [(args.pid, args.only, "san", args.seed, args.scale), (args.pid, args.only, "opt") + deep]
        for q in [] if args.only else spec.get("also", []):      # groups of another monitor that this property covers as well
            modes.append(tuple(q.split(":")) + ("san", args.seed, args.scale))
            modes.append(tuple(q.split(":")) + ("opt",) + deep)
    broot = os.path.join(HERE, "build")
    os.makedirs(broot, exist_ok=True)
    wd = tempfile.mkdtemp(prefix=args.pid + "-", dir=broot)
    try:
        return work(args, spec, modes, wd, t0)
    finally:
        if not args.keep:
            shutil.rmtree(wd, ignore_errors=True)

def work(args, spec, modes, wd, t0):
    pid = args.pid
    agg = dict(evaluations=0, skipped=0, checks=0, groups={}, observed={}, samples=[], viol=[])
    hashes = set()
    with ThreadPoolExecutor(len(modes)) as ex:
        exes = list(ex.map(lambda m: build(m[1][0], m[1][2], os.path.join(wd, "%d" % m[0])), enumerate(modes)))
    for m, ((src, only, mode, seed, scale), exe) in enumerate(zip(modes, exes)):
        if agg["viol"]:
            break
        mwd = os.path.join(wd, "%d" % m)
        if args.replay:
            c = os.path.join(mwd, "crash")
            p = subprocess.run([exe, "--seed", str(args.seed), "--tier", args.tier, "--only", args.replay, "--crash", c, "--out", os.path.join(mwd, "o")], env=env())
            if os.path.exists(c) and os.path.getsize(c):
                print("monitor stopped:", open(c).read().strip())
            return 1 if p.returncode else 0
        n = args.shards
        with ThreadPoolExecutor(n) as ex:
            res = list(ex.map(lambda k: run_shard(exe, args, mwd, k, n, 400 if args.tier == "quick" else 5400, seed, scale, only), range(n)))
        for k, (rc, o, c, hsh, log) in enumerate(res):
            crash = open(c).read().strip() if os.path.exists(c) else ""
            if rc == "timeout":
                die("%s shard %d exceeded its wall-clock watchdog" % (mode, k))
            if rc in (0, 1) and os.path.exists(o):
                d = json.load(open(o))
                agg["evaluations"] += d["evaluations"]; agg["skipped"] += d["skipped"]; agg["checks"] += d["checks"]
                for g, v in d["groups"].items():
                    g = g if src == pid else src + " " + g
                    a = agg["groups"].setdefault(g, {})
                    for kk, vv in v.items():
                        a[kk] = a.get(kk, 0) + vv
                for g, v in d["observed"].items():
                    agg["observed"][g] = agg["observed"].get(g, 0) + v
                if m == 0:
                    agg["samples"] += d["samples"]
                for v in d["violations"]:
                    v["mode"] = mode; v["seed"] = seed; v["src"] = src
                    agg["viol"].append(v)
                if os.path.exists(hsh) and len(hashes) < 1500000:    # enough to state a lower bound of distinct cases
                    b = open(hsh, "rb").read(8 * 400000)
                    hashes.update(struct.unpack("<%dQ" % (len(b) // 8), b))
                continue
            # the monitored process died: confirm with a second execution of the same case
            if not crash:
                lg = tail(log)
                if "hard rss limit" not in lg:
                    print(lg)
                    die("monitor process ended with %s without a record" % rc)
                die("memory limit hit without a case record:\n" + lg[-500:])
            what, grp, idx = crash.split()[:3]
            c2 = os.path.join(mwd, "crash-confirm%d" % k)
            lg2 = os.path.join(mwd, "confirm%d" % k)
            with open(lg2, "w") as lf:
                try:
                    p = subprocess.run([exe, "--seed", str(seed), "--tier", args.tier, "--only", "%s:%s" % (grp, idx), "--crash", c2, "--out", os.path.join(mwd, "oc%d" % k), "--hang", "6"],
                                       stdout=lf, stderr=subprocess.STDOUT, env=env(), timeout=300)
                    rc2 = p.returncode
                except subprocess.TimeoutExpired:
                    rc2 = "timeout"
            cr2 = open(c2).read().strip() if os.path.exists(c2) else ""
            if rc2 == 0 or (rc2 == "timeout"):
                print(tail(log))
                die("%s in %s:%s was not confirmed by a second execution (rc %s)" % (what, grp, idx, rc2))
            t = tail(log, 6000)
            agg["viol"].append(dict(group=grp, index=int(idx), mode=mode, seed=seed, src=src, msg="monitor stopped by %s (%s): %s" % (what, cr2 or rc2, sanitizer_line(t)), inputs="", log=t))
    # ---- verdict ----
    kf = known(pid)
    new, seen = [], {}
    for v in agg["viol"]:
        for f in kf:
            if f["group"] == v["group"] and (f.get("index") is None or f["index"] == v["index"]) and f["match"] in v["msg"]:
                seen.setdefault(f["id"], (f, v))
                break
        else:
            new.append(v)
    for fid, (f, v) in sorted(seen.items()):
        print("KNOWN-FINDING: property=%s %s %s" % (pid, fid, f["what"]))
    agg["samples"] = agg["samples"][:12]
    ev = dict(property=pid, tier=args.tier, seed=args.seed, level="exploration",
              coverage=dict(evaluations=agg["evaluations"], distinct_nontrivial=len(hashes), rule=spec.get("rule", "random and structured inputs; a case is non-trivial unless its generator degenerated"),
                            samples=agg["samples"] or ["none"], oracle_comparisons=agg["checks"], rejected_cases=agg["skipped"], groups=agg["groups"], observed=agg["observed"], builds=[dict(monitor=p, groups=o or "all", build=m, seed=q, scale=x) for p, o, m, q, x in modes]),
              assumptions=spec.get("assumptions", []), wall_s=round(time.time() - t0, 2), violations=len(new))
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    if not args.only:
        with open(os.path.join(HERE, "evidence", pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
    for g, v in sorted(agg["groups"].items()):
        print("  %-44s cases %-8d nontrivial %-8d checks %-9d violating %d" % (g, v["cases"], v["nontrivial"], v["oracle_checks"], v["violating"]))
    print("  observed: " + json.dumps(agg["observed"], sort_keys=True))
    if new:
        rd = os.path.join(HERE, "replays")
        os.makedirs(rd, exist_ok=True)
        done = {}
        for v in new:
            if done.get(v["group"], 0) >= 2:
                continue
            done[v["group"]] = done.get(v["group"], 0) + 1
            path = os.path.join(rd, "%s-%s-%s-s%d.txt" % (pid, v["group"], v["index"], v["seed"]))
            with open(path, "w") as f:
                f.write("property %s, build %s\nreplay: python3 /verif/run.py %s --tier %s --seed %d --mode %s --replay %s:%s\n%s\ninputs: %s\n%s\n" % (pid, v["mode"], v["src"], args.tier, v["seed"], v["mode"], v["group"], v["index"], v["msg"], v["inputs"], v.get("log", "")))
            print("VIOLATION property=%s replay=%s  %s:%s %s" % (pid, path, v["group"], v["index"], v["msg"][:600]))
        return 1
    if not agg["evaluations"] or not hashes:
        die("the workload observed nothing")
    print("held: %s on %d cases (%d distinct non-trivial, %d oracle comparisons) in %.1fs" % (pid, agg["evaluations"], len(hashes), agg["checks"], time.time() - t0))
    return 0

if __name__ == "__main__":
    sys.exit(main())
