#!/usr/bin/env python3
"""Driver: build /repo's current sources with a harness, explore, judge, write evidence.

  run.py C03 [--tier quick|thorough]     decide one property
  run.py --replay FILE                   re-run one recorded counterexample
  run.py --all [--tier T]                every claimed property (development aid)
exit 0 held / 1 VIOLATION / 3 the check itself could not answer
"""
import sys, os, json, glob, hashlib, subprocess, time, shlex
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "tools"))
from props import PROPS, GROUPS
REPO = os.environ.get("SLSM_REPO", "/repo")
BUILD = os.environ.get("SLSM_BUILD", os.path.join(HERE, "build"))
REPLAYS = os.path.join(HERE, "replays")
JOBS = int(os.environ.get("MC_JOBS", "8"))

LIBFLAGS = ["-std=c++11", "-O2", "-DNDEBUG", "-D_GLIBCXX_ASSERTIONS", "-ftrivial-auto-var-init=pattern", "-w"] + os.environ.get("SLSM_LIBEXTRA", "").split()
HFLAGS = ["-std=c++17", "-O2", "-D_GLIBCXX_ASSERTIONS", "-w"]
THREAD = ["-g1", "-fsanitize=thread", "-pthread"]
SAN = ["-g1", "-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"]

def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else str(p).encode()); h.update(b"\0")
    return h.hexdigest()[:24]

def rd(p):
    with open(p, "rb") as f: return f.read()

class BuildError(Exception): pass

def cc(cmd, out):
    tmp = out + ".tmp%d" % os.getpid()
    r = subprocess.run(cmd + ["-o", tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode and os.path.basename(out).startswith("H_demo_"):     # a demonstration that cannot be included is left out
        r = subprocess.run(cmd + ["-DDEMO_SKIP", "-o", tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode: raise BuildError(" ".join(cmd) + "\n" + "\n".join([l for l in r.stdout.splitlines() if "error" in l][:8]))
    os.replace(tmp, out)

def build(group):
    g = GROUPS[group]
    os.makedirs(BUILD, exist_ok=True)
    san = THREAD if g.get("san") == "thread" else SAN if g.get("san") else []
    extra = g.get("defs", [])
    src = os.path.join(REPO, "src")
    hdrs = sorted(glob.glob(src + "/*.h") + glob.glob(src + "/*.hpp") + glob.glob(src + "/*.inc"))
    hsha = sha(*[os.path.basename(h).encode() + rd(h) for h in hdrs])
    mysha = sha(*[rd(h) for h in sorted(glob.glob(HERE + "/src/*.hpp") + glob.glob(HERE + "/src/stub/*") + glob.glob(HERE + "/src/pystub/pybind11/*"))])
    jobs, objs = [], []
    inc = ["-I" + src] + (["-I" + os.path.join(HERE, "src", "stub")] if g.get("stub") else [])
    units = sorted(glob.glob(src + "/*.cpp"))
    if g.get("bindings"):        # the binding files include the library's sources themselves
        bind = sorted(glob.glob(os.path.join(REPO, "python", "bindings", "*.cpp")))
        text = b"".join(rd(b) for b in bind)
        hsha = sha(hsha, *[rd(c) for c in units + sorted(glob.glob(os.path.join(REPO, "python", "bindings", "*.h*")))])
        units = bind + [c for c in units if os.path.basename(c).encode() not in text]
        inc = ["-I" + os.path.join(HERE, "src", "pystub")] + inc
    dsha = ""
    if g.get("demos"):           # the harness includes the demonstration programs
        inc = inc + ["-I" + os.path.join(HERE, "src", "demoinc"), "-I" + REPO]
        dsha = sha(*[rd(c) for c in sorted(glob.glob(os.path.join(REPO, "demos", "*.cpp")) + glob.glob(os.path.join(REPO, "demos", "*.h*")))])
    for c in units:
        if os.path.basename(c) == "Optimise.cpp" and not g.get("stub"): continue
        fl = LIBFLAGS + san + extra + g.get("libflags", [])
        o = os.path.join(BUILD, "L_%s_%s.o" % (os.path.basename(c)[:-4], sha(rd(c), hsha, mysha if g.get("stub") else "", fl, c)))
        objs.append(o)
        if not os.path.exists(o): jobs.append((["g++", "-c", c] + fl + inc, o))
    hs = []
    for c in [os.path.join(HERE, "src", x) for x in ["mc.cpp"] + g["src"]]:
        fl = HFLAGS + san + extra
        o = os.path.join(BUILD, "H_%s_%s.o" % (os.path.basename(c)[:-4], sha(rd(c), hsha, mysha, dsha, fl, c)))
        hs.append(o)
        if not os.path.exists(o): jobs.append((["g++", "-c", c] + fl + ["-I" + os.path.join(HERE, "src")] + inc, o))
    with ThreadPoolExecutor(8) as ex:
        list(ex.map(lambda j: cc(*j), jobs))
    exe = os.path.join(BUILD, "%s_%s" % (group, sha(*(objs + hs), san)))
    if not os.path.exists(exe):
        cc(["g++"] + san + hs + objs + ["-Wl,--wrap=exit"] + g.get("ld", []), exe)
    return exe

def env():
    e = dict(os.environ)
    e["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:exitcode=86:allocator_may_return_null=1:max_allocation_size_mb=1500:detect_stack_use_after_return=0"
    e["UBSAN_OPTIONS"] = "halt_on_error=1:exitcode=87:print_stacktrace=0"
    e["TSAN_OPTIONS"] = "halt_on_error=1:exitcode=88:report_signal_unsafe=0"
    e["LC_ALL"] = "C"
    e["SLSM_REPO"] = REPO
    e["SLSM_PYDEMO"] = os.path.join(HERE, "src", "pydemo.py")
    return e

def known():
    p = os.path.join(HERE, "known_findings.json")
    if not os.path.exists(p): return []
    return json.load(open(p))["findings"]

def binrun(exe, args, timeout):
    return subprocess.run([exe] + args, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=env(), timeout=timeout)

def confirm(exe, pid, tier, seed, v):
    """Re-run a counterexample in a fresh process: alone, else with the worker's whole prefix."""
    base = ["--prop", pid, "--tier", tier, "--seed", str(seed), "--jobs", str(v["workers"])]
    tries = [("single", base + ["--only", str(v["index"])]),
             ("prefix", base + ["--worker", str(v["worker"]), "--upto", str(v["index"])])]
    for mode, a in tries:
        out = os.path.join(BUILD, "confirm_%d.json" % os.getpid())
        try:
            binrun(exe, a + ["--out", out, "--limit", "90"], 300)
            res = json.load(open(out))
        except Exception:
            continue
        finally:
            if os.path.exists(out): os.remove(out)
        if any(x["index"] == v["index"] and x["key"] == v["key"] for x in res["violations"]):
            return mode, a
    return None, None

def decide(pid, tier):
    P = PROPS[pid]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    ev = os.path.join(HERE, "evidence", pid + ".json")
    if os.path.exists(ev): os.remove(ev)
    runs = []
    fresh, listed = [], {}
    kf = {(k["property"], k["case"]): k for k in known() if k.get("status") == "finding"}
    nbuild = 0
    for group in P["groups"]:
        try:
            exe = build(group)
        except BuildError as e:
            print("BUILD ERROR property=%s\n%s" % (pid, e)); return 3
        nbuild = time.time() - t0
        out = os.path.join(BUILD, "out_%s_%s_%d.json" % (pid, group, os.getpid()))
        r = binrun(exe, ["--prop", pid, "--tier", tier, "--out", out, "--jobs", str(JOBS), "--seed", str(seed)], 7000)
        if not os.path.exists(out):
            print("CHECK ERROR property=%s rc=%s\n%s" % (pid, r.returncode, r.stdout[-3000:])); return 3
        res = json.load(open(out)); os.remove(out)
        if res["harness_error"] or res["table_full"]:
            print("CHECK ERROR property=%s harness_error=%s table_full=%s\n%s" % (pid, res["harness_error"], res["table_full"], r.stdout[-3000:])); return 3
        runs.append((group, res))
        for v in res["violations"]:
            v["workers"] = res["workers"]; v["group"] = group; v["exe"] = exe
            if (pid, v["key"]) in kf: listed[v["key"]] = v
            else: fresh.append(v)
        if not res["violations"] and (res["cases"] != res["cases_total"] or res["cases"] == 0):
            print("CHECK ERROR property=%s explored %d of %d cases" % (pid, res["cases"], res["cases_total"])); return 3
    tot = lambda k: sum(r[k] for _, r in runs)
    samples = [s for _, r in runs for s in r["samples"]][:12]
    cov = {"states": tot("states"), "transitions": tot("transitions"),
           "traces_validated_against_impl": tot("traces"), "samples": samples,
           "cases_enumerated": tot("cases"), "distinct_outcomes": tot("outcomes"),
           "exhaustive_within_bounds": True, "bounds": P["bounds"][tier], "oracle": P["oracle"],
           "conformance": P.get("conformance", "the explorer drives the real code of /repo/src on every case; the reference is compared after every step"),
           "counters": {k: v for _, r in runs for k, v in r["counters"].items() if v},
           "workers": JOBS, "build_s": round(nbuild, 2)}
    if P["level"] == "fault_enumeration":
        cov = dict(cov, evaluations=tot("cases"), distinct_nontrivial=tot("states"), rule=P["rule"])
    doc = {"property": pid, "tier": tier, "seed": seed, "level": P["level"], "coverage": cov,
           "wall_s": round(time.time() - t0, 3)}
    for k in sorted(listed):
        print("KNOWN-FINDING: property=%s %s (%s)" % (pid, kf[(pid, k)]["what"], k))
    doc["coverage"]["known_findings_observed"] = sorted(listed)
    rc = 0
    if fresh:
        os.makedirs(REPLAYS, exist_ok=True)
        seen, n, unstable = set(), 0, 0
        for v in fresh:
            sig = v["msg"][:60]
            if sig in seen: continue
            if rc and time.time() - t0 > 500: break
            seen.add(sig)
            mode, args = confirm(v["exe"], pid, tier, seed, v)
            if not mode:
                unstable += 1
                print("note: could not reproduce case %s (%s: %s)" % (v["index"], v["key"], v["msg"]))
                if unstable > 4: break
                continue
            n += 1
            f = os.path.join(REPLAYS, "%s_%s_%d.json" % (pid, tier, n))
            json.dump({"property": pid, "group": v["group"], "mode": mode, "args": args, "index": v["index"],
                       "case": v["key"], "what": v["msg"]}, open(f, "w"), indent=1)
            print("  case: %s\n  what: %s" % (v["key"], v["msg"]))
            print("VIOLATION property=%s replay=%s" % (pid, f))
            rc = 1
            if n >= 3: break
        if not rc:
            print("CHECK ERROR property=%s: %d violations seen, none reproduced" % (pid, len(fresh))); return 3
        doc["coverage"]["violations"] = len(fresh)
    json.dump(doc, open(ev, "w"), indent=1)
    print("%s %s tier=%s states=%d transitions=%d traces=%d cases=%d outcomes=%d wall=%.1fs (build %.1fs)" % (
        "FAIL" if rc else "ok", pid, tier, tot("states"), tot("transitions"), tot("traces"), tot("cases"), tot("outcomes"), time.time() - t0, nbuild))
    if cov["counters"]: print("   " + " ".join("%s=%d" % kv for kv in sorted(cov["counters"].items())))
    return rc

def replay(f):
    d = json.load(open(f))
    exe = build(d["group"])
    a = list(d["args"])
    out = os.path.join(BUILD, "replay_%d.json" % os.getpid())
    r = binrun(exe, a + ["--out", out], 900)
    res = json.load(open(out)); os.remove(out)
    hit = [x for x in res["violations"] if x["index"] == d["index"]]
    print(r.stdout)
    for x in hit: print("case %s\n%s" % (x["key"], x["msg"]))
    if hit:
        print("VIOLATION property=%s replay=%s" % (d["property"], os.path.abspath(f))); return 1
    print("not reproduced on the current tree"); return 0

def main():
    a = sys.argv[1:]
    tier = os.environ.get("VERIF_TIER", "quick") or "quick"
    if "--tier" in a:
        i = a.index("--tier"); tier = a[i + 1]; del a[i:i + 2]
    if a and a[0] == "--replay": return replay(a[1])
    if a and a[0] == "--all":
        bad = []
        for p in sorted(PROPS):
            rc = decide(p, tier)
            sys.stdout.flush()
            if rc: bad.append((p, rc))
        print("bad:", bad); return 1 if bad else 0
    rc = 0
    for p in a: rc = max(rc, decide(p, tier))
    return rc

if __name__ == "__main__":
    sys.stdout.reconfigure(line_buffering=True)
    try:
        rc = main()
    except subprocess.TimeoutExpired as e:
        print("CHECK ERROR timeout", e); rc = 3
    sys.exit(rc)
