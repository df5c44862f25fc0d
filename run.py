#!/usr/bin/env python3
"""run.py ID [--thorough] [--replay FILE] [--keep] [--only SUBSTRING]

Builds the harness of property ID from the headers in /repo's working tree, explores all its
scenarios and writes evidence/ID.json. Exit 0: held. Exit 1 with a VIOLATION line: broken.
"""
import json, os, re, shutil, signal, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, HERE)
from plan import PLAN, FLAVOURS

def die(msg):
    print("ERROR", msg, flush=True)
    sys.exit(2)

def main():
    args = sys.argv[1:]
    pid = args.pop(0)
    tier = os.environ.get("VERIF_TIER", "quick")
    keep = False; only = None; replay = None; only_build = None
    while args:
        a = args.pop(0)
        if a == "--thorough": tier = "thorough"
        elif a == "--quick": tier = "quick"
        elif a == "--keep": keep = True
        elif a == "--only": only = args.pop(0)
        elif a == "--replay": replay = json.load(open(args.pop(0)))
        else: die("unknown argument " + a)
    if tier not in ("quick", "thorough"): tier = "quick"
    os.environ["VERIF_TIER"] = tier
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    deadline = t0 + (780 if tier == "quick" else 6 * 3600)
    ncpu = int(os.environ.get("VERIF_JOBS", 0)) or os.cpu_count() or 1
    spec = PLAN[pid]
    if replay: only = replay["scenario"]; only_build = replay["build"]; tier = replay["tier"]; os.environ["VERIF_TIER"] = tier
    base = os.path.join(HERE, ".build")
    os.makedirs(base, exist_ok=True)
    work = tempfile.mkdtemp(prefix=pid + ".", dir=base)
    scratch = tempfile.mkdtemp(prefix="mc.", dir="/dev/shm" if os.access("/dev/shm", os.W_OK) else "/tmp")
    ENV["MC_SCRATCH"] = scratch
    code = 2
    try:
        code = check(pid, spec, tier, seed, t0, deadline, ncpu, work, only, only_build, replay)
    finally:
        if not keep: shutil.rmtree(work, ignore_errors=True)
        shutil.rmtree(scratch, ignore_errors=True)
    sys.exit(code)

def builds_of(spec, tier):
    out = []
    for b in spec["builds"]:
        if b.get("tier") and b["tier"] != tier: continue
        name = b.get("name") or (b["flavour"] + ("-" + b["tag"] if b.get("tag") else ""))
        out.append(dict(b, name=name, src=b.get("src", spec["src"])))
    return out

def execute(cmd):
    try: p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    except OSError as e: return 127, str(e)
    return p.returncode, p.stdout

def compile_one(b, work):
    fl = FLAVOURS[b["flavour"]]
    exe = os.path.join(work, b["name"])
    def build(src):
        pre = fl["cxx"] + fl["flags"] + ["-w", "-DMC_FLAVOUR=\"%s\"" % b["flavour"]] + b.get("defs", []) + \
            ["-I" + os.path.join(HERE, "mc"), "-I" + os.path.join(HERE, "checks"), "-I" + REPO]
        if "link" not in fl:
            cmd = pre + [src, "-o", exe] + b.get("libs", [])
            return (cmd,) + execute(cmd)
        # instrumented harness, linked with plain objects
        cmd = pre + ["-c", src, "-o", exe + ".o"]
        rc, log = execute(cmd)
        if not rc: rc, log = execute([a.replace("HERE", HERE) for a in fl["link"]] + [exe + ".o", "-o", exe] + b.get("libs", []))
        return cmd, rc, log
    src = os.path.join(HERE, "checks", b["src"])
    cmd, rc, log = build(src)
    lines = open(src).read().split("\n")
    if rc and any("// exotic" in l for l in lines):
        # the library may no longer accept user-defined element types: that much less is explored
        plain = os.path.join(work, b["name"] + ".plain.cc")
        with open(plain, "w") as f: f.write("\n".join("" if "// exotic" in l else l for l in lines))
        cmd2, rc2, log2 = build(plain)
        if not rc2: return dict(b, reduced=True), exe, cmd2, rc2, log2
    return b, exe, cmd, rc, log

ENV = dict(os.environ, ASAN_OPTIONS="handle_segv=0:handle_abort=0:handle_sigfpe=0:handle_sigill=0:handle_sigbus=0:abort_on_error=1:detect_leaks=0:allocator_may_return_null=1",
           UBSAN_OPTIONS="abort_on_error=1:print_stacktrace=0", LC_ALL="C")

def run_scenario(exe, scen, out, deadline, stop):
    """returns (kind, data): kind in ok, violation, error, timeout, stopped"""
    if stop["set"]: return "stopped", None
    if os.path.exists(out): os.unlink(out)
    env = dict(ENV, VERIF_TIER=os.environ["VERIF_TIER"])
    errf = open(out + ".err", "w+")
    p = subprocess.Popen([exe, "--run", scen, out], stdout=subprocess.DEVNULL, stderr=errf, env=env)
    while True:
        try:
            rc = p.wait(timeout=0.5); break
        except subprocess.TimeoutExpired:
            if time.time() > deadline or stop["set"]:
                p.kill(); p.wait()
                return ("stopped" if stop["set"] else "timeout"), None
    errf.seek(0); err = errf.read()[-3000:]; errf.close()
    data = None
    try: data = json.load(open(out))
    except Exception: pass
    if rc == 0 and data is not None and "violation" not in data: return "ok", data
    if rc == 1 and data is not None and "violation" in data:
        if err.strip(): data["stderr"] = err
        return "violation", data
    if rc == 3: return "error", "harness error: " + err
    if rc == -9: return "error", "killed (memory?)"
    return "violation", {"scenario": scen, "violation": "abnormal exit %d of the code under test" % rc, "stderr": err}

def check(pid, spec, tier, seed, t0, deadline, ncpu, work, only, only_build, replay):
    blds = builds_of(spec, tier)
    if os.environ.get("VERIF_BUILDS"): blds = [b for b in blds if b["flavour"] in os.environ["VERIF_BUILDS"].split(",")] # development
    if only_build: blds = [b for b in blds if b["name"] == only_build]
    notes = []
    bins = []
    with ThreadPoolExecutor(ncpu) as ex:
        for b, exe, cmd, rc, log in ex.map(lambda b: compile_one(b, work), blds):
            if rc:
                if b.get("optional"):
                    notes.append("optional build %s does not compile and was skipped" % b["name"]); continue
                print(log[-4000:]); print(" ".join(cmd))
                die("harness of %s does not compile" % pid)
            if b.get("reduced"): notes.append("build %s compiles only without user-defined element types" % b["name"])
            bins.append((b, exe, cmd))
    t_build = time.time() - t0
    jobs = []
    for b, exe, cmd in bins:
        names = subprocess.run([exe, "--list"], stdout=subprocess.PIPE, text=True, check=True, env=dict(ENV, VERIF_TIER=os.environ["VERIF_TIER"])).stdout.split("\n")
        for n in names:
            if n and (not only or (n == only if replay else only in n)): jobs.append((b, exe, cmd, n))
    # the scenarios of the different builds are interleaved so that a violation surfaces early
    stop = {"set": False}
    results, errors, timeouts, viol = [], [], [], []
    def work_one(ij):
        i, (b, exe, cmd, n) = ij
        t = time.time()
        kind, data = run_scenario(exe, n, os.path.join(work, "out%d.json" % i), deadline, stop)
        if kind == "violation":
            stop["set"] = True
            viol.append((b, exe, cmd, n, data))
        elif kind == "ok": results.append((b["name"], n, data, time.time() - t))
        elif kind == "error": errors.append((b["name"], n, data))
        elif kind == "timeout": timeouts.append((b["name"], n))
    with ThreadPoolExecutor(ncpu) as ex: list(ex.map(work_one, enumerate(jobs)))
    if viol:
        b, exe, cmd, n, data = sorted(viol, key=lambda v: (v[0]["name"], v[3]))[0]
        # replay before report: the same scenario on its own, twice as patient
        for attempt in range(3):
            again, data2 = run_scenario(exe, n, os.path.join(work, "again.json"), time.time() + 300, {"set": False})
            if again == "violation": break
        rep_dir = os.path.join(HERE, "replays"); os.makedirs(rep_dir, exist_ok=True)
        rep = os.path.join(rep_dir, "%s.json" % pid)
        json.dump({"property": pid, "tier": tier, "build": b["name"], "scenario": n, "compile": cmd,
                   "violation": data["violation"], "stderr": data.get("stderr", ""),
                   "reproduced": again == "violation", "reproduced_identically": again == "violation" and data2["violation"] == data["violation"],
                   "how_to_replay": "python3 run.py %s --replay %s" % (pid, os.path.relpath(rep, HERE))}, open(rep, "w"), indent=1)
        print("build %s, scenario %s:\n%s" % (b["name"], n, data["violation"]))
        if data.get("stderr"): print(data["stderr"][-1500:])
        if again != "violation":
            die("violation did not reproduce (%s)" % again)
        evidence(pid, spec, tier, seed, t0, t_build, results, notes, timeouts, 1)
        print("VIOLATION property=%s replay=%s" % (pid, rep), flush=True)
        return 1
    if errors:
        for e in errors[:5]: print(e)
        die("%d scenarios could not run" % len(errors))
    if not results: die("nothing was explored")
    ev = evidence(pid, spec, tier, seed, t0, t_build, results, notes, timeouts, 0)
    c = ev["coverage"]
    print("%s held: %d scenarios, %s (build %.1f s, total %.1f s)" % (pid, len(results),
        ", ".join("%s=%s" % (k, c[k]) for k in ("states", "transitions", "traces_validated_against_impl", "evaluations", "distinct_nontrivial", "exhaustive") if k in c),
        t_build, time.time() - t0))
    if os.environ.get("VERIF_VERBOSE"):
        for bn, n, d, t in sorted(results, key=lambda r: -r[3])[:12]: print("  %6.1fs %s %s" % (t, bn, n))
    return 0

def evidence(pid, spec, tier, seed, t0, t_build, results, notes, timeouts, nviol):
    tot = lambda k: sum(r[2].get(k, 0) for r in results)
    samples = []
    for r in results:
        for s in r[2].get("samples", [])[:1]:
            if s not in samples: samples.append(s)
    step = max(1, len(samples) // 8)
    samples = samples[::step][:8]
    nt = list(notes)
    for r in results: nt += [x for x in r[2].get("notes", [])]
    by = {}
    for bn, n, d, t in results:
        e = by.setdefault(bn, {"scenarios": 0, "capped_scenarios": 0})
        e["scenarios"] += 1
        if not d.get("exhaustive"): e["capped_scenarios"] += 1
    exhaustive = all(r[2].get("exhaustive") for r in results) and not timeouts and not nviol
    cov = {"exhaustive": bool(exhaustive), "bound": spec["bound"], "samples": samples,
           "distinct_outcomes": tot("distinct"), "builds": by, "scenarios": len(results),
           "not_finished_before_deadline": ["%s/%s" % t for t in timeouts], "notes": nt[:60]}
    if spec["level"] == "model_checking":
        cov["states"] = tot("states"); cov["transitions"] = tot("transitions")
        cov["traces_validated_against_impl"] = tot("traces")
        if tot("evals"): cov["evaluations"] = tot("evals")
    else:
        cov["evaluations"] = tot("evals"); cov["distinct_nontrivial"] = tot("distinct")
        cov["rule"] = spec["rule"]
        if tot("states") not in (0, tot("transitions")): cov["states"] = tot("states"); cov["transitions"] = tot("transitions")
    ev = {"property": pid, "tier": tier, "seed": seed, "level": spec["level"], "coverage": cov,
          "assumptions": spec.get("assumptions", []), "wall_s": round(time.time() - t0, 2), "violations": nviol}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", pid + ".json"), "w") as f: json.dump(ev, f, indent=1)
    return ev

main()
