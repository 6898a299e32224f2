#!/usr/bin/env python3
"""Build one check from /repo's working tree, run it, write evidence, report.  usage: run.py ID [--tier quick|thorough]
   run.py ID --replay FILE   replays a recorded violation        run.py --setup   builds the checker's own objects"""
import sys, os, json, subprocess, time, shutil, concurrent.futures as cf
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(HERE, "build"))
OUT = os.path.join(BUILD, "out")
sys.path.insert(0, os.path.join(HERE, "checks"))
from table import CHECKS          # noqa: E402

CXX, CC = "clang++", "clang"
BASE = ["-g", "-fno-omit-frame-pointer", "-w"]
INC = ["-I" + os.path.join(HERE, "mc"), "-I" + os.path.join(HERE, "checks"), "-I" + REPO + "/include", "-I" + REPO, "-I" + REPO + "/desktop_blocks",
       "-I" + REPO + "/desktop_logger", "-isystem", "/usr/include/liquid"]
MODES = {
    "thr": ["-O1", "-fsanitize=thread", "-mllvm", "-tsan-instrument-func-entry-exit=0", "-DMC_THREADS"],
    "asan": ["-O1", "-fsanitize=address", "-DMC_ASAN"],
    "plain": ["-O2"],
}


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def compile_one(job):
    cmd, obj = job
    r = sh(cmd)
    return obj, r.returncode, r.stdout


def core_objects(force=False):
    d = os.path.join(BUILD, "core"); os.makedirs(d, exist_ok=True)
    jobs = []
    hdr = max(os.path.getmtime(os.path.join(HERE, "mc", h)) for h in ("mc.hpp", "mc_int.hpp"))
    for name, src, fl in (("core", "mc_core.cpp", ["-O2"]), ("core_asan", "mc_core.cpp", ["-O2", "-DMC_ASAN"]),
                          ("thr", "mc_thr.cpp", ["-O2"]), ("seq", "mc_seq.cpp", ["-O2"])):
        obj = os.path.join(d, name + ".o"); s = os.path.join(HERE, "mc", src)
        if not force and os.path.exists(obj) and os.path.getmtime(obj) > max(hdr, os.path.getmtime(s)):
            continue
        tmp = obj + ".%d.tmp" % os.getpid()
        jobs.append(([CXX, "-std=c++17", *BASE, *fl, "-c", s, "-o", tmp], (tmp, obj)))
    with cf.ThreadPoolExecutor(4) as ex:
        for (tmp, obj), rc, out in ex.map(compile_one, jobs):
            if rc:
                print(out); sys.exit(2)
            os.replace(tmp, obj)


def build_part(pid, part):
    """part: {name, src:[harness files], repo:[files of /repo], mode, flags, libs}"""
    d = os.path.join(BUILD, pid, part["name"])
    shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    jobs, objs = [], []
    mode = part.get("mode", "plain")
    for s in [os.path.join(HERE, "checks", x) for x in part["src"]] + [os.path.join(REPO, x) for x in part.get("repo", [])]:
        obj = os.path.join(d, os.path.basename(s) + ".o")
        c = s.endswith(".c")
        cmd = [CC if c else CXX, *([] if c else ["-std=c++17"]), *BASE, *MODES[mode],
               *[f.replace("@REPO@", REPO).replace("@HERE@", HERE) for f in part.get("flags", [])],
               *([] if c else [f.replace("@REPO@", REPO) for f in part.get("cxxflags", [])]),
               *INC, "-c", s, "-o", obj]
        jobs.append((cmd, obj)); objs.append(obj)
    with cf.ThreadPoolExecutor(8) as ex:
        for obj, rc, out in ex.map(compile_one, jobs):
            if rc:
                print("BUILD FAILED:", obj, "\n", out[-6000:]); sys.exit(2)
    core = os.path.join(BUILD, "core")
    objs += [os.path.join(core, "core_asan.o" if mode == "asan" else "core.o"), os.path.join(core, "thr.o" if mode == "thr" else "seq.o")]
    exe = os.path.join(d, "check")
    cmd = [CXX, *objs, "-o", exe, *(["-fsanitize=address"] if mode == "asan" else []), "-rdynamic", *part.get("libs", []), "-lpthread", "-ldl"]
    r = sh(cmd)
    if r.returncode:
        print("LINK FAILED\n", r.stdout[-6000:]); sys.exit(2)
    return exe


def known_file(pid):
    keys, what = [], {}
    for line in open(os.path.join(HERE, "known_findings.txt")):
        line = line.strip()
        if line.startswith("open: property=" + pid + " "):
            rest = line.split(" ", 2)[2]
            key, text = rest.split(" ", 1)
            key = key.split("=", 1)[1]
            keys.append(pid + ":" + key); what[pid + ":" + key] = text
    p = os.path.join(BUILD, pid, "known.txt"); os.makedirs(os.path.dirname(p), exist_ok=True)
    open(p, "w").write("\n".join(keys) + "\n")
    return p, what


def main():
    a = sys.argv[1:]
    if a and a[0] == "--setup":
        core_objects(True); print("setup ok"); return 0
    pid = a[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in a:
        tier = a[a.index("--tier") + 1]
    only = a[a.index("--only") + 1] if "--only" in a else ""
    verbose = "-v" in a
    chk = CHECKS[pid]
    t0 = time.time()
    os.makedirs(OUT, exist_ok=True); core_objects()
    kf, what = known_file(pid)
    parts = [p for p in chk["parts"] if tier == "thorough" or not p.get("thorough_only")]
    with cf.ThreadPoolExecutor(4) as ex:
        exes = list(ex.map(lambda p: build_part(pid, p), parts))
    tb = time.time() - t0
    if "--replay" in a:
        f = a[a.index("--replay") + 1]
        rcs = [subprocess.run([e, "--property", pid, "--replay", f, "-v"]).returncode for e in exes]
        return 1 if 1 in rcs else 0
    env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:handle_abort=0:allocator_may_return_null=1:detect_stack_use_after_return=0:exitcode=99", LC_ALL="C")
    res, viol, knowns, err = [], None, {}, 0
    for p, exe in zip(parts, exes):
        js = os.path.join(BUILD, pid, p["name"], "result.json"); rp = os.path.join(OUT, "%s-%s.replay" % (pid, p["name"]))
        if os.path.exists(js): os.remove(js)
        scratch = os.path.join(BUILD, pid, p["name"], "scratch"); shutil.rmtree(scratch, ignore_errors=True); os.makedirs(scratch)
        budget = p.get("thorough_s", 400) if tier == "thorough" else p.get("quick_s", 60)
        cmd = [exe, "--property", pid, "--out", js, "--tier", tier, "--budget", str(budget), "--known", kf, "--replay-out", rp]
        if only: cmd += ["--only", only]
        if verbose: cmd += ["-v"]
        env["MC_SCRATCH"] = scratch
        log = os.path.join(BUILD, pid, p["name"], "log.txt")
        with open(log, "w") as lf:
            rc = subprocess.run(cmd, stdout=lf, stderr=subprocess.STDOUT, env=env, cwd=scratch).returncode
        shutil.rmtree(scratch, ignore_errors=True)
        text = open(log, errors="replace").read()
        if verbose: print(text[-20000:])
        if only and "no scenarios" in text: continue
        if not os.path.exists(js) or rc not in (0, 1):
            print("check %s part %s ended with %d\n%s" % (pid, p["name"], rc, text[-5000:])); err = 2
            if not os.path.exists(js): continue
        j = json.load(open(js)); j["part"] = p["name"]; res.append(j)
        for k in j["known"]: knowns[k["key"]] = k["msg"]
        if rc == 1 and viol is None:
            viol = (rp, j["scenario"], j["key"], j["message"])
            if not verbose: print(text[-3000:])
            break
    for k, m in knowns.items():
        print("KNOWN-FINDING: property=%s %s" % (pid, what.get(k, m)))
    tot = lambda k: sum(j[k] for j in res)
    samples = [s for j in res for s in j["samples"]][:12]
    cov = {
        "states": tot("states"), "transitions": tot("transitions"), "traces_validated_against_impl": tot("executions") + tot("evals"),
        "evaluations": tot("executions") + tot("evals"), "distinct_nontrivial": tot("outcomes"),
        "rule": chk["rule"], "samples": samples or ["(no sample recorded)"],
        "scenarios": tot("scenarios"), "scenarios_completed": tot("scenarios_done") - tot("truncated_scenarios"),
        "executions": tot("executions"), "pruned_redundant": tot("pruned"), "distinct_outcomes": tot("outcomes"), "executions_with_stale_reads": tot("stale_executions"),
        "longest_execution_steps": max([j["max_steps"] for j in res] or [0]),
        "caps_hit": [t for j in res for t in j["truncated"]],
        "exhaustive": all(j["truncated_scenarios"] == 0 for j in res) and viol is None and not err,
        "bounds": chk["bounds"],
    }
    ev = {"property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1")), "level": chk["level"], "coverage": cov,
          "assumptions": chk["assumptions"], "wall_s": round(time.time() - t0, 2), "violations": 1 if viol else 0}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(HERE, "evidence", pid + ".json"), "w"), indent=1)
    print("%s %s: build %.1fs total %.1fs scenarios=%d executions=%d evals=%d transitions=%d states=%d outcomes=%d capped=%d" % (
        pid, tier, tb, time.time() - t0, cov["scenarios"], cov["executions"], tot("evals"), cov["transitions"], cov["states"], cov["distinct_outcomes"], len(cov["caps_hit"])))
    if viol:
        print("scenario: %s\n%s: %s" % (viol[1], viol[2], viol[3]))
        print("VIOLATION property=%s replay=%s" % (pid, os.path.relpath(viol[0], HERE)))
        return 1
    return err


sys.exit(main())
