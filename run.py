#!/usr/bin/env python3
"""Driver: run.py <property> [--tier quick|thorough] | run.py --replay FILE | run.py --setup
Compiles the harnesses of a property from /repo's working tree, explores, writes evidence/<property>.json."""
import concurrent.futures as cf, hashlib, json, os, re, shutil, subprocess, sys, time
ROOT = os.path.dirname(os.path.abspath(__file__)); REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, os.path.join(ROOT, "tools"))
from checks import CHECKS
BUILD = os.path.join(ROOT, "build"); EV = os.path.join(ROOT, "evidence"); RP = os.path.join(EV, "replay")
SEAM = "-include harness/rng_seam.hpp"
INC = "-Iharness -Istubs -Istubs/mpi -I%s/lib -I%s/app -I%s" % (REPO, REPO, REPO)
BASE = "-std=c++17 -w -g1"
ASAN = "-fsanitize=address -fno-omit-frame-pointer"

def env():
    e = dict(os.environ); e.update(OMP_NUM_THREADS="1", ASAN_OPTIONS="detect_leaks=0:abort_on_error=1:allocator_may_return_null=0"); return e

def compile_job(prop, job):
    out = os.path.join(BUILD, prop); os.makedirs(out, exist_ok=True); exe = os.path.join(out, job["name"])
    if job.get("kind") == "conc":
        r = subprocess.run(["bash", "conc/build.sh", os.path.join("harness", job["src"]), exe, INC] + job.get("flags", "").split(), cwd=ROOT, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    else:
        cmd = "g++ %s %s %s %s -fopenmp %s %s -o %s -lpthread" % (BASE, SEAM, INC, job.get("flags", "-O2 -D_GLIBCXX_ASSERTIONS"), os.path.join("harness", job["src"]), job.get("libs", ""), exe)
        r = subprocess.run(cmd, shell=True, cwd=ROOT, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode: return None, r.stdout[-3000:]
    return exe, ""

def known_for(prop):
    res = []; p = os.path.join(ROOT, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"finding: property=(\S+) job=(\S+) spec=(.*?) :: (.*)$", l.strip())
            if m and m.group(1) == prop: res.append((m.group(2), m.group(3), m.group(4)))
    return res

def job_cmd(exe, job, tier, out, known=None):
    c = [exe, "--tier", tier, "--out", out, "--timeout", str(job.get("timeout", 20)), "--budget", str(job.get("budget", {"quick": 150, "thorough": 1500})[tier] if isinstance(job.get("budget"), dict) or "budget" not in job else job["budget"])]
    if job.get("arg"): c += ["--arg", job["arg"]]
    if known: c += ["--known", known]
    return c

def main():
    a = sys.argv[1:]
    if a and a[0] == "--setup":
        os.makedirs(BUILD, exist_ok=True); os.makedirs(EV, exist_ok=True)
        for t in ("g++", "python3"):
            if not shutil.which(t): print("missing tool", t); return 2
        return 0
    if a and a[0] == "--replay":
        d = dict(l.rstrip("\n").split(": ", 1) for l in open(a[1]) if ": " in l)
        job = [j for j in CHECKS[d["property"]]["jobs"] if j["name"] == d["job"]][0]
        exe, err = compile_job(d["property"], job)
        if not exe: print(err); return 2
        return subprocess.run([exe, "--replay", d["spec"]] + (["--arg", job["arg"]] if job.get("arg") else []), env=env(), cwd=ROOT).returncode
    prop = a[0]; tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in a: tier = a[a.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1); t0 = time.time(); chk = CHECKS[prop]
    os.makedirs(RP, exist_ok=True); shutil.rmtree(os.path.join(BUILD, prop), ignore_errors=True)
    jobs = [j for j in chk["jobs"] if tier == "thorough" or not j.get("thorough_only")]
    if "--job" in a: jobs = [j for j in jobs if j["name"] == a[a.index("--job") + 1]]
    with cf.ThreadPoolExecutor(max_workers=4) as ex: built = list(ex.map(lambda j: compile_job(prop, j), jobs))
    for j, (exe, err) in zip(jobs, built):
        if not exe: print("build of %s/%s failed:\n%s" % (prop, j["name"], err)); return 2
    viol = []; kf = []; results = {}; known = known_for(prop); samples = []; exhaustive = True; unconf = 0
    tot = dict(cases=0, executions=0, transitions=0, nontrivial=0); extra = {}; outcomes = 0
    tc = time.time() - t0
    for j, (exe, _) in zip(jobs, built):
        out = os.path.join(BUILD, prop, j["name"] + ".json"); kfile = None
        ks = [k for k in known if k[0] == j["name"]]
        if ks: kfile = out + ".known"; open(kfile, "w").write("".join(k[1] + "\n" for k in ks))
        e = env(); e.update(j.get("env", {}))
        r = subprocess.run(job_cmd(exe, j, tier, out, kfile), env=e, cwd=ROOT, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True, errors="replace")
        if not os.path.exists(out): print("job %s/%s gave no result (exit %s)\n%s" % (prop, j["name"], r.returncode, r.stderr[-2000:])); return 2
        d = json.load(open(out)); results[j["name"]] = d; c = d["counters"]
        tot["cases"] += d["cases"]; tot["executions"] += c.get("executions", d["cases"]); tot["transitions"] += c.get("transitions", 0); tot["nontrivial"] += c.get("nontrivial", 0); outcomes += d["distinct_outcomes"]
        for k, v in c.items():
            if k not in ("executions", "transitions", "nontrivial"): extra[j["name"] + "." + k] = v
        if d.get("capped") or c.get("capped_choice_trees") or d.get("stopped"): exhaustive = False
        unconf += d.get("unconfirmed", 0)
        if r.stderr.strip(): sys.stderr.write(r.stderr[-1500:])
        samples += [{"job": j["name"], "case": s} for s in d.get("last_specs", [])[:2] if s]
        for f in d["failures"]:
            h = hashlib.sha1((j["name"] + f["spec"]).encode()).hexdigest()[:10]; p = os.path.join(RP, "%s-%s.txt" % (prop, h))
            open(p, "w").write("property: %s\njob: %s\nspec: %s\nwhat: %s\n" % (prop, j["name"], f["spec"], f["what"])); viol.append((p, j["name"], f))
        for f in d["known"]:
            w = [k[2] for k in ks if k[1] == f["spec"]]; kf.append((f["spec"], w[0] if w else f["what"]))
    cov = dict(states=tot["cases"], transitions=tot["transitions"] or tot["executions"], traces_validated_against_impl=tot["executions"] if tot["transitions"] else tot["cases"], distinct_outcomes=outcomes,
               nontrivial=tot["nontrivial"], exhaustive=exhaustive, rule=chk["rule"], samples=samples[:8], per_job={k: dict(cases=v["cases"], wall=v["wall"], **v["counters"]) for k, v in results.items()}, compile_s=round(tc, 1), unconfirmed=unconf)
    ev = dict(property=prop, tier=tier, seed=seed, level=chk.get("level", "model_checking"), coverage=cov, assumptions=chk.get("assumptions", []), wall_s=round(time.time() - t0, 2), violations=len(viol))
    if kf: ev["known_findings"] = [dict(spec=s, what=w) for s, w in kf]
    json.dump(ev, open(os.path.join(EV, prop + ".json"), "w"), indent=1)
    for s, w in kf: print("KNOWN-FINDING: property=%s %s [%s]" % (prop, w, s))
    for p, jn, f in viol[:4]: print("VIOLATION property=%s replay=%s" % (prop, p)); print("  job %s case %s: %s" % (jn, f["spec"], f["what"][:300]))
    print("%s %s: %d cases, %d executions, %d violations, %d known, %.1f s" % (prop, tier, tot["cases"], tot["executions"], len(viol), len(kf), time.time() - t0))
    return 1 if viol else 0
sys.exit(main())
