#!/usr/bin/env python3
"""Runner of all checks.

  check.py ID                 decide property ID on /repo's working tree (tier from VERIF_TIER, default quick)
  check.py ID --replay FILE   re-run the one case stored in a replay file
  check.py --build            build every harness (setup_cmd; only warms nothing that a check relies on)
  check.py --list

Exit 0: the property held on everything explored.  Exit 1: a line "VIOLATION property=ID replay=PATH" was
printed.  Anything else is an error of the check itself.
"""
import json, os, sys, time, subprocess, signal, shutil, glob, fcntl, re

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VP_REPO", "/repo")
B = os.path.join(V, "build")
sys.path.insert(0, V)
sys.dont_write_bytecode = True
from specs import SPECS, BINS, FLAGSETS, LIBSETS, REPOSETS, BASE_ENV  # noqa


def ninja_esc(p):
    return p.replace("$", "$$").replace(" ", "$ ").replace(":", "$:")


def repo_sources(patterns):
    out = []
    for p in patterns:
        for f in sorted(glob.glob(os.path.join(REPO, p))):
            n = os.path.basename(f)
            if re.search(r"_test|_main|_prec", n) and not p.endswith(n):
                continue
            out.append(f)
    return out


def write_ninja():
    os.makedirs(B, exist_ok=True)
    L = ["ninja_required_version = 1.5", "builddir = %s" % B, ""]
    L.append("rule cxx\n  command = $cxx -MD -MF $out.d $flags -c $in -o $out\n  depfile = $out.d\n  deps = gcc\n"
             "  description = CXX $out\n")
    L.append("rule link\n  command = $cxx $in -o $out $libs\n  description = LINK $out\n")
    done = {}

    def obj(src, fs):
        key = (src, fs)
        if key in done:
            return done[key]
        cxx, flags = FLAGSETS[fs]
        rel = src.lstrip("/").replace("/", "_")
        o = os.path.join(B, "obj", fs, rel + ".o")
        L.append("build %s: cxx %s\n  cxx = %s\n  flags = %s\n" % (
            ninja_esc(o), ninja_esc(src), cxx, flags.replace("@REPO@", REPO).replace("@V@", V)))
        done[key] = o
        return o

    for name, b in BINS.items():
        objs = []
        for s in b["src"]:
            fs = b["flags"]
            if isinstance(s, tuple):
                s, fs = s
            objs.append(obj(os.path.join(V, s), fs))
        for rs in b.get("repo", []):
            for f in repo_sources(REPOSETS[rs]):
                objs.append(obj(f, b["flags"]))
        for rs, fs in b.get("repo_fs", []):
            for f in repo_sources(REPOSETS[rs]):
                objs.append(obj(f, fs))
        cxx = FLAGSETS[b["flags"]][0]
        L.append("build %s: link %s\n  cxx = %s\n  libs = %s\n" % (
            ninja_esc(os.path.join(B, "bin", name)), " ".join(map(ninja_esc, objs)), cxx,
            LIBSETS[b.get("libs", "none")].replace("@V@", V)))
    txt = "\n".join(L) + "\n"
    p = os.path.join(B, "build.ninja")
    if not os.path.exists(p) or open(p).read() != txt:
        open(p, "w").write(txt)


def build(bins):
    os.makedirs(B, exist_ok=True)
    with open(os.path.join(B, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        write_ninja()
        r = subprocess.run(["ninja", "-C", B, "-j", "8"] + [os.path.join(B, "bin", x) for x in bins],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        sys.stdout.write(r.stdout[-6000:])
        print("check error: the harness does not build against the current tree")
        sys.exit(2)


class Res:
    pass


def run_job(pid, job, tier, rundir, only=None, timeout=None):
    """Run one job (all its stages, in one scratch directory); returns Res(ranks, first, viol, crashed, timeout, key)."""
    shutil.rmtree(rundir, ignore_errors=True)
    os.makedirs(os.path.join(rundir, "wd"))
    to = timeout or job.get("timeout", {}).get(tier, 300 if tier == "quick" else 3000)
    end = time.time() + to
    r = Res()
    r.ranks, r.first, r.viol, r.key, r.logtail = [], [], [], None, ""
    r.crashed = r.timeout = False
    r.rc = 0
    seen = set()
    for si, st in enumerate(job.get("stages") or [{}]):
        j = dict(job)
        j.update(st)
        x = run_stage(j, tier, rundir, "vpout%d" % si if si else "vpout", end, only)
        r.ranks += x.ranks
        r.first += x.ranks[:1]
        r.logtail, r.rc, r.crashed, r.timeout = x.logtail, x.rc, x.crashed, x.timeout
        r.key = x.key
        for rk in x.ranks:
            for v in rk["violations"]:
                if v["key"] not in seen:
                    seen.add(v["key"])
                    r.viol.append(v)
        if r.crashed or r.timeout:
            break
    return r


def run_stage(job, tier, rundir, outname, end, only):
    out = os.path.join(rundir, outname)
    wd = os.path.join(rundir, "wd")
    np_ = job.get("np", 0)
    cmd = [os.path.join(B, "bin", job["bin"])] + [a.replace("@V@", V) for a in job.get("args", [])] + [
        "--out", out, "--tier", tier]
    if only is not None:
        cmd += ["--only", only]
    if np_:
        cmd = ["mpirun", "--bind-to", "none", "-n", str(np_)] + cmd
    env = dict(os.environ)
    env.update(BASE_ENV)
    env["OMP_NUM_THREADS"] = str(job.get("omp", 1))
    env["TMPDIR"] = rundir
    env["VP_V"] = V
    env.update(job.get("env", {}))
    logf = open(os.path.join(rundir, "log"), "wb")
    p = subprocess.Popen(cmd, cwd=wd, env=env, stdout=logf, stderr=subprocess.STDOUT, start_new_session=True)
    r = Res()
    r.timeout = False
    # a job is stopped when its time is used up or when the same case runs for too long
    stall = job.get("stall", 90 if tier == "quick" else 400)
    last, since = None, time.time()
    while True:
        try:
            r.rc = p.wait(timeout=1.0 if time.time() - since > 2 else 0.05)
            break
        except subprocess.TimeoutExpired:
            pass
        cur = []
        for k in range(max(1, np_)):
            try:
                cur.append(open(out + ".progress.%d" % k, "rb").read().split(b"\0")[0])
            except OSError:
                cur.append(b"")
        now = time.time()
        if cur != last:
            last, since = cur, now
        if now > end or now - since > stall:
            r.timeout = True
            r.rc = None
            break
    for s in (signal.SIGTERM, signal.SIGKILL):
        if r.timeout or s == signal.SIGKILL:
            try:
                os.killpg(p.pid, s)
                if s == signal.SIGTERM:
                    time.sleep(1.0)
            except ProcessLookupError:
                pass
    p.wait()
    if r.timeout and np_:
        # ranks that outlived mpirun
        subprocess.run(["pkill", "-9", "-f", cmd[cmd.index("--out") + 1]], stdout=subprocess.DEVNULL,
                       stderr=subprocess.DEVNULL)
    logf.close()
    r.ranks = []
    r.key = None
    complete = True
    for k in range(max(1, np_)):
        try:
            r.ranks.append(json.load(open(out + ".%d" % k)))
        except (OSError, ValueError):
            complete = False
    if not complete or r.timeout or r.rc != 0:
        for k in range(max(1, np_)):
            try:
                s = open(out + ".progress.%d" % k, "rb").read().split(b"\0")[0].decode("latin1")
                if s and not r.key:
                    r.key = s
            except OSError:
                pass
    r.crashed = (not complete) or r.rc != 0
    r.logtail = open(os.path.join(rundir, "log"), "rb").read()[-3000:].decode("utf8", "replace")
    return r


def known_findings(pid):
    keys = {}
    try:
        for line in open(os.path.join(V, "KNOWN_FINDINGS.txt")):
            m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", line.strip())
            if m and m.group(1) == pid:
                keys[m.group(2)] = m.group(3)
    except OSError:
        pass
    return keys


def report(pid, job, key, msg, n, only=True):
    d = os.path.join(B, "replay")
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, "%s-%d.json" % (pid, n))
    json.dump({"property": pid, "job": job, "key": key if only else None, "case": key, "message": msg,
               "how": "python3 check.py %s --replay %s" % (pid, p)}, open(p, "w"), indent=1)
    print("VIOLATION property=%s replay=%s" % (pid, p))
    print("  case: %s" % key)
    print("  %s" % msg.strip()[-1500:])
    sys.stdout.flush()


def main():
    if "--list" in sys.argv:
        for k in SPECS:
            print(k, [j["bin"] for j in SPECS[k]["jobs"]])
        return 0
    if "--build" in sys.argv:
        build(sorted(BINS))
        return 0
    pid = sys.argv[1]
    spec = SPECS[pid]
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    jobs = [j for j in spec["jobs"] if tier == "thorough" or not j.get("thorough_only")]
    build(sorted({j["bin"] for j in jobs}))
    if "--replay" in sys.argv:
        rp = json.load(open(sys.argv[sys.argv.index("--replay") + 1]))
        r = run_job(pid, rp["job"], rp.get("tier", tier), os.path.join(B, "run", pid + "-replay"), only=rp["key"])
        bad = r.crashed or r.timeout or r.viol
        print(r.logtail if bad else "")
        if bad:
            for v in r.viol[:5]:
                print(v["key"], "::", v["msg"])
            print("VIOLATION property=%s replay=%s" % (pid, sys.argv[sys.argv.index("--replay") + 1]))
        else:
            print("case holds")
        return 1 if bad else 0
    known = known_findings(pid)
    knownseen = {}
    nviol = 0
    tot = {"evaluations": 0, "states": 0, "transitions": 0, "traces": 0, "outcomes": 0, "cases": 0}
    counters = {}
    samples = []
    perjob = []
    maxviol = 3
    for ji, job in enumerate(jobs):
        rundir = os.path.join(B, "run", "%s-%d" % (pid, ji))
        tj = time.time()
        r = run_job(pid, job, tier, rundir)
        reported = False
        if r.crashed or r.timeout:
            what = "did not terminate in time" if r.timeout else "ended abnormally (rc=%s)" % r.rc
            first = r
            confirmed = None
            if first.key:
                rr = run_job(pid, job, tier, rundir + "r", only=first.key,
                             timeout=min(240, job.get("timeout", {}).get(tier, 300)))
                if rr.crashed or rr.timeout or rr.viol:
                    confirmed = True
                    if first.key in known:
                        knownseen[first.key] = 1
                        confirmed = None  # the job could not be completed; treated below
                        print("check error: job aborted by a known finding")
                        return 2
                    nviol += 1
                    m = "execution %s\n%s" % (what, (rr.logtail or first.logtail))
                    if rr.viol:
                        m = rr.viol[0]["msg"]
                    report(pid, job, first.key, m, nviol)
                    reported = True
            if not confirmed:
                r2 = run_job(pid, job, tier, rundir, timeout=None)
                first.timeout = first.timeout or r2.timeout
                if r2.crashed or r2.timeout:
                    nviol += 1
                    report(pid, job, r2.key or "(whole job)", "execution %s\n%s" % (what, r2.logtail), nviol, only=False)
                    reported = True
                else:
                    r = r2
        newv = []
        for v in r.viol:
            if v["key"] in known:
                knownseen[v["key"]] = 1
            else:
                newv.append(v)
        if newv and not reported:
            v = newv[0]
            rr = run_job(pid, job, tier, rundir + "r", only=v["key"])
            ok = rr.crashed or rr.timeout or any(x["key"] == v["key"] for x in rr.viol)
            if ok:
                nviol += 1
                report(pid, job, v["key"], v["msg"] + " (%d failing cases in this job)" % len(newv), nviol)
            else:
                r2 = run_job(pid, job, tier, rundir)
                ks = {x["key"] for x in r2.viol}
                both = [x for x in newv if x["key"] in ks]
                if both or r2.crashed or r2.timeout:
                    nviol += 1
                    x = both[0] if both else v
                    report(pid, job, x["key"], x["msg"] + " (only in the context of the whole job)", nviol, only=False)
                else:
                    print("note: %s did not fail again in two re-runs, not reported" % v["key"])
        if r.ranks:
            a = {k: sum(x[k] for x in r.first) for k in tot}
            for k in tot:
                tot[k] += a[k]
            for rk in r.ranks:
                for k, n in rk["counters"].items():
                    counters[k] = counters.get(k, 0) + n
            samples += [y for x in r.first for y in x["samples"][:6]][:8]
            lay = job.get("stages") or [job]
            jnp = "/".join(str(x.get("np", job.get("np", 1)) or 1) for x in lay)
            jomp = "/".join(str(x.get("omp", job.get("omp", 1))) for x in lay)
            perjob.append({"job": job.get("name", job["bin"]), "ranks": jnp, "threads": jomp, "evaluations": a["evaluations"], "outcomes": a["outcomes"],
                           "wall_s": round(time.time() - tj, 1)})
            print("%s job %s np=%s omp=%s: %d executions, %d distinct outcomes, %.1fs" % (
                pid, job.get("name", job["bin"]), jnp, jomp, a["evaluations"],
                a["outcomes"], time.time() - tj))
            sys.stdout.flush()
        if not os.environ.get("VP_KEEP"):
            shutil.rmtree(rundir, ignore_errors=True)
            shutil.rmtree(rundir + "r", ignore_errors=True)
        if nviol >= maxviol or (nviol and tier == "quick" and (r.timeout or time.time() - t0 > 240)):
            break
    for k in sorted(knownseen):
        print("KNOWN-FINDING: property=%s %s [%s]" % (pid, known[k], k))
    cov = {"samples": samples[:24], "jobs": perjob, "counters": counters, "distinct_outcomes": tot["outcomes"],
           "exhaustive": True, "bound": spec["bound"]}
    if spec["level"] == "model_checking":
        cov.update(states=tot["states"], transitions=tot["transitions"], traces_validated_against_impl=tot["traces"],
                   executions=tot["evaluations"])
    else:
        cov.update(evaluations=tot["evaluations"], distinct_nontrivial=tot["cases"], rule=spec["rule"])
    if not nviol and (tot["evaluations"] == 0):
        print("check error: nothing was explored")
        return 2
    ev = {"property": pid, "tier": tier, "seed": seed, "level": spec["level"], "coverage": cov,
          "wall_s": round(time.time() - t0, 2), "violations": nviol, "assumptions": spec.get("assumptions", [])}
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(V, "evidence", pid + ".json"), "w"), indent=1)
    print("%s: %s in %.1fs" % (pid, "VIOLATED" if nviol else "held", time.time() - t0))
    return 1 if nviol else 0


if __name__ == "__main__":
    try:
        sys.exit(main())
    except SystemExit:
        raise
    except BaseException as e:  # never a code that could be read as a verdict
        import traceback
        traceback.print_exc()
        sys.exit(2)
