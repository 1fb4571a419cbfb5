#!/usr/bin/env python3
"""Driver of all checks:  run.py <property> [quick|thorough]   (environment: VERIF_SEED, VERIF_TIER)

Builds the harnesses a property needs from /repo's current working tree, runs their workloads in parallel worker
processes, collects what the monitors reported and decides.
exit 0: held on everything explored   exit 1: VIOLATION line(s)   exit 2: the check itself failed
"""
import hashlib, json, os, re, shutil, signal, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "checks"))
from spec import BUILDS, CHECKS  # noqa: E402

REPO = os.environ.get("VP_REPO", "/repo")
INC = os.path.join(REPO, "src", "include")
HARN = os.path.join(ROOT, "harness")
BUILD = os.path.join(ROOT, "build")
CPUS = max(2, min(8, os.cpu_count() or 8))


def digest(flags):
    h = hashlib.sha256()
    h.update(" ".join(flags).encode())
    for d in (INC, HARN):
        for n in sorted(os.listdir(d)):
            p = os.path.join(d, n)
            if os.path.isfile(p):
                h.update(n.encode())
                h.update(open(p, "rb").read())
    return h.hexdigest()[:20]


def build(name):
    b = BUILDS[name]
    cmd = [b.get("cxx", "g++"), "-std=c++14", "-g", "-w", "-I", HARN, "-I", INC] + b["flags"] + \
        [os.path.join(HARN, f) for f in [b["src"]] + b.get("more", [])] + ["-ldl", "-pthread", "-rdynamic"]
    out = os.path.join(BUILD, "%s-%s" % (name, digest(cmd)))
    if os.path.exists(out):
        return out
    os.makedirs(BUILD, exist_ok=True)
    tmp = "%s.%d" % (out, os.getpid())
    r = subprocess.run(cmd + ["-o", tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    if r.returncode != 0:
        raise RuntimeError("build of %s failed:\n%s" % (name, r.stdout[-4000:]))
    os.replace(tmp, out)
    return out


def unesc(s):
    return re.sub(r"\\(n|r|t|\\|x[0-9a-f]{2})", lambda m: {"n": "\n", "r": "\r", "t": "\t", "\\": "\\"}.get(m.group(1)) or chr(int(m.group(1)[1:], 16)), s)


class Run:
    def __init__(self):
        self.v, self.notes, self.counters, self.distinct, self.samples = [], [], {}, set(), []
        self.cases = 0
        self.errors = []


def env_for(extra):
    e = dict(os.environ)
    for k in ("TZ", "LD_PRELOAD", "MALLOC_PERTURB_"):
        e.pop(k, None)
    e["LC_ALL"] = "C"
    e["ASAN_OPTIONS"] = "detect_leaks=0:exitcode=77:allocator_may_return_null=1:handle_abort=1:detect_stack_use_after_return=1:strict_string_checks=0"
    e["UBSAN_OPTIONS"] = "print_stacktrace=1:exitcode=78"
    e["TSAN_OPTIONS"] = "exitcode=66:history_size=4:second_deadlock_stack=1:detect_deadlocks=0:suppressions=" + os.path.join(HARN, "tsan.supp")
    e.update(extra or {})
    return e


def summary(err):
    """a stable one-line description of a crash from the worker's stderr"""
    for pat in (r"SUMMARY: (.*)", r"(runtime error: .*)", r"(terminate called.*)"):
        m = re.search(pat, err)
        if m:
            s = m.group(1)
            s = re.sub(r"0x[0-9a-f]+", "0x..", s)
            s = re.sub(r"/\S*/", "", s)
            return s[:200]
    return ""


def worker(exe, job, mode, seed, first, cases, budget, stall, single=False):
    """runs one worker process; returns (rc, result text, stderr text, hung)"""
    base = "/dev/shm" if os.access("/dev/shm", os.W_OK) and shutil.disk_usage("/dev/shm").free > (1 << 30) else None
    d = tempfile.mkdtemp(prefix="vp_", dir=base)
    try:
        os.chmod(d, 0o755)
        scratch = os.path.join(d, "scratch")
        os.mkdir(scratch)
        outp, errp = os.path.join(d, "out"), os.path.join(d, "err")
        cmd = [exe, "--out=" + outp, "--scratch=" + scratch, "--mode=" + mode, "--seed=%d" % seed, "--first=%d" % first,
               "--cases=%d" % cases, "--budget=%d" % budget] + ["--%s=%s" % kv for kv in job.get("args", {}).items()]
        if single:
            cmd.append("--single")
        hung = False
        with open(errp, "wb") as ef:
            p = subprocess.Popen(cmd, cwd=scratch, stdin=subprocess.DEVNULL, stdout=ef, stderr=ef, env=env_for(job.get("env")), start_new_session=True)
            last, idle, t_prev = -1, 0.0, time.time()
            while True:
                try:
                    p.wait(0.2 if idle > 1 else 0.05)
                    break
                except subprocess.TimeoutExpired:
                    pass
                try:
                    sz = os.path.getsize(outp)
                except OSError:
                    sz = 0
                now = time.time()
                idle += min(1.0, max(0.0, now - t_prev))  # a machine that was suspended does not count as a stall
                t_prev = now
                if sz != last:
                    last, idle = sz, 0.0
                elif idle > stall:
                    hung = True
                    break
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except OSError:
                pass
            p.wait()
        try:
            out = open(outp, errors="replace").read()
        except OSError:
            out = ""
        return p.returncode, out, open(errp, errors="replace").read()[-20000:], hung
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    spec = CHECKS[pid]
    t0 = time.time()
    names = sorted({j["build"] for j in spec["jobs"] if tier in j})
    with ThreadPoolExecutor(CPUS) as ex:
        exes = dict(zip(names, ex.map(build, names)))
    t_build = time.time() - t0

    run = Run()
    tasks = []
    for n, j in enumerate(spec["jobs"]):
        if tier not in j:
            continue
        procs, cases, budget = j[tier]
        for k in range(n * 40, n * 40 + procs):
            tasks.append((j, k, cases, budget))
    # long ones first
    tasks.sort(key=lambda t: -t[3])

    def one(t):
        j, k, cases, budget = t
        s = seed * 1000 + k
        first = 0 if not j.get("partition") else (k % 40) * cases
        stall = j.get("stall", 90)
        exe = exes[j["build"]]
        rc, out, err, hung = worker(exe, j, j["mode"], s, first, cases, budget, stall)
        again = None
        if hung:
            m = re.findall(r"^C\t(\d+)", out, re.M)
            c = int(m[-1]) if m else first
            for _ in range(3 if j.get("real_threads") else 1):
                again = worker(exe, j, j["mode"], s, c, 1, budget, stall, single=True)
                if again[3] or again[0] not in (0, 42):
                    break
        return j, k, s, rc, out, err, hung, again

    wanted = spec.get("kinds")
    stalls = []
    with ThreadPoolExecutor(CPUS) as ex:
        for j, k, s, rc, out, err, hung, again in ex.map(one, tasks):
            case = -1
            ok = False
            got_v = False
            for line in out.split("\n"):
                f = line.split("\t")
                if f[0] == "C" and len(f) > 1:
                    case = int(f[1])
                    run.cases += 1
                elif f[0] == "V" and len(f) >= 5:
                    got_v = True
                    run.v.append(dict(kind=f[1], key=unesc(f[2]), case=int(f[3]), detail=unesc(f[4]), job=j, seed=s))
                elif f[0] == "I":
                    run.notes.append(line)
                elif f[0] == "N" and len(f) >= 3:
                    n = int(f[2])
                    if f[1].startswith("max:"):
                        run.counters[f[1]] = max(run.counters.get(f[1], 0), n)
                    else:
                        run.counters[f[1]] = run.counters.get(f[1], 0) + n
                elif f[0] == "D" and len(f) > 1:
                    run.distinct.add(hash((j["build"].split("_")[0], j["mode"], f[1])))
                elif f[0] == "M" and len(run.samples) < 400:
                    run.samples.append({"workload": j["build"] + "/" + j["mode"], "seed": s, "case": case, "what": unesc(f[1])})
                elif f[0] == "OK":
                    ok = True
            if hung:
                rc2, out2, err2, hung2 = again
                if hung2:
                    run.v.append(dict(kind="hang", key="hang:" + j["mode"], case=case, detail="no progress for %d s, twice, in this case" % j.get("stall", 90), job=j, seed=s))
                else:
                    run.notes.append("worker %s/%s seed %d case %d stalled once, not reproduced" % (j["build"], j["mode"], s, case))
                    stalls.append((case, j, s))
            elif rc == -signal.SIGKILL:
                # nothing in the code under test sends it: the machine ran out of memory
                run.notes.append("worker %s/%s seed %d case %d was killed from outside" % (j["build"], j["mode"], s, case))
            elif rc == 3 or (not ok and rc == 0):
                run.errors.append("worker %s/%s rc=%s: %s" % (j["build"], j["mode"], rc, err[-500:]))
            elif not ok or (rc not in (0, 42)):
                what = summary(err)
                kind = "race" if "data race" in what or "ThreadSanitizer" in what else "memory" if ("Sanitizer" in what or "runtime error" in what) else "crash"
                sig = "signal %d" % -rc if rc and rc < 0 else "exit code %s" % rc
                run.v.append(dict(kind=kind, key=kind + ":" + (what or sig), case=case, detail=sig + " " + what + "\n" + err[:6000], job=j, seed=s))
            elif "WARNING: ThreadSanitizer" in err or "runtime error:" in err:
                what = summary(err)
                run.v.append(dict(kind="race" if "ThreadSanitizer" in err else "memory", key="san:" + what, case=case, detail=err[:6000], job=j, seed=s))

    if len(stalls) > 1:
        case, j, s = stalls[0]
        run.v.append(dict(kind="hang", key="hang:" + j["mode"], case=case, detail="%d workers made no progress for %d s in different cases" % (len(stalls), j.get("stall", 90)), job=j, seed=s))

    # ---- decide ----
    known = []
    kf = os.path.join(ROOT, "known_findings.txt")
    if os.path.exists(kf):
        for l in open(kf):
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", l)
            if m and m.group(1) == pid:
                known.append((m.group(2), m.group(3).strip()))
    always = {"hang", "crash", "memory", "deadlock", "livelock", "use_after_close", "race", "escape"}
    viol, other, seen_known = [], {}, {}
    for v in run.v:
        if wanted is not None and v["kind"] not in wanted and v["kind"] not in always:
            other[v["kind"]] = other.get(v["kind"], 0) + 1
            if len(run.notes) < 20:
                run.notes.append("of another property: %s" % {k: str(v[k])[:1500] for k in v})
            continue
        hit = [k for k in known if k[0] == v["key"]]
        if hit:
            seen_known[hit[0]] = seen_known.get(hit[0], 0) + 1
            continue
        viol.append(v)

    minimum = spec.get("floor", {}).get(tier, spec.get("floor", {}).get("quick", {}))
    if not viol:
        for k, n in minimum.items():
            if run.counters.get(k, 0) < n:
                run.errors.append("the monitors observed too little: %s = %d < %d" % (k, run.counters.get(k, 0), n))

    # samples: a few per workload
    per, samples = {}, []
    for s_ in run.samples:
        w = s_["workload"]
        per[w] = per.get(w, 0) + 1
        if per[w] <= 2:
            samples.append(s_)
    rdir = os.path.join(ROOT, "replays")
    lines = []
    if viol:
        os.makedirs(rdir, exist_ok=True)
        shown = {}
        for v in viol:
            key = (v["kind"], v["key"])
            shown[key] = shown.get(key, 0) + 1
            if shown[key] > 1 or len(shown) > 8:
                continue
            path = os.path.join(rdir, "%s-%s-%d.json" % (pid, tier, len(shown)))
            j = v["job"]
            json.dump({"property": pid, "kind": v["kind"], "key": v["key"], "detail": v["detail"], "build": j["build"], "mode": j["mode"], "seed": v["seed"], "case": v["case"],
                       "args": j.get("args", {}),
                       "replay": "python3 %s %s" % (os.path.join(ROOT, "checks", "replay.py"), path)}, open(path, "w"), indent=1)
            lines.append((v, path))
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": spec.get("level", "exploration"),
        "coverage": {
            "evaluations": run.cases,
            "distinct_nontrivial": len(run.distinct),
            "rule": spec["rule"],
            "samples": samples or ["(no sample recorded)"],
            "observed": dict(sorted(run.counters.items())),
            "workloads": [{"build": j["build"], "mode": j["mode"], "workers_cases_budget_s": j[tier]} for j in spec["jobs"] if tier in j],
            "notes": run.notes[:20],
            "violations_of_other_properties_seen": other,
        },
        "assumptions": spec.get("assumptions", []),
        "wall_s": round(time.time() - t0, 2),
        "build_s": round(t_build, 2),
        "violations": len(viol),
    }
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(ROOT, "evidence", pid + ".json"), "w"), indent=1)

    for k, n in seen_known.items():
        print("KNOWN-FINDING: property=%s %s (%d times)" % (pid, k[1], n))
    for v, path in lines:
        print("VIOLATION property=%s replay=%s" % (pid, path))
        print("   [%s/%s seed %d case %d] %s: %s" % (v["job"]["build"], v["job"]["mode"], v["seed"], v["case"], v["kind"], v["detail"][:700].replace("\n", "\n      ")))
    if viol:
        return 1
    if run.errors:
        print("CHECK ERROR " + pid)
        for e in run.errors[:10]:
            print("  " + e)
        return 2
    print("ok %s %s: %d cases, %d distinct, %.1f s (build %.1f s)%s" % (pid, tier, run.cases, len(run.distinct), time.time() - t0, t_build, (" other: %s" % other) if other else ""))
    return 0


if __name__ == "__main__":
    try:
        sys.exit(main())
    except (RuntimeError, KeyError, OSError) as e:
        print("CHECK ERROR: %s" % e)
        sys.exit(2)
