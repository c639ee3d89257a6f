#!/usr/bin/env python3
"""Driver: builds the harnesses of one property from /repo's working tree, runs
their shards, writes evidence/<id>.json and reports violations.

usage: run.py ID [--tier quick|thorough] [--setup] [--list]
"""
import concurrent.futures as cf
import hashlib, json, os, re, resource, subprocess, sys, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
sys.path.insert(0, VERIF)
from checks import CHECKS  # noqa: E402

NCPU = os.cpu_count() or 8
HARD_LIMIT = 800  # seconds: nothing runs longer than this in one check


def tree_hash():
    h = hashlib.sha256()
    for base in (os.path.join(REPO, "include"), os.path.join(VERIF, "harness")):
        for d, ds, fs in sorted(os.walk(base)):
            ds.sort()
            for f in sorted(fs):
                p = os.path.join(d, f)
                h.update(p.encode())
                with open(p, "rb") as fh:
                    h.update(fh.read())
    return h.hexdigest()[:16]


class Refused(Exception):
    """the harness builds with its control flags only: the code under test refuses what it must accept"""


def build(src, flags, cxx="g++", control=None):
    os.makedirs(BUILD, exist_ok=True)
    key = hashlib.sha256((tree_hash() + src + " ".join(flags) + cxx).encode()).hexdigest()[:12]
    exe = os.path.join(BUILD, src.replace(".cpp", "") + "-" + key)
    if os.path.exists(exe):
        return exe
    tmp = exe + ".tmp%d" % os.getpid()
    cmd = [cxx, "-std=c++20", "-w", "-O2", "-I", os.path.join(VERIF, "harness"), "-I", os.path.join(REPO, "include")] + flags + [
        os.path.join(VERIF, "harness", src), "-o", tmp]
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode and control:
        try:
            build(src, list(flags) + list(control), cxx)
        except SystemExit:
            pass
        else:
            raise Refused(json.dumps(dict(key="refused", case=" ".join(cmd), what="does not compile: " + "; ".join(l for l in r.stdout.splitlines() if "error" in l)[:2000], cmd=cmd)))
    if r.returncode:
        print("BUILD FAILED: " + " ".join(cmd))
        print(r.stdout[-6000:])
        raise SystemExit(2)
    os.replace(tmp, exe)
    return exe


def limits(asan):
    def f():
        os.setsid()
        if not asan:
            resource.setrlimit(resource.RLIMIT_AS, (3 << 30, 3 << 30))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    return f


def run_shard(exe, job, shard, nshards, tier, budget, deadline):
    asan = any("sanitize" in f for f in job.get("flags", []))
    env = dict(os.environ)
    env["ASAN_OPTIONS"] = "abort_on_error=1:detect_leaks=1:hard_rss_limit_mb=3000:handle_segv=0:handle_abort=0:handle_sigfpe=0"
    env["UBSAN_OPTIONS"] = "print_stacktrace=0:halt_on_error=1:abort_on_error=1"
    env["VERIF_REPO"] = REPO
    env["VERIF_BUILD"] = BUILD
    cmd = (exe if isinstance(exe, list) else [exe]) + ["--shard", str(shard), "--nshards", str(nshards), "--tier", tier, "--budget", "%.0f" % budget, "--part", job["part"]] + [str(a) for a in job.get("args", [])]
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", env=env, preexec_fn=limits(asan))
    killed = False
    try:
        out, err = p.communicate(timeout=max(1, deadline - time.time()))
    except subprocess.TimeoutExpired:
        killed = True
        try:
            os.killpg(p.pid, 9)
        except OSError:
            pass
        out, err = p.communicate()
    viol, res = [], None
    for line in out.splitlines():
        if line.startswith("V\t"):
            v = json.loads(line[2:])
            v["cmd"] = cmd
            viol.append(v)
        elif line.startswith("R\t"):
            res = json.loads(line[2:])
    return dict(job=job, viol=viol, res=res, rc=p.returncode, killed=killed, err=err, cmd=cmd)


def load_known(pid):
    known, path = [], os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"known: property=(\S+) key=(\S+) case=(\{.*?\}) :: (.*)$", line.strip())
            if m and m[1] == pid:
                known.append(dict(key=m[2], case=m[3][1:-1], what=m[4]))
    return known


def main():
    args = sys.argv[1:]
    if "--list" in args:
        print("\n".join(CHECKS))
        return 0
    if "--setup" in args:
        os.makedirs(BUILD, exist_ok=True)
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        r = subprocess.run(["g++", "--version"], stdout=subprocess.DEVNULL)
        return r.returncode
    pid = args[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in args:
        tier = args[args.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    chk = CHECKS[pid]
    t0 = time.time()
    jobs = [j for j in chk["jobs"] if tier in j.get("tiers", ("quick", "thorough"))]

    refused = None
    # build everything first, in parallel
    with cf.ThreadPoolExecutor(NCPU) as ex:
        futs, once = [], {}
        for j in jobs:
            if "prepare" in j:
                key, call = j["prepare"], (j["prepare"], VERIF, REPO, BUILD)
            else:
                call = (build, j["src"], j.get("flags", ["-DNDEBUG"]), j.get("cxx", "g++"), j.get("control"))
                key = repr(call[1:])
            if key not in once:
                once[key] = ex.submit(*call)
            futs.append(once[key])
        try:
            exes = [f.result() for f in futs]
        except SystemExit as e:
            return e.code
        except Refused as e:
            jobs, exes, refused = [], [], json.loads(str(e))
    tbuild = time.time() - t0
    budget = chk.get("budget", {}).get(tier, 300 if tier == "quick" else 600)
    deadline = t0 + HARD_LIMIT
    results = []
    with cf.ThreadPoolExecutor(NCPU) as ex:
        futs = []
        for j, exe in zip(jobs, exes):
            n = j.get("shards", NCPU)
            for s in range(n):
                futs.append(ex.submit(lambda j=j, exe=exe, s=s, n=n: run_shard(exe, j, s, n, tier, max(5, min(j.get("budget", 1e9), t0 + budget + tbuild - time.time())), deadline)))
        for f in futs:
            results.append(f.result())

    counters, maxima, samples, viol, truncated, errors = {}, {}, [], [], False, []
    perjob = {}
    for r in results:
        viol += [(r, v) for v in r["viol"]]
        name = r["job"].get("name", r["job"]["part"])
        pj = perjob.setdefault(name, {})
        if r["res"] is None:
            if r["killed"]:
                truncated = True
            elif not r["viol"]:
                # died without being able to report (sanitizer abort before the handler, memory limit)
                m = re.search(r"(ERROR: \w+Sanitizer[^\n]*|runtime error:[^\n]*|terminate called[^\n]*)", r["err"])
                if m:
                    viol.append((r, dict(key="died", case=" ".join(r["cmd"]), what=m[1], cmd=r["cmd"])))
                else:
                    errors.append((r["cmd"], r["rc"], r["err"][-800:]))
            continue
        truncated |= r["res"]["truncated"]
        for k, v in r["res"]["counters"].items():
            counters[k] = counters.get(k, 0) + v
            pj[k] = pj.get(k, 0) + v
        for k, v in r["res"]["maxima"].items():
            maxima[k] = max(maxima.get(k, 0), v)
        for s in r["res"]["samples"]:
            if len(samples) < 6:
                samples.append(s)

    if refused:
        viol.append((None, refused))
    known = load_known(pid)
    hit, fresh = set(), []
    for r, v in viol:
        for i, k in enumerate(known):
            if k["key"] == v["key"] and k["case"] == v["case"]:
                hit.add(i)
                break
        else:
            fresh.append((r, v))
    for i, k in enumerate(known):
        if i in hit:
            print("KNOWN-FINDING: property=%s %s (%s)" % (pid, k["what"], k["case"]))

    cov = dict(chk["coverage"](counters, maxima))
    cov["samples"] = samples or ["(none: every shard stopped before its first sample)"]
    cov["exhaustive"] = not truncated and not errors and not fresh
    cov["counters"] = counters
    if maxima:
        cov["maxima"] = maxima
    cov["parts"] = {k: {c: v for c, v in p.items()} for k, p in perjob.items()}
    ev = dict(property=pid, tier=tier, seed=seed, level=chk["level"], coverage=cov,
              assumptions=chk.get("assumptions", []), wall_s=round(time.time() - t0, 2), violations=len(fresh))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")

    print("%s %s: %s%s, %.1f s" % (pid, tier, ", ".join("%s=%s" % kv for kv in sorted(counters.items())), " (budget reached)" if truncated else "", time.time() - t0))
    if fresh:
        rd = os.path.join(BUILD, "replays")
        os.makedirs(rd, exist_ok=True)
        shown = {}
        for n, (r, v) in enumerate(fresh):
            if shown.get(v["key"], 0) >= 3:
                continue
            shown[v["key"]] = shown.get(v["key"], 0) + 1
            path = os.path.join(rd, "%s-%d.json" % (pid, n))
            with open(path, "w") as f:
                json.dump(v, f, indent=1)
            print("  %s: %s\n    %s" % (v["key"], v["case"][:600], v["what"][:900]))
            print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    if errors:
        for c, rc, e in errors[:3]:
            print("ERROR: shard ended with %s: %s\n%s" % (rc, " ".join(c), e))
        return 2
    return 0


if __name__ == "__main__":
    sys.exit(main())
