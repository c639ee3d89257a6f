#!/usr/bin/env python3
"""Development tool: tries candidate changes. For each candidate: private mount
namespace with a copy of /repo bound over /repo, apply, build and run the stable
tests, then the named checks (with VERIF_BUILD elsewhere). Usage:
  mutants.py CANDS.py [-j N] [name...]
CANDS.py defines CANDS = {name: (checks, file, old, new[, seed])}; seed, a dict with
prop, needs, breaks, demo (C++ text) or files ({name: text}, with a demo.sh), makes the
candidate a planted bug: if the tests pass and the demonstration passes without and
fails with the change, it is kept under seeded/NAME. (file, old, new) may be a list
of triples instead: (checks, [(file, old, new)...], seed)."""
import concurrent.futures as cf, json, os, runpy, shutil, subprocess, sys, time
args = sys.argv[1:]
C = runpy.run_path(args[0])["CANDS"]
j = 2
names = []
i = 1
skip_tests = False
while i < len(args):
    if args[i] == "-j":
        j = int(args[i + 1]); i += 1
    elif args[i] == "--no-tests":
        skip_tests = True
    else:
        names.append(args[i])
    i += 1
names = names or list(C)


PRE = """// Demonstration: exits 0 when the library behaves as stated, 1 when it does not.
#include <poly_ops/poly_ops.hpp>
#include <poly_ops/offset.hpp>
#include <cstdio>
#include <cstdlib>
#include <vector>
using namespace poly_ops;
using P = point_t<int>;
using Loop = std::vector<P>;
using Loops = std::vector<Loop>;
#define CHECK(x) do { if(!(x)) { std::printf("line %d: %s does not hold\\n", __LINE__, #x); std::exit(1); } } while(0)
template<typename R> Loops loops(R &&r) {
    Loops o;
    for(auto &&l : r) { o.emplace_back(); for(auto &&p : l) o.back().push_back({p.x(), p.y()}); }
    return o;
}
// even-handed ray casting: winding number of a point that is on no line
inline int winding(const Loops &ls, double x, double y) {
    int w = 0;
    for(auto &l : ls)
        for(std::size_t i = 0; i < l.size(); ++i) {
            P a = l[i], b = l[(i + 1) % l.size()];
            if((a.y() <= y) == (b.y() <= y)) continue;
            double t = (y - a.y()) / (double(b.y()) - a.y());
            if(a.x() + t * (double(b.x()) - a.x()) > x) w += b.y() > a.y() ? 1 : -1;
        }
    return w;
}
"""
DEMO = """#!/bin/sh
# run in the root of the repository
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
g++ -std=c++20 -w @FLAGS@ -I include "$here/demo.cpp" -o "$t/demo" || exit 2
timeout 60 "$t/demo"
"""


def one(n):
    c = C[n]
    checks = c[0]
    edits = c[1] if isinstance(c[1], list) else [c[1:4]]
    seed = c[-1] if isinstance(c[-1], dict) else None
    d = "/tmp/mut/" + n
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs("/tmp/mut", exist_ok=True)
    subprocess.run(["cp", "-a", "/repo", d], check=True)
    try:
        for f, old, new in edits:
            p = os.path.join(d, f)
            s = open(p).read()
            if s.count(old) != 1:
                return n, "OLD TEXT FOUND %d TIMES: %s" % (s.count(old), old[:40]), ""
            open(p, "w").write(s.replace(old, new))
        subprocess.run("git diff > /tmp/mut/%s.diff" % n, shell=True, cwd=d)
        t = "skipped"
        if not skip_tests:
            r = subprocess.run(["unshare", "-m", "sh", "-c", "mount --bind %s /repo && bash /opt/vp/test.sh /tmp/mut/%s.json > /tmp/mut/%s.log 2>&1" % (d, n, n)])
            x = json.load(open("/tmp/mut/%s.json" % n))
            base = json.load(open("/opt/vp/BASELINE.json"))
            base = base.get("stable", base.get("passed", [])) if isinstance(base, dict) else base
            missing = [b for b in base if b not in x["passed"]]
            t = "tests ok" if not missing else "TESTS FAIL (%d: %s)" % (len(missing), ",".join(missing[:3]))
            if missing:
                return n, t, ""
        if seed:
            sd = "/tmp/mut/%s.seed" % n
            shutil.rmtree(sd, ignore_errors=True)
            os.makedirs(sd)
            files = dict(seed.get("files", {}))
            if "demo" in seed:
                files["demo.cpp"] = PRE + seed["demo"]
                files["demo.sh"] = DEMO.replace("@FLAGS@", seed.get("flags", "-O1"))
            for k, v in files.items():
                open(os.path.join(sd, k), "w").write(v)
            shutil.copy("/tmp/mut/%s.diff" % n, sd + "/patch.diff")
            json.dump(dict(property=seed["prop"], needs=seed["needs"], what_it_breaks=seed["breaks"]), open(sd + "/meta.json", "w"), indent=1)
            a = subprocess.run("cd /repo && timeout 300 bash %s/demo.sh" % sd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            b = subprocess.run(["unshare", "-m", "sh", "-c", "mount --bind %s /repo && cd /repo && timeout 300 bash %s/demo.sh" % (d, sd)], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            t += " demo %d/%d" % (a.returncode, b.returncode)
            if a.returncode or not b.returncode:
                return n, t, "DEMO BAD: " + (a.stdout if a.returncode else b.stdout)[-600:]
            if t.startswith("tests ok"):
                shutil.rmtree("/verif/seeded/" + n, ignore_errors=True)
                shutil.copytree(sd, "/verif/seeded/" + n)
        out = []
        for c in checks:
            env = dict(os.environ, VERIF_BUILD="/tmp/mut/%s.build" % n)
            r = subprocess.run(["unshare", "-m", "sh", "-c", "mount --bind %s /repo && mkdir -p /tmp/mut/%s.ev && mount --bind /tmp/mut/%s.ev /verif/evidence && exec python3 run.py %s --tier quick" % (d, n, n, c)], cwd="/verif", env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            open("/tmp/mut/%s.%s.out" % (n, c), "w").write(r.stdout)
            keys = sorted(set(l.strip().split(":")[0] for l in r.stdout.splitlines() if l.startswith("  ") and not l.startswith("    ")))
            out.append("%s=%s%s" % (c, {0: "missed", 1: "CAUGHT"}.get(r.returncode, "ERR%d" % r.returncode), keys if keys else ""))
        return n, t, " ".join(out)
    finally:
        shutil.rmtree(d, ignore_errors=True)
        shutil.rmtree("/tmp/mut/%s.build" % n, ignore_errors=True)


with cf.ThreadPoolExecutor(j) as ex:
    for f in cf.as_completed([ex.submit(one, n) for n in names]):
        print("%-22s %-30s %s" % f.result(), flush=True)
