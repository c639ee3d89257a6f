"""Builds the Python binding of /repo's working tree, and the C++ reference it
is compared with, for the check of C21. Both get the same fixed rounding choice
(the rounding of a point is otherwise free to go either way)."""
import glob, hashlib, os, subprocess, sys

PY = "/opt/vp/venv/bin/python3"
PIN = "-DPOLY_OPS_VERIF_RAND_BOOL()=true"


def run(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if r.returncode:
        print("BUILD FAILED: " + " ".join(cmd))
        print(r.stdout[-6000:])
        raise SystemExit(2)
    return r.stdout


def key(verif, repo):
    h = hashlib.sha256()
    for base in (os.path.join(repo, "include"), os.path.join(repo, "py"), os.path.join(verif, "harness")):
        for d, ds, fs in sorted(os.walk(base)):
            ds.sort()
            for f in sorted(fs):
                if f.endswith(".pyc"):
                    continue
                p = os.path.join(d, f)
                h.update(p.encode())
                with open(p, "rb") as fh:
                    h.update(fh.read())
    return h.hexdigest()[:16]


def build(verif, repo, out, flags, tag):
    d = os.path.join(out, "py-%s-%s" % (tag, key(verif, repo)))
    cmd = [PY, "-B", os.path.join(verif, "harness", "pybind.py"), "--build", d]
    if os.path.exists(os.path.join(d, "done")):
        return cmd
    os.makedirs(os.path.join(d, "polyops"), exist_ok=True)
    inc = run([PY, "-c", "import sysconfig,numpy;print(sysconfig.get_paths()['include']);print(numpy.get_include());print(sysconfig.get_config_var('EXT_SUFFIX'))"]).split()
    cpp = os.path.join(d, "_polyops.cpp")
    run([PY, "-B", "-m", "cython", "--cplus", "-I" + os.path.join(repo, "py"), "-o", cpp, "--module-name", "polyops._polyops", os.path.join(repo, "py", "_polyops.pyx")])
    common = ["g++", "-std=c++20", "-w", "-fPIC", "-shared", "-fvisibility=hidden", PIN, "-I" + os.path.join(repo, "include")] + flags
    ext = common + ["-DNPY_NO_DEPRECATED_API", "-DNPY_1_7_API_VERSION", "-DCYTHON_USE_PYLONG_INTERNALS=0", "-DCYTHON_EXTERN_C=",
                    "-I" + inc[0], "-I" + inc[1], cpp, "-o", os.path.join(d, "polyops", "_polyops" + inc[2])]
    ref = common + [os.path.join(verif, "harness", "pyref.cpp"), "-o", os.path.join(d, "libpyref.so")]
    ps = [(c, subprocess.Popen(c, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)) for c in (ext, ref)]
    for c, p in ps:
        o, _ = p.communicate()
        if p.returncode:
            print("BUILD FAILED: " + " ".join(c))
            print(o[-6000:])
            raise SystemExit(2)
    for f in os.listdir(os.path.join(repo, "py")):
        if f.endswith(".py"):
            with open(os.path.join(repo, "py", f), "rb") as a, open(os.path.join(d, "polyops", f), "wb") as b:
                b.write(a.read())
    open(os.path.join(d, "done"), "w").close()
    return cmd


def plain(verif, repo, out):
    return build(verif, repo, out, ["-O1", "-DNDEBUG"], "plain")


def asserts(verif, repo, out):
    """internal checks and bounds checks of the standard library on; any that fails ends the process"""
    return build(verif, repo, out, ["-O1", "-D_GLIBCXX_ASSERTIONS", "-fsanitize=undefined", "-fsanitize-undefined-trap-on-error"], "checked")
