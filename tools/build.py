"""Builds the harness programs and the TLC override from the current trees.

Everything goes to /verif/build (ignored by git).  Objects are cached under a
hash of everything they depend on, so a rebuild happens exactly if /repo's
sources or the harness changed.
"""
import concurrent.futures as cf
import fcntl
import glob
import hashlib
import os
import shutil
import subprocess
import sys
import sysconfig

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("LPX_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
TLA_JAR = "/opt/veriftools/tla/tla2tools.jar"
COMM_JAR = "/opt/veriftools/tla/CommunityModules-deps.jar"
CLINGO = "/opt/clingo-venv/lib/python3.12/site-packages/clingo"
CLINGO_SO = os.path.join(CLINGO, "_clingo.cpython-312-x86_64-linux-gnu.so")

LIB_SRC = ["clingo-lpx.cc", "parsing.cc", "problem.cc", "solving.cc", "tableau.cc"]


class BuildError(Exception):
    pass


def sha(paths, extra=""):
    h = hashlib.sha256(extra.encode())
    for p in sorted(paths):
        h.update(p.encode())
        with open(p, "rb") as f:
            h.update(f.read())
    return h.hexdigest()[:24]


def sources():
    """The library sources of the repository (all translation units present)."""
    src = os.path.join(REPO, "libclingo-lpx", "src")
    return sorted(glob.glob(os.path.join(src, "*.cc")))


def headers():
    r = []
    for d in ("libclingo-lpx", "app"):
        for root, dirs, files in os.walk(os.path.join(REPO, d)):
            dirs[:] = [x for x in dirs if x != "tests"]
            r += [os.path.join(root, f) for f in files if f.endswith((".h", ".hh", ".hpp"))]
    return r


def run(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if p.returncode != 0:
        raise BuildError("command failed: %s\n%s" % (" ".join(cmd), p.stdout[-4000:]))
    return p.stdout


FLAGS = ["-std=c++17", "-O1", "-g0", "-DCLINGOLPX_USE_FLINT", "-DCLINGOLPX_NO_VISIBILITY", "-DCLINGO_NO_VISIBILITY_"]


def _compile(src, flags, deps):
    key = sha([src] + deps, " ".join(flags))
    obj = os.path.join(BUILD, "obj", os.path.basename(src) + "." + key + ".o")
    if not os.path.exists(obj):
        tmp = obj + ".%d.tmp" % os.getpid()
        run(["g++"] + flags + ["-c", src, "-o", tmp])
        os.rename(tmp, obj)
    return obj


# program -> (harness sources, includes the library, links real clingo C API)
PROGRAMS = {
    "lpx_host": ["host.cc", "pivots.cc"],
    "lpx_solve": ["solve.cc", "interpose.cc", "pivots.cc"],
    "lpx_tab": ["tab.cc"],
    "lpx_num": ["num.cc"],
    "lpx_conc": ["host.cc", "pivots.cc"],
}
# the concurrent host runs under the thread sanitizer
EXTRA = {"lpx_conc": ["-fsanitize=thread"]}


class HarnessError(BuildError):
    """The harness itself does not compile against the sources."""


def program(name):
    """Path of an up-to-date harness program."""
    os.makedirs(os.path.join(BUILD, "obj"), exist_ok=True)
    inc = ["-I" + CLINGO, "-I" + os.path.join(REPO, "libclingo-lpx"),
           "-I" + os.path.join(REPO, "libclingo-lpx", "src"), "-I" + os.path.join(VERIF, "harness")]
    flags = FLAGS + EXTRA.get(name, []) + inc
    hdr = headers()
    hh = glob.glob(os.path.join(VERIF, "harness", "*.hh"))
    with open(os.path.join(BUILD, ".lock." + name), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        lib = [(s, hdr) for s in sources()]
        own = [(os.path.join(VERIF, "harness", s), hdr + hh) for s in PROGRAMS[name]]
        with cf.ThreadPoolExecutor(8) as ex:
            fo = [ex.submit(_compile, s, flags, d) for s, d in own]
            objs = list(ex.map(lambda j: _compile(j[0], flags, j[1]), lib))
            try:
                objs += [f.result() for f in fo]
            except BuildError as e:
                raise HarnessError(str(e))
        exe = os.path.join(BUILD, name + "." + sha(objs, CLINGO_SO))
        if not os.path.exists(exe):
            tmp = exe + ".%d.tmp" % os.getpid()
            run(["g++", "-rdynamic", "-o", tmp] + objs + [CLINGO_SO, "-Wl,-rpath," + CLINGO, "-lflint", "-lgmp",
                                             "-lpython3.12", "-ldl", "-lpthread"] + EXTRA.get(name, []) +
                (["-Wl,--wrap=_ZN7Tableau5pivotEjjR7IntegerS1_"] if "pivots.cc" in PROGRAMS[name] else []))
            os.rename(tmp, exe)
    return exe


def overrides():
    """Compile the TLC override classes; returns the class path."""
    src = os.path.join(VERIF, "java", "lpx", "Overrides.java")
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, ".lock.java"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        out = os.path.join(BUILD, "classes." + sha([src]))
        if not os.path.exists(out):
            tmp = out + ".tmp%d" % os.getpid()
            os.makedirs(tmp, exist_ok=True)
            run(["javac", "-nowarn", "-cp", TLA_JAR, "-d", tmp, src])
            os.rename(tmp, out)
    return ":".join([out, TLA_JAR, COMM_JAR])


def app():
    """Path of an up-to-date command line application."""
    os.makedirs(os.path.join(BUILD, "obj"), exist_ok=True)
    d = os.path.join(REPO, "app")
    src = []
    for root, dirs, files in os.walk(d):
        dirs[:] = [x for x in dirs if x != "tests"]
        src += [os.path.join(root, f) for f in files if f.endswith(".cc")]
    flags = FLAGS + ["-I" + CLINGO, "-I" + os.path.join(REPO, "libclingo-lpx"),
                     "-I" + os.path.join(REPO, "libclingo-lpx", "src"), "-I" + os.path.join(d, "lib"), "-I" + d]
    hdr = headers()
    with open(os.path.join(BUILD, ".lock.app"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        with cf.ThreadPoolExecutor(8) as ex:
            objs = list(ex.map(lambda f: _compile(f, flags, hdr), sorted(src) + sources()))
        exe = os.path.join(BUILD, "app." + sha(objs, CLINGO_SO))
        if not os.path.exists(exe):
            tmp = exe + ".%d.tmp" % os.getpid()
            run(["g++", "-o", tmp] + objs + [CLINGO_SO, "-Wl,-rpath," + CLINGO, "-lflint", "-lgmp", "-lpython3.12", "-ldl", "-lpthread"])
            os.rename(tmp, exe)
    return exe


PYTHON = "/opt/clingo-venv/bin/python"


def pypackage():
    """A directory with an up-to-date Python package."""
    os.makedirs(os.path.join(BUILD, "obj"), exist_ok=True)
    d = os.path.join(REPO, "libpyclingo-lpx")
    ext = sysconfig.get_config_var("EXT_SUFFIX")
    inc = ["-I" + CLINGO, "-I" + os.path.join(REPO, "libclingo-lpx"), "-I" + os.path.join(REPO, "libclingo-lpx", "src"),
           "-I" + sysconfig.get_paths()["include"]]
    flags = FLAGS + ["-fPIC"] + inc
    cflags = ["-x", "c", "-O1", "-fPIC", "-w", "-D_CFFI_NO_LIMITED_API", "-DCLINGOLPX_NO_VISIBILITY"] + inc
    hdr = headers()
    with open(os.path.join(BUILD, ".lock.py"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        with cf.ThreadPoolExecutor(8) as ex:
            objs = list(ex.map(lambda f: _compile(f, flags, hdr), sources()))
        objs.append(_compile(os.path.join(d, "_clingolpx.c"), cflags, hdr))
        py = sorted(glob.glob(os.path.join(d, "clingolpx", "*.py")))
        out = os.path.join(BUILD, "py." + sha(objs + py, CLINGO_SO + ext))
        if not os.path.exists(out):
            tmp = out + ".%d.tmp" % os.getpid()
            os.makedirs(os.path.join(tmp, "clingolpx"))
            run(["g++", "-shared", "-o", os.path.join(tmp, "clingolpx", "_clingolpx" + ext)] + objs +
                [CLINGO_SO, "-Wl,-rpath," + CLINGO, "-lflint", "-lgmp"])
            for f in py:
                shutil.copy(f, os.path.join(tmp, "clingolpx"))
            os.rename(tmp, out)
    return out


if __name__ == "__main__":
    overrides()
    for n in sys.argv[1:] or ["lpx_host"]:
        print(app() if n == "app" else pypackage() if n == "py" else program(n))
