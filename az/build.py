"""Compile /repo's sources to LLVM IR, link, export. Everything is keyed by content, kept in /verif/.cache."""
import concurrent.futures as cf
import glob
import hashlib
import json
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("AZ_REPO", "/repo")
CACHE = os.path.join(HERE, ".cache")
FLAGS = ["-std=c++20", "-D_GLIBCXX_ALWAYS_INLINE=inline", "-include", "string", "-DACQUIRE_ZARR_API_VERSION=\"0.0.1\"", "-O0",
         "-Xclang", "-disable-O0-optnone", "-g", "-flto", "-fwhole-program-vtables", "-fvisibility=hidden", "-w"]


class BuildError(Exception):
    pass


def run(cmd, **kw):
    p = subprocess.run(cmd, capture_output=True, text=True, **kw)
    if p.returncode:
        raise BuildError("%s\n%s" % (" ".join(cmd)[:600], p.stderr[-3000:]))
    return p.stdout


def sha(paths, extra=""):
    h = hashlib.sha256(extra.encode())
    for p in paths:
        h.update(p.encode())
        h.update(open(p, "rb").read())
    return h.hexdigest()[:20]


def azx():
    src = os.path.join(HERE, "azx", "azx.cpp")
    os.makedirs(CACHE, exist_ok=True)
    out = os.path.join(CACHE, "azx-" + sha([src]))
    if os.path.exists(out):
        return out
    fl = run(["llvm-config-18", "--cxxflags"]).split()
    fl = [f for f in fl if not f.startswith("-std=") and f != "-fno-exceptions"]
    ld = run(["llvm-config-18", "--ldflags"]).split()
    tmp = out + ".%d" % os.getpid()
    run(["g++", "-std=c++17", "-O1", "-fno-rtti", src, "-o", tmp] + fl + ld + ["-lLLVM-18"])
    os.rename(tmp, out)
    return out


def sources(py=False):
    if py:
        return sorted(glob.glob(REPO + "/python/*.cpp"))
    return sorted(glob.glob(REPO + "/src/streaming/*.cpp") + glob.glob(REPO + "/src/logger/*.cpp"))


def inputs(py=False):
    r = []
    for d in ("python", "include") if py else ("src", "include"):
        for root, _, fs in os.walk(os.path.join(REPO, d)):
            r += [os.path.join(root, f) for f in fs if f.endswith((".h", ".hh", ".hpp", ".cpp", ".c", ".cc"))]
    return sorted(r)


def incs(py=False):
    if py:
        return ["-I", REPO + "/include", "-I", REPO + "/python", "-I", os.path.join(HERE, "stubs", "py")]
    return ["-I", REPO + "/include", "-I", REPO + "/src/logger", "-I", REPO + "/src/streaming",
            "-I", os.path.join(HERE, "stubs", "decl")]


def program(py=False):
    """-> path of the exported JSON for the current tree: the library, or the Python module on its own"""
    stubs = sorted(glob.glob(os.path.join(HERE, "stubs", "py", "pybind11", "*.h")) if py else
                   glob.glob(os.path.join(HERE, "stubs", "decl", "miniocpp", "*.h")))
    key = sha(inputs(py) + stubs + [os.path.join(HERE, "azx", "azx.cpp")], " ".join(FLAGS) + REPO)
    os.makedirs(CACHE, exist_ok=True)
    name = "pyprog" if py else "prog"
    out = os.path.join(CACHE, "%s-%s.json" % (name, key))
    if os.path.exists(out):
        return out
    srcs = sources(py)
    if not srcs:
        raise BuildError("no sources under " + REPO)
    tmp = tempfile.mkdtemp(prefix="azb-")
    try:
        with cf.ThreadPoolExecutor(9) as ex:
            fa = ex.submit(azx)
            js = []
            for s in srcs:
                o = os.path.join(tmp, os.path.basename(s) + ".bc")
                js.append((o, ex.submit(run, ["clang++"] + FLAGS + incs(py) + ["-c", "-emit-llvm", s, "-o", o])))
            for o, j in js:
                j.result()
            exe = fa.result()
        allbc = os.path.join(tmp, "all.bc")
        run(["llvm-link-18"] + [o for o, _ in js] + ["-o", allbc])
        t = out + ".%d" % os.getpid()
        run([exe, allbc, t, REPO + "/"])
        os.rename(t, out)
        progs = sorted(glob.glob(os.path.join(CACHE, name + "-*.json")), key=os.path.getmtime)
        for p in progs[:-12]:
            os.remove(p)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return out


if __name__ == "__main__":
    print(program())
