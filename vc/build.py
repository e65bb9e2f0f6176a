"""Building the exporter, exporting ASTs and compiling replay programs from /repo's current sources."""
import concurrent.futures
import glob
import hashlib
import json
import os
import threading
import re
import subprocess
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
CACHE = os.path.join(ROOT, ".cache")
SRC = REPO + "/source"
DM = SRC + "/data_model"
QA = SRC + "/quality_assurance"


def sh(cmd, **kw):
    return subprocess.run(cmd, capture_output=True, text=True, **kw)


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode())
        h.update(b"\0")
    return h.hexdigest()[:24]


def read(f):
    with open(f, "rb") as s:
        return s.read()


def exporter():
    src = os.path.join(ROOT, "tool/cppx.cpp")
    out = os.path.join(CACHE, "cppx-" + sha(read(src)))
    if not os.path.exists(out):
        os.makedirs(CACHE, exist_ok=True)
        tmp = "%s.%d" % (out, os.getpid() * 100000 + threading.get_ident() % 99991)
        r = sh(["bash", os.path.join(ROOT, "tool/build.sh"), tmp])
        if r.returncode:
            raise RuntimeError("exporter does not build: " + r.stderr[-2000:])
        os.rename(tmp, out)
    return out


def cmake_configure(text, defs):
    out = []
    for l in text.split("\n"):
        m = re.match(r"#cmakedefine01 (\w+)", l)
        if m:
            out.append("#define %s %d" % (m.group(1), 1 if defs.get(m.group(1)) else 0))
            continue
        m = re.match(r"#cmakedefine (\w+)", l)
        if m:
            out.append("#define %s" % m.group(1) if defs.get(m.group(1)) else "/* #undef %s */" % m.group(1))
            continue
        out.append(re.sub(r"\$\{(\w+)\}", lambda m: str(defs.get(m.group(1), "")), l))
    return "\n".join(out)


DEFS = {"HDF5_VERSION": "1.10.10", "GDAL_VERSION": "3.8.4", "LUE_VERSION": "0.3.11", "LUE_VERSION_MAJOR": 0,
        "LUE_VERSION_MINOR": 3, "LUE_VERSION_PATCH": 11, "LUE_VERSION_TWEAK": 0, "LUE_GIT_SHA1": "0" * 40,
        "LUE_GIT_SHORT_SHA1": "0" * 8,
        "LUE_BUILD_DATA_MODEL": 1, "LUE_DATA_MODEL_WITH_PYTHON_API": 1, "LUE_BUILD_QUALITY_ASSURANCE": 1,
        "LUE_QUALITY_ASSURANCE_WITH_PYTHON_API": 1, "LUE_QUALITY_ASSURANCE_WITH_TESTS": 1, "HDF5_IS_THREADSAFE": 1,
        "Python_VERSION": "3.12.3", "Python_VERSION_MAJOR": 3, "Python_VERSION_MINOR": 12, "Python_VERSION_PATCH": 3}


_gen = False
_gen_lock = threading.Lock()


def gen_headers():
    """Stand-ins for the headers CMake generates, made from the same templates"""
    global _gen
    out = os.path.join(CACHE, "gen")
    with _gen_lock:
        if not _gen:
            _gen_headers(out)
            _gen = True
    return out


def _gen_headers(out):

    def put(p, text):
        f = os.path.join(out, p)
        os.makedirs(os.path.dirname(f), exist_ok=True)
        if not os.path.exists(f) or open(f).read() != text:
            tmp = "%s.%d" % (f, os.getpid() * 100000 + threading.get_ident() % 99991)
            with open(tmp, "w") as s:
                s.write(text)
            os.rename(tmp, f)

    for p, m in (("lue/hdf5/export.hpp", "LUE_HDF5"), ("lue/data_model/export.hpp", "LUE_DATA_MODEL"),
                 ("lue/data_model/hl/export.hpp", "LUE_DATA_MODEL_HL"), ("lue/gdal/export.hpp", "LUE_GDAL")):
        put(p, "#pragma once\n#define %s_EXPORT __attribute__((visibility(\"default\")))\n"
               "#define %s_NO_EXPORT __attribute__((visibility(\"hidden\")))\n" % (m, m))
    for p, f in (("lue/configure.hpp", SRC + "/shared/include/lue/configure.hpp.in"),
                 ("lue/gdal/configure.hpp", DM + "/gdal/include/configure.hpp.in"),
                 ("lue/hdf5/configure.hpp", DM + "/hdf5/include/configure.hpp.in"),
                 ("src/hdf5_version.cpp", DM + "/hdf5/source/version.cpp.in"),
                 ("src/gdal_version.cpp", DM + "/gdal/source/version.cpp.in"),
                 ("src/version.cpp", SRC + "/shared/source/version.cpp.in"),
                 ("src/git.cpp", SRC + "/shared/source/git.cpp.in"),
                 ("lue/py/configure.hpp", SRC + "/python/include/lue/py/configure.hpp.in")):
        if os.path.exists(f):
            put(p, cmake_configure(open(f).read(), DEFS))
    return out


PYBIND = "/opt/lue-venv/lib/python3.12/site-packages/pybind11/include"
NUMPY = "/opt/lue-venv/lib/python3.12/site-packages/numpy"


def flags(python=False):
    g = gen_headers()
    f = ["-std=c++23", "-DH5_USE_110_API", "-I" + g]
    for m in ("hdf5", "cxx", "hl", "gdal", "python"):
        f.append("-I%s/%s/include" % (DM, m))
    f += ["-I%s/shared/include" % SRC, "-I%s/python/include" % SRC, "-I%s/cxx/include" % QA, "-I%s/python/include" % QA]
    f += ["-isystem", "/usr/include/hdf5/serial", "-isystem", "/usr/include/gdal"]
    if python:
        f += ["-isystem", PYBIND, "-isystem", "/usr/include/python3.12", "-I%s/python/source" % DM]
    return f


MODULES = {
    "hdf5": [DM + "/hdf5/source/**/*.cpp"],
    "cxx": [DM + "/cxx/source/**/*.cpp"],
    "hl": [DM + "/hl/source/**/*.cpp"],
    "gdal": [DM + "/gdal/source/**/*.cpp"],
    "qa": [QA + "/cxx/source/**/*.cpp"],
    "python": [DM + "/python/source/**/*.cpp"],
}


def module_files(m):
    out = []
    for p in MODULES[m]:
        out += glob.glob(p, recursive=True)
    out = [f for f in out if "/test/" not in f.split("/source/", 2)[-1] or m == "x"]
    return sorted(out)


def header_hash():
    fs = []
    for m in ("hdf5", "cxx", "hl", "gdal", "python"):
        fs += glob.glob("%s/%s/**/*.hpp" % (DM, m), recursive=True)
    fs += glob.glob(SRC + "/shared/include/**/*", recursive=True) + glob.glob(QA + "/cxx/**/*.hpp", recursive=True)
    fs += glob.glob(SRC + "/python/include/**/*", recursive=True)
    h = hashlib.sha256()
    for f in sorted(fs):
        if os.path.isfile(f):
            h.update(f.encode())
            h.update(read(f))
    return h.hexdigest()


def export(files):
    """AST files (JSON) of the given translation units"""
    x = exporter()
    hh = header_hash()
    d = os.path.join(CACHE, "ast")
    os.makedirs(d, exist_ok=True)

    def one(f):
        out = os.path.join(d, sha(f, read(f), hh, x) + "-" + os.path.basename(f) + ".json")
        if not os.path.exists(out):
            tmp = "%s.%d.tmp" % (out, os.getpid() * 100000 + threading.get_ident() % 99991)
            cmd = [x, SRC + "/:" + ROOT + "/specs/drv/", tmp, f, "--", "-w", "-resource-dir", "/usr/lib/llvm-18/lib/clang/18"] + (["-fno-access-control"] if f.startswith(ROOT) else []) + flags("/python/" in f)
            r = sh(cmd)
            if r.returncode or not os.path.exists(tmp):
                return f, None, r.stderr[-1500:]
            os.rename(tmp, out)
        return f, out, ""

    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        res = list(ex.map(one, files))
    bad = [(f, e) for f, o, e in res if o is None]
    return [o for _, o, _ in res if o], bad


LINK = {"hdf5": ["-lhdf5_serial"], "gdal": ["-lgdal"], "cxx": [], "hl": [], "qa": [], "python": []}


def compile_objs(files, cxxflags=(), python=False):
    hh = header_hash() + sha(read(os.path.join(ROOT, "replay/check.hpp")))
    d = os.path.join(CACHE, "obj")
    os.makedirs(d, exist_ok=True)

    def one(f):
        fl = ["-O0", "-g0", "-w", "-fPIC", "-fvisibility=hidden" if python else "-fPIC"] + list(cxxflags) + flags(python)
        out = os.path.join(d, sha(f, read(f), hh, " ".join(fl)) + ".o")
        if not os.path.exists(out):
            tmp = "%s.%d.o" % (out, os.getpid() * 100000 + threading.get_ident() % 99991)
            r = sh(["/usr/bin/g++"] + fl + ["-c", f, "-o", tmp])
            if r.returncode:
                return f, None, r.stderr[-3000:]
            os.rename(tmp, out)
        return f, out, ""

    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        res = list(ex.map(one, files))
    bad = [(f, e) for f, o, e in res if o is None]
    if bad:
        raise RuntimeError("compile failed: %s: %s" % bad[0])
    return [o for _, o, _ in res]


def native(modules, harness, cxxflags=(), extra_link=(), only=None):
    """Executable made of the repository's sources and a harness"""
    files = []
    for m in modules:
        files += [f for f in module_files(m) if only is None or os.path.basename(f) in only]
    if only is None:
        g = gen_headers()
        files += [os.path.join(g, "src", f) for f in ("version.cpp", "git.cpp")]
        files += [os.path.join(g, "src", m + "_version.cpp") for m in modules if m in ("hdf5", "gdal")]
    objs = compile_objs(files + [harness], list(cxxflags) + ["-I" + os.path.join(ROOT, "replay")])
    d = os.path.join(CACHE, "bin")
    os.makedirs(d, exist_ok=True)
    out = os.path.join(d, sha(*objs, *modules, *extra_link) + "-" + os.path.basename(harness)[:-4])
    if not os.path.exists(out):
        link = []
        for m in modules:
            link += LINK[m]
        tmp = "%s.%d" % (out, os.getpid() * 100000 + threading.get_ident() % 99991)
        r = sh(["/usr/bin/g++"] + list(cxxflags) + objs + ["-L/usr/lib/x86_64-linux-gnu/hdf5/serial",
               "-Wl,-rpath,/usr/lib/x86_64-linux-gnu/hdf5/serial", "-L/usr/lib/x86_64-linux-gnu"] + link +
               ["-lhdf5_serial", "-lpthread", "-ldl"] + list(extra_link) + ["-o", tmp])
        if r.returncode:
            raise RuntimeError("link failed: " + r.stderr[-3000:])
        os.rename(tmp, out)
    return out


def python_ext():
    """The lue data model Python extension, built from the current sources; returns its directory"""
    files = module_files("hdf5") + module_files("cxx") + module_files("hl")
    g = gen_headers()
    files += [os.path.join(g, "src", f) for f in ("version.cpp", "git.cpp", "hdf5_version.cpp")]
    objs = compile_objs(files)
    pyobjs = compile_objs([f for f in glob.glob(DM + "/python/source/**/*.cpp", recursive=True)
                           if "/test/" not in f[len(DM):]], python=True)
    d = os.path.join(CACHE, "pyext-" + sha(*(objs + pyobjs)))
    os.makedirs(d, exist_ok=True)
    return d, objs + pyobjs
