"""Builds the exporter, compiles driver translation units against the current
sources of the analysed repository and loads their normalised form."""
import hashlib
import json
import os
import shutil
import subprocess
import sys
import tempfile
import threading

from .ir import AnalysisError, Module

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VP_REPO", "/repo")
CLANG = shutil.which("clang++-18") or shutil.which("clang++")

_lock = threading.Lock()
_tmp = None


def tmpdir():
    global _tmp
    with _lock:
        if _tmp is None:
            _tmp = tempfile.TemporaryDirectory(prefix="vpsa-")
            inc = os.path.join(_tmp.name, "inc")
            os.mkdir(inc)
            os.symlink(os.path.join(REPO, "src"), os.path.join(inc, "sharemind"))
        return _tmp.name


def tool():
    src = os.path.join(VERIF, "tool", "irx.cpp")
    h = hashlib.sha256(open(src, "rb").read()).hexdigest()[:16]
    for d in (os.path.join(VERIF, "build"), None):
        if d is None:
            d = tmpdir()
        out = os.path.join(d, "irx-" + h)
        with _lock:
            if os.access(out, os.X_OK):
                return out
            try:
                os.makedirs(d, exist_ok=True)
                part = "%s.%d" % (out, os.getpid())
                cxxflags = [f for f in subprocess.check_output(
                    ["llvm-config-18", "--cxxflags"], text=True).split()
                    if f not in ("-O2", "-DNDEBUG")]
                ldflags = subprocess.check_output(["llvm-config-18", "--ldflags"], text=True).split()
                subprocess.run([CLANG, "-O1", "-std=c++17", "-fno-rtti", *cxxflags, src,
                                "-o", part, *ldflags, "-lLLVM-18"], check=True)
                os.rename(part, out)
                return out
            except OSError:
                continue
    raise AnalysisError("cannot build the exporter")


STD = "c++14"        # the thorough tier repeats everything with another one
BASE_FLAGS = ["-O1", "-Xclang", "-disable-llvm-passes", "-g",
              "-fstandalone-debug", "-fno-access-control", "-w", "-pthread",
              "-fsanitize=return", "-fsanitize-trap=return",
              "-fno-discard-value-names"]

# Standard library operations treated as primitives.
KEEP = [
    r"^std::_Sp_counted_base<.*>::(_M_release|_M_release_last_use|_M_release_last_use_cold|"
    r"_M_add_ref_lock_nothrow|_M_add_ref_copy|_M_weak_release|_M_weak_add_ref|_M_get_use_count)\(",
]


def include_flags():
    return ["-I", os.path.join(VERIF, "models"), "-I", os.path.join(tmpdir(), "inc"),
            "-I", os.path.join(VERIF, "stubs")]


class CompileError(Exception):
    pass


def run(cmd, what):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                       errors="replace")
    if p.returncode != 0:
        raise CompileError("%s failed:\n%s" % (what, p.stdout[-6000:]))
    return p.stdout


def compile_driver(name, defs=(), entries=(r"^vp_e_",), keep=(), std_keep=True, flags=(),
                   dump=None, vtables=False):
    t = tmpdir()
    src = os.path.join(VERIF, "drivers", name)
    key = hashlib.sha256(repr((name, defs, entries, keep, std_keep, flags, vtables)).encode()).hexdigest()[:12]
    bc = os.path.join(t, key + ".bc")
    out = os.path.join(t, key + ".json")
    std = "c++14" if name == "circbuf.cpp" else STD      # CircBufferSCSP.h needs noexcept outside of the function's type
    run([CLANG, "-std=" + std, *BASE_FLAGS, *flags, *["-D" + d for d in defs], *include_flags(),
         "-emit-llvm", "-c", src, "-o", bc], "compiling driver %s" % name)
    cmd = [tool(), bc, "-o", out]
    for k in (KEEP if std_keep else []) + list(keep):
        cmd += ["--keep", k]
    if vtables:
        cmd.append("--vtables")
    for e in entries:
        cmd += ["--entry", e]
    if dump or os.environ.get("VP_DUMP"):
        cmd += ["--dump-ll", dump or os.path.join(os.environ["VP_DUMP"], name + ".ll")]
    run(cmd, "normalising driver %s" % name)
    with open(out) as f:
        j = json.load(f)
    os.unlink(bc)
    os.unlink(out)
    m = Module(j)
    m.driver = name
    return m
