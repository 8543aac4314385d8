"""Tool build and typed-AST dump of translation units."""
import fcntl
import hashlib
import json
import os
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
TOOLSRC = os.path.join(HERE, "tool", "astdump.cpp")
CLANGXX = "/usr/bin/clang++"
LLVM = "/usr/lib/llvm-18"


class FrontendError(Exception):
    pass


def build_dir():
    d = os.path.join(HERE, "build")
    try:
        os.makedirs(d, exist_ok=True)
        t = os.path.join(d, ".w%d" % os.getpid())
        open(t, "w").close()
        os.unlink(t)
        return d
    except OSError:
        import tempfile
        d = os.path.join(tempfile.gettempdir(), "verif-build-%d" % os.getuid())
        os.makedirs(d, exist_ok=True)
        return d


def tool():
    src = open(TOOLSRC, "rb").read()
    h = hashlib.sha256(src).hexdigest()[:16]
    d = build_dir()
    exe = os.path.join(d, "astdump-" + h)
    if os.path.exists(exe):
        return exe
    with open(os.path.join(d, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(exe):
            return exe
        tmp = exe + ".tmp%d" % os.getpid()
        cmd = [CLANGXX, "-std=c++17", "-O0", "-fno-rtti", "-fno-exceptions", "-w",
               "-I" + LLVM + "/include", "-D_GNU_SOURCE", "-D__STDC_CONSTANT_MACROS",
               "-D__STDC_FORMAT_MACROS", "-D__STDC_LIMIT_MACROS", TOOLSRC, "-o", tmp,
               LLVM + "/lib/libclang-cpp.so.18.1", "-L" + LLVM + "/lib", "-lLLVM-18",
               "-Wl,-rpath," + LLVM + "/lib"]
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            raise FrontendError("tool build failed:\n" + r.stdout[-4000:])
        os.rename(tmp, exe)
    return exe


def gen_include():
    """generated version header when the tree was never configured"""
    have = os.path.join(REPO, "include", "ieompp", "version.hpp")
    if os.path.exists(have):
        return []
    return ["-I" + os.path.join(HERE, "stubs", "generated")]


def flags(extra=()):
    return ["-std=c++14", "-I" + os.path.join(HERE, "stubs"), "-I" + REPO + "/include",
            *gen_include(), "-include", "cstdint", "-DNDEBUG", "-fopenmp", "-Wno-everything",
            *extra, "-resource-dir", LLVM + "/lib/clang/18"]


def dump(src, extra=(), opts=()):
    src = os.path.abspath(src)
    cmd = [tool(), "--user=" + REPO + "/", "--user=" + HERE + "/", *opts, src, "--", *flags(extra)]
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    if r.returncode or not r.stdout.strip():
        raise FrontendError("%s does not compile against the current tree:\n%s"
                            % (src, r.stderr[-3000:]))
    return json.loads(r.stdout)


if __name__ == "__main__":
    print("tool", tool())
