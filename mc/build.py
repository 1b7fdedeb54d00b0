"""Builds the code under test from /repo's current working tree, outside /repo, with an object cache
keyed by content (source, all headers, flags)."""
import hashlib
import os
import subprocess
import sys
import threading
from concurrent.futures import ThreadPoolExecutor
from pathlib import Path

VERIF = Path(__file__).resolve().parent.parent
REPO = Path(os.environ.get("MC_REPO", "/repo"))
BUILD = VERIF / "build"
INC = ["-I/usr/include/eigen3", "-I/usr/include/libfccp"]
JOBS = 8


class BuildError(Exception):
    pass


def _read(p):
    try:
        return Path(p).read_bytes()
    except OSError:
        return b""


def _headers_digest():
    h = hashlib.sha256()
    for base in (REPO / "src", REPO / "generator", VERIF / "lib", VERIF / "harness"):
        for f in sorted(base.rglob("*")):
            if f.suffix in (".hpp", ".h", ".hh", ".inl", ".ipp", ".tpp") and f.is_file():
                h.update(str(f).encode())
                h.update(_read(f))
    return h.hexdigest()


class Builder:
    def __init__(self):
        self.hd = _headers_digest()
        (BUILD / "obj").mkdir(parents=True, exist_ok=True)
        self.pool = ThreadPoolExecutor(JOBS)
        self.lock = threading.Lock()

    def _compile(self, src, flags, cxx):
        key = hashlib.sha256(b"\0".join([self.hd.encode(), str(src).encode(), _read(src), " ".join([cxx] + flags).encode()])).hexdigest()[:32]
        obj = BUILD / "obj" / (Path(src).stem + "-" + key + ".o")
        if obj.exists():
            return obj
        tmp = obj.with_suffix(".%d.%d.tmp" % (os.getpid(), threading.get_ident()))
        r = subprocess.run([cxx, *flags, "-c", str(src), "-o", str(tmp)], capture_output=True, text=True)
        if r.returncode != 0:
            raise BuildError("compiling %s failed:\n%s" % (src, r.stderr[-3000:]))
        os.replace(tmp, obj)
        return obj

    def objects(self, srcs, flags, cxx="g++"):
        return [self.pool.submit(self._compile, s, list(flags), cxx) for s in srcs]

    def link(self, name, futures, flags, cxx="g++"):
        objs = [str(f.result()) for f in futures]
        key = hashlib.sha256(" ".join(objs + list(flags) + [cxx]).encode()).hexdigest()[:16]
        out = BUILD / "bin" / (name + "-" + key)
        if out.exists():
            return out
        out.parent.mkdir(parents=True, exist_ok=True)
        tmp = out.with_suffix(".tmp%d" % os.getpid())
        r = subprocess.run([cxx, *objs, *flags, "-o", str(tmp)], capture_output=True, text=True)
        if r.returncode != 0:
            raise BuildError("linking %s failed:\n%s" % (name, r.stderr[-3000:]))
        os.replace(tmp, out)
        return out

    @staticmethod
    def repo_sources(main=False):
        return [f for f in sorted((REPO / "src").rglob("*.cpp")) if main or f.name != "main.cpp"]

    VARIANTS = {
        # as the release build, plus bounds checks in the standard library
        "plain": ["-O1"],
        "asan": ["-O1", "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined", "-fno-omit-frame-pointer"],
    }

    def harness(self, name, variant="plain", extra_lib=("-lyaml-cpp", "-lpthread")):
        if variant == "omp":
            return self.omp_harness(name)
        v = self.VARIANTS[variant]
        flags = ["-std=c++17", "-g1", "-w", "-DNDEBUG", "-D_GLIBCXX_ASSERTIONS", *v, "-I%s" % (REPO / "src"), "-I%s" % (VERIF / "lib"), *INC]
        san = [f for f in v if f.startswith("-fsanitize")]
        fut = self.objects([VERIF / "harness" / (name + ".cpp"), VERIF / "lib" / "mc.cpp", *self.repo_sources()], flags)
        return self.link(name + "-" + variant, fut, [*san, "-Wl,--wrap=exit", *extra_lib])

    def omp_harness(self, name):
        """The harness and the sources with OpenMP, instrumented memory accesses and the controlled runtime of harness/ompmc.c."""
        base = ["-std=c++17", "-g1", "-w", "-DNDEBUG", "-O1", "-U_FORTIFY_SOURCE", "-I%s" % (REPO / "src"), "-I%s" % (VERIF / "lib"), *INC]
        fut = self.objects(self.repo_sources(), [*base, "-fopenmp", "-fsanitize=thread"])
        fut += self.objects([VERIF / "harness" / (name + ".cpp"), VERIF / "lib" / "mc.cpp"], base)
        fut += self.objects([VERIF / "harness" / "ompmc.c"], ["-g1", "-w", "-O2", "-fexceptions", "-U_FORTIFY_SOURCE"], cxx="gcc")
        wrap = ["exit", "free", "realloc", "memcpy", "memmove", "memset", "__cxa_guard_acquire", "__cxa_guard_release"]
        return self.link(name, fut, ["-Wl," + ",".join("--wrap=" + w for w in wrap), "-rdynamic", "-ldl", "-lyaml-cpp", "-lpthread"])

    def mps(self):
        """The command line program, flags as in the project's own build."""
        flags = ["-std=gnu++17", "-O2", "-w", "-DNDEBUG", "-I%s" % (REPO / "src"), *INC]
        return self.link("mps", self.objects(self.repo_sources(main=True), flags), ["-lyaml-cpp", "-lpthread"])

    def mps_filled(self, how):
        """The command line program with its automatic variables filled before use."""
        flags = ["-std=gnu++17", "-O2", "-w", "-DNDEBUG", "-ftrivial-auto-var-init=" + how, "-I%s" % (REPO / "src"), *INC]
        return self.link("mps-" + how, self.objects(self.repo_sources(main=True), flags), ["-lyaml-cpp", "-lpthread"])

    def mps_checked(self):
        """The command line program with address and undefined-behaviour sanitizers and library assertions."""
        flags = ["-std=gnu++17", "-O1", "-g1", "-w", "-DNDEBUG", "-D_GLIBCXX_ASSERTIONS", *self.VARIANTS["asan"][1:], "-I%s" % (REPO / "src"), *INC]
        return self.link("mps-checked", self.objects(self.repo_sources(main=True), flags), [*self.VARIANTS["asan"][1:], "-lyaml-cpp", "-lpthread"])

    def mps_traced(self):
        """The command line program for memcheck."""
        flags = ["-std=gnu++17", "-O0", "-g1", "-w", "-DNDEBUG", "-I%s" % (REPO / "src"), *INC]
        return self.link("mps-traced", self.objects(self.repo_sources(main=True), flags), ["-lyaml-cpp", "-lpthread"])

    def mps_openmp(self):
        """The command line program with OpenMP and the compiler's own runtime."""
        flags = ["-std=gnu++17", "-O1", "-w", "-DNDEBUG", "-fopenmp", "-I%s" % (REPO / "src"), *INC]
        return self.link("mps-openmp", self.objects(self.repo_sources(main=True), flags), ["-fopenmp", "-lyaml-cpp", "-lpthread"])

    def generator(self, which):
        flags = ["-std=gnu++17", "-O1", "-w", "-DNDEBUG", *INC]
        g = REPO / "generator"
        fut = self.objects([g / ("generate_%s.cpp" % which), *sorted((g / "generator_src").glob("*.cpp"))], flags)
        fut += self.objects(self.repo_sources(), ["-std=gnu++17", "-O2", "-w", "-DNDEBUG", "-I%s" % (REPO / "src"), *INC])
        return self.link("generate_" + which, fut, ["-lyaml-cpp", "-lpthread"])

    def generator_tool(self, name):
        """A helper from harness/<name>.cpp linked with the generators' sources."""
        flags = ["-std=gnu++17", "-O1", "-w", "-DNDEBUG", "-I%s" % (REPO / "src"), "-I%s" % (REPO / "generator"), *INC]
        fut = self.objects([VERIF / "harness" / (name + ".cpp"), *sorted((REPO / "generator" / "generator_src").glob("*.cpp"))], flags)
        fut += self.objects(self.repo_sources(), ["-std=gnu++17", "-O2", "-w", "-DNDEBUG", "-I%s" % (REPO / "src"), *INC])
        return self.link(name, fut, ["-lyaml-cpp", "-lpthread"])

    def shim(self, name):
        """A preloadable object from harness/<name>.c."""
        src = VERIF / "harness" / (name + ".c")
        fut = self.objects([src], ["-O1", "-fPIC", "-w"], cxx="gcc")
        return self.link(name + ".so", fut, ["-shared", "-ldl"], cxx="gcc")

    def tool(self, name):
        """A stand-alone C program from harness/<name>.c."""
        fut = self.objects([VERIF / "harness" / (name + ".c")], ["-O1", "-w"], cxx="gcc")
        return self.link(name, fut, [], cxx="gcc")

    def plain(self, name):
        """A stand-alone C++ program from harness/<name>.cpp that uses nothing of the repository."""
        return self.link(name, self.objects([VERIF / "harness" / (name + ".cpp")], ["-std=gnu++17", "-O2", "-w"]), [])

    def program(self, name):
        """A C++ helper from harness/<name>.cpp linked with the sources of the repository (no explorer)."""
        flags = ["-std=gnu++17", "-O1", "-w", "-DNDEBUG", "-I%s" % (REPO / "src"), *INC]
        fut = self.objects([VERIF / "harness" / (name + ".cpp"), *self.repo_sources()], flags)
        return self.link(name, fut, ["-lyaml-cpp", "-lpthread"])


def prune(limit=1500 * 1024 * 1024):
    """Keep the object cache bounded."""
    files = sorted((f for f in BUILD.rglob("*") if f.is_file()), key=lambda f: f.stat().st_mtime, reverse=True)
    total = 0
    for f in files:
        total += f.stat().st_size
        if total > limit:
            f.unlink(missing_ok=True)
