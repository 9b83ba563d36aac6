"""Build + run machinery shared by all checks: compiles /repo's current sources to
LLVM bitcode, links a harness with the translation units it needs, explores it with
the symbolic executor, replays counterexamples and path samples natively."""
import concurrent.futures as cf
import glob
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import threading
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
SRC = os.path.join(REPO, "src")
BUILD = os.path.join(VERIF, "build")
LLVM = "/usr/lib/llvm-18/bin/"
RT = os.path.join(VERIF, "rt")
NCPU = max(2, os.cpu_count() or 2)

AUTO_HEADER = """#ifndef SPS_AUTO_HEADER_HPP
#define SPS_AUTO_HEADER_HPP
#define GIT_VERSION "verif"
#define GIT_BRANCH "verif"
#ifndef SRT_ENABLED
#define SRT_ENABLED 1
#endif
#ifndef OPENSSL_ENABLED
#define OPENSSL_ENABLED 1
#endif
#ifndef FFMPEG_ENABLED
#define FFMPEG_ENABLED 1
#endif
#endif
"""

BCFLAGS = ["-std=c++14", "-w", "-O1", "-Xclang", "-disable-llvm-passes", "-fno-vectorize", "-fno-slp-vectorize",
           "-gline-tables-only", "-fno-discard-value-names", "-ffp-contract=off", "-D__NO_INLINE__", "-emit-llvm", "-c"]
NATFLAGS = ["-std=c++14", "-w", "-O1", "-g1", "-fsanitize=address", "-fno-omit-frame-pointer",
            "-ftrivial-auto-var-init=pattern", "-c"]
# never linked: main programs and the log back end (replaced by rt/env.cpp), except when a harness asks for it
EXCLUDE = ("log/sps_log.cpp", "main/")


class Inconclusive(Exception):
    pass


def sh(cmd, timeout=600, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout, **kw)


_lock = threading.Lock()


class Tree:
    """The current source tree, compiled on demand."""

    def __init__(self):
        self.files = sorted(glob.glob(SRC + "/**/*.cpp", recursive=True))
        h = hashlib.sha256()
        for f in sorted(glob.glob(SRC + "/**/*.[ch]pp", recursive=True) + glob.glob(SRC + "/**/*.h", recursive=True)
                        + glob.glob(RT + "/**/*", recursive=True)):
            if os.path.isfile(f):
                h.update(f.encode())
                h.update(open(f, "rb").read())
        h.update(repr(BCFLAGS + NATFLAGS).encode())
        self.hash = h.hexdigest()[:16]
        self.dir = os.path.join(BUILD, "tree-" + self.hash)
        os.makedirs(self.dir, exist_ok=True)
        gen = os.path.join(self.dir, "gen")
        os.makedirs(gen, exist_ok=True)
        with open(os.path.join(gen, "sps_auto_header.hpp"), "w") as f:
            f.write(AUTO_HEADER)
        self.inc = ["-I" + d for d in [SRC] + sorted(d for d, _, _ in os.walk(SRC))] + ["-isystem", "/opt/vp/compat", "-I" + RT, "-idirafter", gen]
        self.bcdir = os.path.join(self.dir, "bc")
        self.natdir = os.path.join(self.dir, "nat")
        os.makedirs(self.bcdir, exist_ok=True)
        os.makedirs(self.natdir, exist_ok=True)
        self.defs = {}     # symbol -> tu (strong)
        self.wdefs = {}
        self.undef = {}    # tu -> set
        self.deft = {}

    def rel(self, f):
        return os.path.relpath(f, SRC)

    def out(self, f, d, ext):
        return os.path.join(d, self.rel(f).replace("/", "__") + ext)

    def bc_cmd(self, f, o, extra=()):
        return ["clang++"] + BCFLAGS + ["-I" + RT + "/include"] + self.inc + list(extra) + [f, "-o", o]

    def nat_cmd(self, f, o, extra=()):
        return ["clang++"] + NATFLAGS + self.inc + list(extra) + [f, "-o", o]

    def compile_all(self):
        def one(f):
            o = self.out(f, self.bcdir, ".bc")
            if not os.path.exists(o) and not os.path.exists(o + ".fail"):
                r = sh(self.bc_cmd(f, o + ".tmp"))
                if r.returncode:
                    open(o + ".fail", "w").write(r.stdout)
                else:
                    os.rename(o + ".tmp", o)
            if os.path.exists(o):
                self.index(f, o)
        with cf.ThreadPoolExecutor(NCPU) as ex:
            list(ex.map(one, self.files))
        for f in ("libcxx.cpp", "env.cpp", "files.cpp", "http_parser.cpp"):
            p = os.path.join(RT, f)
            if not os.path.exists(p):
                continue
            o = os.path.join(self.bcdir, "rt_" + f + ".bc")
            if not os.path.exists(o):
                r = sh(self.bc_cmd(p, o + ".tmp", ["-fno-builtin"]))
                if r.returncode:
                    raise Inconclusive("runtime does not compile: " + r.stdout[-2000:])
                os.rename(o + ".tmp", o)
            if f == "env.cpp":
                d, w, _ = self.nm(o)
                self.rtdefs = d | w

    def nm(self, o):
        d, w, u = set(), set(), set()
        for l in sh([LLVM + "llvm-nm", o]).stdout.splitlines():
            p = l.split()
            if len(p) < 2:
                continue
            t, n = p[-2], p[-1]
            if t in "TDBRC":
                d.add(n)
            elif t in "WVu":
                w.add(n)
            elif t == "U":
                u.add(n)
        return d, w, u

    def index(self, f, o):
        c = o + ".nm"
        if os.path.exists(c):
            d, w, u = [set(x) for x in json.load(open(c))]
        else:
            d, w, u = self.nm(o)
            json.dump([sorted(d), sorted(w), sorted(u)], open(c, "w"))
        with _lock:
            r = self.rel(f)
            self.undef[r] = u
            self.deft[r] = d | w
            if r.startswith(EXCLUDE):
                return
            for n in d:
                self.defs.setdefault(n, []).append(r)
            for n in w:
                self.wdefs.setdefault(n, []).append(r)

    def closure(self, hd, hu, exclude=(), extra=()):
        have, todo, sel = set(hd), set(hu), []

        def add(tu):
            sel.append(tu)
            have.update(self.deft[tu])
            todo.update(self.undef[tu])
        for tu in extra:
            if tu not in self.deft:
                raise Inconclusive("source file missing or not compiling: " + tu)
            add(tu)
        while todo:
            n = todo.pop()
            if n in have:
                continue
            c = [t for t in sorted(self.defs.get(n, [])) if not t.startswith(tuple(exclude) or ("\0",))]
            if c:
                add(c[0])
        return sel


class Harness:
    def __init__(self, tree, name, spec, tier):
        self.t, self.name, self.spec, self.tier = tree, name, spec, tier
        self.src = os.path.join(VERIF, "harness", spec["file"])
        self.defines = dict(spec.get("defines", {}))
        if tier == "thorough":
            self.defines.update(spec.get("thorough", {}))
        self.work = os.path.join(tree.dir, "h-%s-%s-%d" % (name, tier, os.getpid()))
        os.makedirs(self.work, exist_ok=True)

    def dflags(self):
        return ["-D%s=%s" % kv for kv in self.defines.items()] + ["-I" + os.path.join(VERIF, "harness")]

    def build_bc(self):
        hb = os.path.join(self.work, "harness.bc")
        r = sh(self.t.bc_cmd(self.src, hb, self.dflags()))
        if r.returncode:
            raise Inconclusive("harness %s does not compile against the current tree:\n%s" % (self.name, r.stdout[-3000:]))
        d, w, u = self.t.nm(hb)
        self.tus = self.t.closure(d | w | self.t.rtdefs, u, self.spec.get("exclude", ()), self.spec.get("extra", ()))
        linked = os.path.join(self.work, "linked.bc")
        ins = [self.t.out(os.path.join(SRC, x), self.t.bcdir, ".bc") for x in self.tus]
        rts = [os.path.join(self.t.bcdir, "rt_%s.bc" % x) for x in ("libcxx.cpp", "env.cpp", "files.cpp", "http_parser.cpp")]
        rts = [x for x in rts if os.path.exists(x)]
        r = sh([LLVM + "llvm-link", "-o", linked, hb] + ins + rts)
        if r.returncode:
            raise Inconclusive("link failed: " + r.stdout[-3000:])
        self.bc = os.path.join(self.work, "final.bc")
        passes = ("internalize,globaldce,function(sroa,early-cse,instsimplify,simplifycfg),cgscc(inline),"
                  "function(sroa,early-cse,instcombine<no-verify-fixpoint>,simplifycfg,dce),globaldce")
        r = sh([LLVM + "opt", "-passes=" + passes, "-internalize-public-api-list=sym_main", "-inline-threshold=150", linked, "-o", self.bc])
        if r.returncode:
            raise Inconclusive("opt failed: " + r.stdout[-3000:])

    def build_native(self):
        exe = os.path.join(self.work, "native")
        objs = []
        jobs = []
        ho = os.path.join(self.work, "harness.o")
        jobs.append((self.t.nat_cmd(self.src, ho, self.dflags()), ho))
        for x in self.tus:
            f = os.path.join(SRC, x)
            jobs.append((self.t.nat_cmd(f, self.t.out(f, self.t.natdir, ".o")), self.t.out(f, self.t.natdir, ".o")))
        for f in ("env.cpp", "native.cpp"):
            o = os.path.join(self.t.natdir, "rt_" + f + ".o")
            jobs.append((self.t.nat_cmd(os.path.join(RT, f), o), o))

        def one(j):
            cmd, o = j
            if os.path.exists(o):
                return None
            tmp = "%s.%d.%d.tmp" % (o, os.getpid(), threading.get_ident())
            c = list(cmd)
            c[c.index("-o") + 1] = tmp
            r = sh(c)
            if r.returncode:
                return r.stdout[-2000:]
            os.rename(tmp, o)
        with cf.ThreadPoolExecutor(NCPU) as ex:
            for e in ex.map(one, jobs):
                if e:
                    raise Inconclusive("native build failed: " + e)
        objs = [j[1] for j in jobs]
        link = ["clang++", "-fsanitize=address", "-fuse-ld=bfd", "-no-pie", "-o", exe] + objs
        tail = ["-Wl,-z,muldefs", "-Wl,--no-demangle", "-lhttp_parser", "-lpthread"]
        r = sh(link + tail)
        if r.returncode:
            und = sorted(set(re.findall(r"undefined reference to `([^']+)'", r.stdout)))
            if not und:
                raise Inconclusive("native link failed: " + r.stdout[-2000:])
            # libraries and platform code the harness never reaches: definitions that trap
            st = os.path.join(self.work, "stubs.s")
            with open(st, "w") as f:
                f.write(".data\n.balign 64\n")
                for u in und:
                    f.write(".globl %s\n%s:\n" % (u, u))
                f.write(".fill 256,8,0\n.section .note.GNU-stack,\"\",@progbits\n")
            r = sh(link + [st] + tail)
            if r.returncode:
                raise Inconclusive("native link failed: " + r.stdout[-2000:])
        self.exe = exe

    def run_native(self, inp, path):
        with open(path, "w") as f:
            f.write(inp)
        env = dict(os.environ)
        env["ASAN_OPTIONS"] = "detect_leaks=0:max_malloc_fill_size=16777216:malloc_fill_byte=170:alloc_dealloc_mismatch=0:detect_stack_use_after_return=0:allocator_may_return_null=1:abort_on_error=0:exitcode=99:new_delete_type_mismatch=0"
        try:
            r = subprocess.run([self.exe, path], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=self.spec.get("replay_timeout", 20), env=env,
                               cwd=self.work, errors="replace", text=True)
            return r.returncode, r.stdout
        except subprocess.TimeoutExpired as e:
            return "timeout", (e.stdout or b"").decode(errors="replace") if isinstance(e.stdout, bytes) else (e.stdout or "")

    def explore(self):
        out = os.path.join(self.work, "out.json")
        lim = self.spec.get("time_thorough" if self.tier == "thorough" else "time", 1500 if self.tier == "thorough" else 400)
        lim = int(os.environ.get("VERIF_TIME", lim))
        mi = self.spec.get("max_instr", 3000000)
        cmd = [os.path.join(BUILD, "symex"), "--out", out, "--time", str(lim), "--max-instr", str(mi), "--workers", str(self.spec.get("workers", 1)),
               "--src", SRC + "/", "--samples", str(self.spec.get("samples", 6)), "--max-errors", str(self.spec.get("max_errors", 6)), self.bc]
        t0 = time.time()
        r = sh(cmd, timeout=lim + 300)
        self.wall = time.time() - t0
        parts = []
        for p in sorted(glob.glob(out + ".*")):
            try:
                parts.append(json.load(open(p)))
            except Exception as e:
                raise Inconclusive("engine output unreadable: %s" % e)
        if r.returncode or not parts:
            raise Inconclusive("engine failed on %s: rc=%s %s" % (self.name, r.returncode, r.stdout[-1500:]))
        res = {}
        for k in ("paths", "completed", "assumed_out", "exits", "err_paths", "instructions", "forks", "asserts", "assert_queries", "mem_checks", "queries", "sat", "unsat", "unknown", "cache_hits", "model_hits", "left"):
            res[k] = sum(p[k] for p in parts)
        res["solver_s"] = sum(p["solver_s"] for p in parts)
        res["max_query_s"] = max(p["max_query_s"] for p in parts)
        res["max_path_instructions"] = max(p["max_path_instructions"] for p in parts)
        for k in ("labels", "incomplete", "functions"):
            res[k] = sorted(set(x for p in parts for x in p[k]))
        res["assert_sites"] = {}
        for p in parts:
            for a, n in p["assert_sites"].items():
                res["assert_sites"][a] = res["assert_sites"].get(a, 0) + n
        res["errors"] = [e for p in parts for e in p["errors"]]
        res["samples"] = [e for p in parts for e in p["samples"]]
        self.res = res
        return res

    def cleanup(self):
        shutil.rmtree(self.work, ignore_errors=True)


def build_engine():
    os.makedirs(BUILD, exist_ok=True)
    lock = os.path.join(BUILD, ".lock")
    import fcntl
    with open(lock, "w") as f:
        fcntl.flock(f, fcntl.LOCK_EX)
        r = sh(["make", "-s", "-j4", "-C", os.path.join(VERIF, "engine"), "OUT=" + BUILD])
        if r.returncode:
            raise Inconclusive("engine build failed: " + r.stdout[-2000:])
