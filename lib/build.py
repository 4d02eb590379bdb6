"""Builds everything a check needs from /repo's working tree: bitcode modules, native executables, the engine."""
import hashlib, os, re, shutil, subprocess, sys, fcntl, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VF_REPO", "/repo")
CACHE = os.path.join(VERIF, ".cache")
NCPU = os.cpu_count() or 4
BCFLAGS = ("-O1 -fno-pic -fno-pie -fno-builtin -fwrapv -fno-strict-aliasing -fno-vectorize -fno-slp-vectorize -fno-unroll-loops "
           "-ffp-contract=off -DUNIX -DNDEBUG -D__NO_CTYPE -w -emit-llvm -c").split()
NATFLAGS = "-O2 -g -std=c99 -w -DUNIX -DNDEBUG".split()
ASANFLAGS = "-O1 -g -std=c99 -w -DUNIX -DNDEBUG -fsanitize=address -fno-omit-frame-pointer".split()


def sh(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)
    if r.returncode != 0:
        raise RuntimeError("command failed (%d): %s\n%s" % (r.returncode, " ".join(cmd), r.stdout.decode(errors="replace")[-4000:]))
    return r.stdout.decode(errors="replace")


def _files():
    out = []
    for d in ("", "wlalink", "wlab", "instruction_table_generator"):
        p = os.path.join(REPO, d)
        for f in sorted(os.listdir(p)):
            if f.endswith((".c", ".h")) or f == "CMakeLists.txt":
                out.append(os.path.join(d, f))
    return out


def tree_hash():
    h = hashlib.sha256()
    for f in _files():
        h.update(f.encode() + b"\0")
        with open(os.path.join(REPO, f), "rb") as fh:
            h.update(hashlib.sha256(fh.read()).digest())
    for f in ("lib/build.py", "engine/minilibc.c"):
        with open(os.path.join(VERIF, f), "rb") as fh:
            h.update(hashlib.sha256(fh.read()).digest())
    return h.hexdigest()[:20]


def cmake_sets():
    top = open(os.path.join(REPO, "CMakeLists.txt")).read()
    arch = re.search(r"set\(ARCHS(.*?)\)", top, re.S).group(1)
    cpus = {}
    for line in arch.splitlines():
        m = re.match(r'\s*"([^:"]+):([^"]+)"', line)
        if m:
            cpus[m.group(1)] = m.group(2)

    def srcs(text, name):
        body = re.search(r"set\(%s(.*?)\)" % name, text, re.S).group(1)
        return [w for w in body.split() if w.endswith(".c")]
    wla = srcs(top, "WLA_SRCS")
    link = [os.path.normpath(os.path.join("wlalink", s)) for s in srcs(open(os.path.join(REPO, "wlalink/CMakeLists.txt")).read(), "WLALINK_SRCS")]
    wlab = [os.path.normpath(os.path.join("wlab", s)) for s in srcs(open(os.path.join(REPO, "wlab/CMakeLists.txt")).read(), "WLAB_SRCS")]
    return cpus, wla, link, wlab


class Lock:
    def __init__(self, path):
        self.path = path

    def __enter__(self):
        os.makedirs(os.path.dirname(self.path), exist_ok=True)
        self.f = open(self.path, "w")
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        self.f.close()


def engine():
    out = os.path.join(CACHE, "engine")
    with Lock(os.path.join(CACHE, "engine.lock")):
        sh(["make", "-s", "-j4", "-C", os.path.join(VERIF, "engine"), "OUT=" + out])
    return os.path.join(out, "symx")


def _prune(keep):
    try:
        ds = [d for d in os.listdir(CACHE) if d.startswith("t_")]
    except OSError:
        return
    ds = sorted(ds, key=lambda d: os.path.getmtime(os.path.join(CACHE, d)))
    for d in ds[:-3]:
        if d != keep:
            shutil.rmtree(os.path.join(CACHE, d), ignore_errors=True)


class Tree:
    """Build products of the current working tree, made on demand."""

    def __init__(self):
        self.hash = tree_hash()
        self.dir = os.path.join(CACHE, "t_" + self.hash)
        os.makedirs(self.dir, exist_ok=True)
        os.utime(self.dir)
        _prune("t_" + self.hash)
        self.cpus, self.wla, self.link, self.wlab = cmake_sets()

    def lock(self):
        return Lock(os.path.join(self.dir, "lock"))

    def _table(self, cpu):
        d = os.path.join(self.dir, "tab")
        os.makedirs(d, exist_ok=True)
        c = os.path.join(d, "t%s.c" % cpu)
        if not os.path.exists(c):
            g = os.path.join(d, "gen-" + cpu)
            sh(["gcc", "-w", "-std=c99", "-DUNIX", "-D" + self.cpus[cpu], "-I" + REPO, "-o", g, os.path.join(REPO, "instruction_table_generator/main.c"), os.path.join(REPO, "i%s.c" % cpu)])
            sh([g, c + ".tmp"])
            os.rename(c + ".tmp", c)
        return c

    def _sources(self, mod):
        if mod == "wlalink":
            return [(s, None) for s in self.link]
        if mod == "wlab":
            return [(s, None) for s in self.wlab]
        cpu = mod[4:]
        return [(s, cpu) for s in self.wla] + [("i%s.c" % cpu, cpu), (self._table(cpu), cpu)]

    def _compile(self, kind, mods, cc, flags):
        """kind: bc, nat, asan"""
        objs, jobs = {}, {}
        ext = ".bc" if kind == "bc" else ".o"
        for m in mods:
            objs[m] = []
            for s, cpu in self._sources(m):
                o = os.path.join(self.dir, kind, cpu or "common", s.replace("/", "_") if not os.path.isabs(s) else os.path.basename(s)) + ext
                objs[m].append(o)
                if not os.path.exists(o) and o not in jobs:
                    os.makedirs(os.path.dirname(o), exist_ok=True)
                    src = s if os.path.isabs(s) else os.path.join(REPO, s)
                    inc = ["-I" + REPO]
                    cmd = [cc] + flags + (["-D" + self.cpus[cpu]] if cpu else []) + inc + (["-c"] if kind != "bc" else []) + [src, "-o", o + ".tmp" + ext]
                    jobs[o] = cmd
        def one(o):
            sh(jobs[o])
            os.rename(o + ".tmp" + ext, o)
        big = ("phase", "stack", "decode", "write", "analyze", "main")
        with ThreadPoolExecutor(NCPU) as ex:
            list(ex.map(one, sorted(jobs, key=lambda o: 0 if any(b in o for b in big) else 1)))
        return objs

    def libc_bc(self):
        o = os.path.join(self.dir, "minilibc.bc")
        if not os.path.exists(o):
            sh(["clang", "-O1", "-fno-builtin", "-ffreestanding", "-fwrapv", "-w", "-fno-vectorize", "-fno-unroll-loops", "-emit-llvm", "-c", os.path.join(VERIF, "engine/minilibc.c"), "-o", o])
        return o

    def modules(self, mods):
        with self.lock():
            lib = self.libc_bc()
            out = {m: os.path.join(self.dir, m + ".bc") for m in mods}
            need = [m for m in mods if not os.path.exists(out[m])]
            if need:
                objs = self._compile("bc", need, "clang", BCFLAGS)
                for m in need:
                    sh(["llvm-link-18", "-o", out[m] + ".tmp"] + objs[m] + [lib])
                    os.rename(out[m] + ".tmp", out[m])
            return out

    def native(self, mods, kind="nat"):
        d = os.path.join(self.dir, kind + "bin")
        with self.lock():
            os.makedirs(d, exist_ok=True)
            need = [m for m in mods if not os.path.exists(os.path.join(d, m))]
            if need:
                flags = NATFLAGS if kind == "nat" else ASANFLAGS
                objs = self._compile(kind, need, "gcc", flags)
                for m in need:
                    sh(["gcc"] + (["-fsanitize=address"] if kind == "asan" else []) + ["-o", os.path.join(d, m + ".tmp")] + objs[m] + ["-lm"])
                    os.rename(os.path.join(d, m + ".tmp"), os.path.join(d, m))
        return d

    def scenario(self, src, defs=()):
        """-> (bitcode, native replay program)"""
        path = os.path.join(VERIF, "scen", src)
        h = hashlib.sha256()
        inc = [path] + [os.path.join(VERIF, "engine", f) for f in ("vf.h", "vfutil.h", "vf_native.c")] + [os.path.join(VERIF, d, f) for d in ("scen", "scen/insn") for f in sorted(os.listdir(os.path.join(VERIF, d))) if f.endswith(".h")]
        for f in inc:
            h.update(open(f, "rb").read())
        h.update(repr(defs).encode())
        base = os.path.join(self.dir, "scen_%s_%s" % (os.path.splitext(src)[0], h.hexdigest()[:12]))
        with self.lock():
            lib = self.libc_bc()
            eng = os.path.join(VERIF, "engine")
            d = ["-D" + x for x in defs]
            if not os.path.exists(base + ".bc"):
                sh(["clang"] + BCFLAGS + d + ["-I" + eng, "-I" + os.path.join(VERIF, "scen"), path, "-o", base + ".1.bc"])
                sh(["llvm-link-18", "-o", base + ".2.bc", base + ".1.bc", lib])
                os.rename(base + ".2.bc", base + ".bc")
            if not os.path.exists(base + ".nat"):
                sh(["gcc", "-O1", "-fwrapv", "-w", "-Dmain=scenario_main"] + d + ["-I" + eng, "-I" + os.path.join(VERIF, "scen"), "-c", path, "-o", base + ".o"])
                sh(["gcc", "-O1", "-w", "-o", base + ".nat.tmp", base + ".o", os.path.join(eng, "vf_native.c"), "-lm"])
                os.rename(base + ".nat.tmp", base + ".nat")
        return base + ".bc", base + ".nat"


if __name__ == "__main__":  # setup: build the engine
    t0 = time.time()
    print(engine(), "%.1fs" % (time.time() - t0))
