"""Content-hash based build of /repo's sources into /verif/build (ignored by git).

Every object file is keyed by the SHA-256 of its compile command and of the content of every file the
compiler read for it, so a change of /repo's working tree is always seen, whatever the time stamps say."""
import hashlib, json, os, re, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SRC = os.path.join(REPO, "src")
LIB = os.path.join(SRC, "libscotch")
ROOT = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
JOBS = int(os.environ.get("VERIF_JOBS", str(os.cpu_count() or 4)))

BASEDEFS = ["-Drestrict=__restrict", "-DCOMMON_RANDOM_FIXED_SEED", "-DSCOTCH_RENAME", "-DCOMMON_PTHREAD",
            "-DSCOTCH_PTHREAD", "-DCOMMON_PTHREAD_AFFINITY_LINUX", "-DSCOTCH_PTHREAD_MPI",
            "-DSCOTCH_VERSION_NUM=7", "-DSCOTCH_RELEASE_NUM=0", "-DSCOTCH_PATCHLEVEL_NUM=6",
            "-DCOMMON_FILE_COMPRESS_GZ", "-DCOMMON_FILE_COMPRESS_BZ2", "-DCOMMON_FILE_COMPRESS_LZMA"]

VARIANTS = {
    # AddressSanitizer + the project's own internal checks, real pthreads (thread number 1 by default)
    "asan": dict(cflags=["-O1", "-g1", "-fno-omit-frame-pointer", "-fsanitize=address", "-U_FORTIFY_SOURCE", "-w"],
                 defs=["-DSCOTCH_DEBUG_ALL"], ldflags=["-fsanitize=address"], mpi=False),
    # plain optimised build without internal checks, as shipped
    "plain": dict(cflags=["-O2", "-g1", "-U_FORTIFY_SOURCE", "-w"], defs=[], ldflags=[], mpi=False),
    # same as plain, with the internal checks
    "dbg": dict(cflags=["-O1", "-g1", "-U_FORTIFY_SOURCE", "-w"], defs=["-DSCOTCH_DEBUG_ALL"], ldflags=[], mpi=False),
    # coverage measurement (not used by any check)
    "cov": dict(cflags=["-O0", "-g1", "--coverage", "-fprofile-update=single", "-U_FORTIFY_SOURCE", "-w"], defs=["-DSCOTCH_DEBUG_ALL"],
                ldflags=["--coverage"], mpi=False),
    # threads run as fibers under the exploring scheduler; sync operations and memory accesses are scheduling points
    "thr": dict(cflags=["-O1", "-g1", "-fsanitize=thread", "-fno-builtin-memcpy", "-fno-builtin-memset", "-fno-builtin-memmove", "-U_FORTIFY_SOURCE", "-w", "-include", os.path.join(VERIF, "mc", "mcpthread.h")],
                defs=["-DSCOTCH_DEBUG_ALL", "-UCOMMON_FILE_COMPRESS_GZ", "-UCOMMON_FILE_COMPRESS_BZ2", "-UCOMMON_FILE_COMPRESS_LZMA"],
                ldflags=[], mpi=False),
    # threads run as fibers, with AddressSanitizer; only sync operations are scheduling points
    "thra": dict(cflags=["-O1", "-g1", "-fno-omit-frame-pointer", "-fsanitize=address", "-U_FORTIFY_SOURCE", "-w", "-include", os.path.join(VERIF, "mc", "mcpthread.h")],
                defs=["-DSCOTCH_DEBUG_ALL", "-UCOMMON_FILE_COMPRESS_GZ", "-UCOMMON_FILE_COMPRESS_BZ2", "-UCOMMON_FILE_COMPRESS_LZMA"],
                ldflags=["-fsanitize=address"], mpi=False),
    # MPI ranks (and threads) run as fibers over the exploring MPI stand-in
    "pt": dict(cflags=["-O1", "-g1", "-fno-omit-frame-pointer", "-fsanitize=address", "-U_FORTIFY_SOURCE", "-w", "-include", os.path.join(VERIF, "mc", "mcpthread.h"),
                       "-I", os.path.join(VERIF, "mc", "mpi")],
               defs=["-DSCOTCH_DEBUG_ALL", "-UCOMMON_FILE_COMPRESS_GZ", "-UCOMMON_FILE_COMPRESS_BZ2", "-UCOMMON_FILE_COMPRESS_LZMA"],
               ldflags=["-fsanitize=address"], mpi=True),
}
VARIANTS["ptcov"] = dict(VARIANTS["pt"], cflags=["-O0", "-g1", "--coverage", "-fprofile-update=single", "-U_FORTIFY_SOURCE", "-w", "-include", os.path.join(VERIF, "mc", "mcpthread.h"),
                       "-I", os.path.join(VERIF, "mc", "mpi")], ldflags=["--coverage"])
VARIANTS["ptp"] = dict(VARIANTS["pt"], defs=VARIANTS["pt"]["defs"] + ["-DSCOTCH_COMM_PTOP"])   # point-to-point communication everywhere


class BuildError(Exception):
    pass


_hc = {}


def fhash(path):
    try:
        st = os.stat(path)
    except OSError:
        return "missing"
    k = (path, st.st_mtime_ns, st.st_size, st.st_ino)
    h = _hc.get(k)
    if h is None:
        with open(path, "rb") as f:
            h = hashlib.sha256(f.read()).hexdigest()
        _hc[k] = h
    return h


def run(cmd, cwd=None):
    p = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    if p.returncode != 0:
        raise BuildError("command failed: %s\n%s" % (" ".join(cmd), p.stdout[-4000:]))
    return p.stdout


def key_of(cmd, deps):
    h = hashlib.sha256()
    h.update("\0".join(cmd).encode())
    for d in sorted(set(deps)):
        h.update(d.encode() + b"\0" + fhash(d).encode())
    return h.hexdigest()


def deps_of(dfile):
    try:
        t = open(dfile).read()
    except OSError:
        return None
    t = t.replace("\\\n", " ")
    t = t.split(":", 1)[1]
    return [os.path.normpath(x) for x in t.split() if not x.startswith("/usr/")]


# per-process global data of the MPI builds (see mc/mpi/mpi.c)
PROCDATA = ["--rename-section", ".data=mcdata,alloc,load,data,contents", "--rename-section", ".bss=mcbss,alloc"]
for _s in (".data.rel", ".data.rel.local"):
    PROCDATA += ["--rename-section", _s + "=mcdata,alloc,load,data,contents"]


def compile_obj(cc, src, obj, flags, post=()):
    """Returns True if the object was (re)compiled."""
    cmd = [cc, "-c", src] + flags + list(post)
    kf, df = obj + ".key", obj + ".d"
    deps = deps_of(df)
    if deps is not None and os.path.exists(obj):
        try:
            if open(kf).read() == key_of(cmd, deps):
                return False
        except OSError:
            pass
    os.makedirs(os.path.dirname(obj), exist_ok=True)
    for f in (kf, obj):
        if os.path.exists(f):
            os.unlink(f)
    run([cc, "-c", src] + flags + ["-MD", "-MF", df, "-o", obj])
    if post:
        run(["objcopy"] + list(post) + [obj])
    with open(kf, "w") as f:
        f.write(key_of(cmd, deps_of(df)))
    return True


def stamp_step(name, cmd, deps, outs, fn):
    """Runs fn() when the key of (cmd, deps) changed or an output is missing."""
    kf = name + ".key"
    k = key_of([str(c) for c in cmd], deps)
    if all(os.path.exists(o) for o in outs):
        try:
            if open(kf).read() == k:
                return False
        except OSError:
            pass
    if os.path.exists(kf):
        os.unlink(kf)
    fn()
    with open(kf, "w") as f:
        f.write(k)
    return True


def cmake_sources(fname, var):
    t = open(fname).read()
    t = re.sub(r"#[^\n]*", "", t)
    m = re.search(r"set\s*\(\s*%s\b(.*?)\)" % var, t, re.S)
    if not m:
        raise BuildError("no %s in %s" % (var, fname))
    r = []
    for w in m.group(1).split():
        if w.endswith(".c") and not w.startswith("$") and w not in r:
            r.append(w)
    return r


class Build:
    def __init__(self, variant):
        v = VARIANTS[variant]
        self.variant = variant
        self.v = v
        self.dir = os.path.join(ROOT, variant)
        self.inc = os.path.join(self.dir, "include")
        self.gen = os.path.join(self.dir, "gen")
        os.makedirs(self.inc, exist_ok=True)
        os.makedirs(self.gen, exist_ok=True)
        self.defs = BASEDEFS + v["defs"]
        self.cflags = list(v["cflags"])
        self.incs = ["-I", LIB, "-I", self.gen, "-I", self.inc]
        self.mpiinc = []

    # --- generated headers and parser -------------------------------------------------------------------
    def headers(self):
        heads = [os.path.join(LIB, f) for f in os.listdir(LIB) if f.endswith(".h")]
        tools = [("dummysizes", [], "library.h", "scotch.h"), ("dummysizes", [], "library_f.h", "scotchf.h")]
        mpi = ["-I", os.path.join(VERIF, "mc", "mpi")]
        if self.v["mpi"]:
            tools += [("ptdummysizes", ["-DSCOTCH_PTSCOTCH"] + mpi, "library_pt.h", "ptscotch.h"),
                      ("ptdummysizes", ["-DSCOTCH_PTSCOTCH"] + mpi, "library_pt_f.h", "ptscotchf.h")]
        done = set()
        base = [c for c in self.cflags if not c.startswith("-fsanitize") and c != "--coverage"]
        for tool, extra, i, o in tools:
            exe = os.path.join(self.gen, tool)
            if tool not in done:
                done.add(tool)
                cmd = ["gcc", "-O0", "-w"] + self.defs + extra + [os.path.join(LIB, "dummysizes.c"), "-o", exe]
                stamp_step(exe, cmd, heads + [os.path.join(LIB, "dummysizes.c")] +
                           ([os.path.join(VERIF, "mc", "mpi", "mpi.h")] if "-DSCOTCH_PTSCOTCH" in extra else []), [exe], lambda: run(cmd))
            out = os.path.join(self.inc, o)
            src = os.path.join(LIB, i)

            def gen():
                tmp = os.path.join(self.gen, i)
                with open(src, "rb") as a, open(tmp, "wb") as b:
                    b.write(a.read())
                run([exe, tmp, out])
            stamp_step(out, ["gen"], [exe, src], [out], gen)
        for d, i, o in (("libscotchmetis", "library_metis.h", "metis.h"), ("libscotchmetis", "library_parmetis.h", "parmetis.h"), ("esmumps", "library.h", "esmumps.h")):
            src = os.path.join(SRC, d, i)
            out = os.path.join(self.inc, o)
            exe = os.path.join(self.gen, "dummysizes")

            def gen2():
                tmp = os.path.join(self.gen, d + "_" + i)
                with open(src, "rb") as a, open(tmp, "wb") as b:
                    b.write(a.read())
                run([exe, tmp, out])
            stamp_step(out, ["gen"], [exe, src], [out], gen2)
        y, l = os.path.join(LIB, "parser_yy.y"), os.path.join(LIB, "parser_ll.l")

        def genp():
            for f in (y, l):
                with open(f, "rb") as a, open(os.path.join(self.gen, os.path.basename(f)), "wb") as b:
                    b.write(a.read())
            run(["bison", "-pscotchyy", "--defines=parser_ly.h", "--output=parser_yy.c", "parser_yy.y"], cwd=self.gen)
            run(["flex", "-Pscotchyy", "-oparser_ll.c", "parser_ll.l"], cwd=self.gen)
        stamp_step(os.path.join(self.gen, "parser"), ["parser"], [y, l],
                   [os.path.join(self.gen, f) for f in ("parser_yy.c", "parser_ly.h", "parser_ll.c")], genp)

    def _objs(self, sub, srcs, flags):
        jobs = []
        for s in srcs:
            obj = os.path.join(self.dir, "obj", sub, os.path.basename(s)[:-2] + ".o")
            jobs.append((s, obj))
        with ThreadPoolExecutor(JOBS) as ex:
            n = sum(1 for r in ex.map(lambda j: compile_obj("gcc", j[0], j[1], flags, PROCDATA if self.v["mpi"] else ()), jobs) if r)
        return [o for _, o in jobs], n

    def _archive(self, name, objs, n):
        a = os.path.join(self.dir, name)
        lst = a + ".lst"
        want = "\n".join(objs)
        if n == 0 and os.path.exists(a) and os.path.exists(lst) and open(lst).read() == want:
            return a
        if os.path.exists(a):
            os.unlink(a)
        run(["ar", "rcs", a] + objs)
        with open(lst, "w") as f:
            f.write(want)
        return a

    def scotch(self):
        """The sequential library (without its error module: harnesses bring their own)."""
        if getattr(self, "lib0", None):
            return self.lib0
        self.headers()
        cm = os.path.join(LIB, "CMakeLists.txt")
        srcs = cmake_sources(cm, "SCOTCH_C_SOURCES")
        for f in ("library_graph_dump.c", "graph_dump.c"):
            if f not in srcs and os.path.exists(os.path.join(LIB, f)):
                srcs.append(f)
        paths = [os.path.join(LIB, s) for s in srcs] + [os.path.join(self.gen, f) for f in ("parser_yy.c", "parser_ll.c")]
        objs, n = self._objs("scotch", paths, self.cflags + self.defs + self.incs)
        self.lib0 = self._archive("libscotch.a", objs, n)
        return self.lib0

    def ptscotch(self):
        self.headers()
        cm = os.path.join(LIB, "CMakeLists.txt")
        srcs = cmake_sources(cm, "PTSCOTCH_C_SOURCES")
        paths = [os.path.join(LIB, s) for s in srcs]
        objs, n = self._objs("ptscotch", paths, self.cflags + self.defs + ["-DSCOTCH_PTSCOTCH"] + self.incs)
        return self._archive("libptscotch.a", objs, n)

    def esmumps(self):
        self.headers()
        d = os.path.join(SRC, "esmumps")
        srcs = [os.path.join(d, f) for f in sorted(os.listdir(d)) if f.endswith(".c") and not f.startswith("test_") and f != "symbol_fax.c"]
        objs, n = self._objs("esmumps", srcs, self.cflags + self.defs + self.incs)
        return self._archive("libesmumps.a", objs, n)

    def metis(self, version):
        self.headers()
        d = os.path.join(SRC, "libscotchmetis")
        srcs = [os.path.join(d, f) for f in sorted(os.listdir(d)) if f.startswith("metis_") and f.endswith(".c")]
        objs, n = self._objs("metis%d" % version, srcs, self.cflags + self.defs + ["-DSCOTCH_METIS_VERSION=%d" % version] + self.incs)
        return self._archive("libscotchmetisv%d.a" % version, objs, n)

    def parmetis(self):
        self.headers()
        d = os.path.join(SRC, "libscotchmetis")
        srcs = [os.path.join(d, f) for f in sorted(os.listdir(d)) if f.startswith("parmetis_") and f.endswith(".c")]
        objs, n = self._objs("parmetis", srcs, self.cflags + self.defs + ["-DSCOTCH_PTSCOTCH", "-DSCOTCH_METIS_VERSION=3"] + self.incs)
        return self._archive("libparmetis.a", objs, n)

    def program(self, name, srcs=None, extra=(), libs=None):
        """A command-line program of src/scotch, linked with the exiting error module."""
        lib = self.scotch()
        srcs = [os.path.join(SRC, "scotch", s) for s in (srcs or [name + ".c"])]
        err = os.path.join(LIB, "library_error_exit.c")
        fl = self.cflags + self.defs + self.incs + list(extra)
        o1 = []
        for s in srcs:
            o1.append(os.path.join(self.dir, "obj", "prog", name + "-" + os.path.basename(s)[:-2] + ".o"))
            compile_obj("gcc", s, o1[-1], fl)
        o2 = os.path.join(self.dir, "obj", "prog", "library_error_exit.o")
        compile_obj("gcc", err, o2, self.cflags + self.defs + self.incs)
        exe = os.path.join(self.dir, "prog", name)
        os.makedirs(os.path.dirname(exe), exist_ok=True)
        cmd = ["gcc"] + o1 + [o2, lib] + self.v["ldflags"] + ["-lz", "-lbz2", "-llzma", "-lm", "-lpthread", "-o", exe]
        stamp_step(exe, cmd, o1 + [o2, lib], [exe], lambda: run(cmd))
        return exe

    def harness(self, name, srcs, libs, flags=(), ldflags=(), nosan=()):
        """Links harness sources (in /verif) with library archives. nosan: sources built without -fsanitize."""
        objs = []
        for s in srcs:
            p = os.path.join(VERIF, s)
            o = os.path.join(self.dir, "obj", "h_" + name, os.path.basename(s).replace(".c", ".o"))
            cf = self.cflags
            if s in nosan:
                cf = [c for c in cf if not c.startswith("-fsanitize")]
            cf = [c for c in cf if c != "-w"] + ["-Wall", "-Wno-unused"]
            compile_obj("gcc", p, o, cf + self.defs + self.incs + ["-I", os.path.join(VERIF, "mc")] + list(flags))
            objs.append(o)
        exe = os.path.join(self.dir, "bin", name)
        os.makedirs(os.path.dirname(exe), exist_ok=True)
        cmd = ["gcc"] + objs + ["-Wl,--start-group"] + list(libs) + ["-Wl,--end-group"] + self.v["ldflags"] + list(ldflags) + ["-lz", "-lbz2", "-llzma", "-lm", "-lpthread", "-o", exe]
        stamp_step(exe, cmd, objs + list(libs), [exe], lambda: run(cmd))
        return exe


if __name__ == "__main__":
    import time
    t = time.time()
    for v in sys.argv[1:]:
        b = Build(v)
        print(b.scotch())
        if VARIANTS[v]["mpi"]:
            print(b.ptscotch())
        print(time.time() - t)
