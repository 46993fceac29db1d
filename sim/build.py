#!/usr/bin/env python3
"""Builds the QDng sources of a tree (default /repo) plus the simulator into /verif/build/<variant>.

No file of the tree is written.  Objects are cached under a key that covers the contents of every header
and source they can see, so a changed tree is always recompiled.
"""
import concurrent.futures, hashlib, os, re, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("QDNG_REPO", "/repo")
SRC = os.path.join(REPO, "src")
OUT = os.environ.get("QDSIM_BUILD", os.path.join(VERIF, "build"))

LIB_DIRS = [("tools", "libtools_la_SOURCES"), ("qdlib", "libqd_la_SOURCES"), ("fft", "libfft_la_SOURCES"),
            ("linalg", "liblinalg_la_SOURCES"), ("math", "libmath_la_SOURCES"),
            ("modules", "libModuleLoader_la_SOURCES")]
PROTOS = [("tools", "FileSingleHeader"), ("qdlib", "GridSystem"), ("", "IACmds")]
PROG = ["qdng_SOURCES", "qdz_SOURCES", "qdinfo_SOURCES"]

WRAPS = ["fftw_plan_dft", "fftw_plan_dft_1d", "fftw_plan_guru_dft", "fftw_import_wisdom_from_file",
         "fftw_export_wisdom_to_file"]

VARIANTS = {
    # name: (extra compiler flags for the QDng sources, flags of the simulator, simulator sources)
    "plain": (["-O1", "-g1"], ["-O1", "-g1"]),
    "tsan": (["-O0", "-g1", "-fsanitize=thread", "-DQDSIM_TSAN"], ["-O1", "-g1", "-DQDSIM_TSAN"]),
}


def am_var(path, var):
    text = open(path).read().replace("\\\n", " ")
    m = re.search(r"^%s\s*=\s*(.*)$" % re.escape(var), text, re.M)
    return m.group(1).split() if m else []


def sh(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    return r.returncode, r.stdout


def digest(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode())
        h.update(b"\0")
    return h.hexdigest()[:24]


def read(p):
    with open(p, "rb") as f:
        return f.read()


class Build:
    def __init__(self, variant, jobs=None):
        self.variant = variant
        self.qd_flags, self.sim_flags = VARIANTS[variant]
        self.dir = os.path.join(OUT, variant)
        self.gen = os.path.join(OUT, "gen")
        self.obj = os.path.join(OUT, "obj")
        self.jobs = jobs or os.cpu_count() or 4
        for d in (self.dir, self.gen, self.obj):
            os.makedirs(d, exist_ok=True)

    def generate(self):
        for d, n in PROTOS:
            src = os.path.join(SRC, d, n + ".proto")
            dst = os.path.join(self.gen, d)
            os.makedirs(dst, exist_ok=True)
            key = digest(read(src))
            stamp = os.path.join(dst, n + ".stamp")
            if os.path.exists(stamp) and open(stamp).read() == key and os.path.exists(os.path.join(dst, n + ".pb.cc")):
                continue
            rc, out = sh(["protoc", "--proto_path=" + os.path.dirname(src), "--cpp_out=" + dst, src])
            if rc:
                raise SystemExit("protoc failed:\n" + out)
            open(stamp, "w").write(key)
        sx = os.path.join(self.gen, "simpleXml")
        os.makedirs(sx, exist_ok=True)
        y, l = os.path.join(SRC, "simpleXml", "grammar.yy"), os.path.join(SRC, "simpleXml", "simpleXml.ll")
        key = digest(read(y), read(l))
        stamp = os.path.join(sx, "stamp")
        if not (os.path.exists(stamp) and open(stamp).read() == key):
            rc, out = sh(["bison", "-d", "-o", os.path.join(sx, "grammar.cc"), y])
            if rc:
                raise SystemExit("bison failed:\n" + out)
            for h in ("grammar.hh",):
                if os.path.exists(os.path.join(sx, h)):
                    open(os.path.join(sx, "grammar.h"), "wb").write(read(os.path.join(sx, h)))
            rc, out = sh(["flex", "-o", os.path.join(sx, "simpleXml.cc"), l])
            if rc:
                raise SystemExit("flex failed:\n" + out)
            open(stamp, "w").write(key)

    def headers_key(self):
        h = hashlib.sha256()
        for base in (SRC, self.gen, os.path.join(HERE, "config")):
            for root, dirs, files in sorted(os.walk(base)):
                dirs.sort()
                if "/tests" in root:
                    continue
                for f in sorted(files):
                    if f.endswith((".h", ".hh", ".orig")):
                        p = os.path.join(root, f)
                        h.update(os.path.relpath(p, base).encode() + b"\0" + read(p))
        return h.hexdigest()

    def sim_headers_key(self):
        h = hashlib.sha256()
        for f in sorted(os.listdir(HERE)):
            if f.endswith((".h", ".hpp", ".inc")):
                h.update(f.encode() + read(os.path.join(HERE, f)))
        return h.hexdigest()

    def sim_sources(self):
        return sorted(f for f in os.listdir(HERE) if f.endswith(".cpp"))

    def units(self, with_prog):
        u = []  # (kind, path, extra flags)
        for d, var in LIB_DIRS:
            for f in am_var(os.path.join(SRC, d, "Makefile.am"), var):
                if f.endswith(".cpp"):
                    u.append(("qd", os.path.join(SRC, d, f), []))
        u.append(("gen", os.path.join(self.gen, "tools/FileSingleHeader.pb.cc"), []))
        u.append(("gen", os.path.join(self.gen, "qdlib/GridSystem.pb.cc"), []))
        for f in am_var(os.path.join(SRC, "slatec", "Makefile.am"), "libslatecmin_la_SOURCES"):
            if f.endswith(".f"):
                u.append(("f77", os.path.join(SRC, "slatec", f), []))
        if with_prog:
            seen = set()
            for var in PROG:
                for f in am_var(os.path.join(SRC, "Makefile.am"), var):
                    if f.endswith(".cpp") and f not in seen:
                        seen.add(f)
                        ex = []
                        if f in ("qdng.cpp", "qdz.cpp", "qdng_info.cpp"):
                            ex = ["-Dmain=%s_main" % f[:-4]]
                        u.append(("qd", os.path.join(SRC, f), ex))
            u.append(("gen", os.path.join(self.gen, "IACmds.pb.cc"), []))
            u.append(("gen", os.path.join(self.gen, "simpleXml/grammar.cc"), []))
            u.append(("gen", os.path.join(self.gen, "simpleXml/simpleXml.cc"), []))
            u.append(("qd", os.path.join(SRC, "simpleXml/Simple2Xml.cpp"), []))
        return u

    def compile(self, sim_sources, with_prog=True, verbose=False):
        t0 = time.time()
        self.generate()
        hk, shk = self.headers_key(), self.sim_headers_key()
        inc = ["-I" + os.path.join(HERE, "config"), "-I" + os.path.join(self.gen, "simpleXml"), "-I" + self.gen,
               "-I" + os.path.join(self.gen, "tools"), "-I" + os.path.join(self.gen, "qdlib"),
               "-I" + SRC, "-I" + os.path.join(SRC, "simpleXml"), "-I/usr/include/libxml2"]
        common = ["-DHAVE_CONFIG_H", "-fopenmp", "-w", '-DQDNG_BUILD_DATE="sim"', '-DQDNG_BUILD_HOST="sim"',
                  '-DQDNG_BUILD_MACH="sim"', '-DQDNG_REV="sim"', "-fno-omit-frame-pointer"]
        todo, objs = [], []
        for kind, path, ex in self.units(with_prog):
            if kind == "f77":
                cmd = ["gfortran", "-O2", "-w", "-c", path]
                key = digest(" ".join(cmd[:-1]), read(path))
            else:
                cmd = ["g++"] + self.qd_flags + common + ex + inc + ["-I" + os.path.dirname(path), "-c", path]
                key = digest(" ".join(cmd), read(path), hk)
            o = os.path.join(self.obj, key + ".o")
            objs.append(o)
            if not os.path.exists(o):
                todo.append((cmd, o, os.path.getsize(path)))
        for f in sim_sources:
            path = os.path.join(HERE, f)
            if f.endswith(".S"):
                cmd = ["gcc", "-c", path]
                key = digest(" ".join(cmd), read(path))
            else:
                flags = self.qd_flags if f.startswith("omp_") else self.sim_flags   # omp_*: parallel code of its own
                cmd = ["g++"] + flags + ["-std=gnu++17"] + common + inc + ["-I" + HERE, "-c", path]
                text = read(path)
                parts = [read(os.path.join(SRC, i)) for i in re.findall(r'#include "(\S+\.cpp)"', text.decode())]
                key = digest(" ".join(cmd), text, hk, shk, *parts)
            o = os.path.join(self.obj, key + ".o")
            objs.append(o)
            if not os.path.exists(o):
                todo.append((cmd, o, 10 ** 7))
        todo.sort(key=lambda t: -t[2])

        def one(t):
            cmd, o, _ = t
            tmp = o + ".%d.tmp" % os.getpid()
            rc, out = sh(cmd + ["-o", tmp])
            if rc == 0:
                os.rename(tmp, o)
            return rc, cmd, out

        with concurrent.futures.ThreadPoolExecutor(self.jobs) as ex:
            for rc, cmd, out in ex.map(one, todo):
                if rc:
                    raise SystemExit("BUILD-ERROR: %s\n%s" % (" ".join(cmd), out[-4000:]))
        return objs, len(todo), time.time() - t0

    def link(self, name, objs, wraps=WRAPS):
        exe = os.path.join(self.dir, name)
        key = digest(name, *[os.path.basename(o) for o in objs], *wraps)
        stamp = exe + ".key"
        if os.path.exists(exe) and os.path.exists(stamp) and open(stamp).read() == key:
            return exe
        tmp = exe + ".%d.tmp" % os.getpid()
        rsp = tmp + ".rsp"
        open(rsp, "w").write("\n".join(objs))
        # the OpenMP runtime is the simulator's own: libgomp is not linked (only pulled in by libfftw3_omp, whose
        # calls are interposed by the symbols of the executable)
        cmd = ["g++", "-rdynamic", "-o", tmp, "@" + rsp] + ["-Wl,--wrap=" + w for w in wraps] + [
            "-lfftw3", "-lfftw3_omp", "-llapack", "-lblas", "-lxml2", "-lprotobuf", "-lgfortran", "-lbz2", "-lz",
            "-ldl", "-lpthread", "-lm"]
        rc, out = sh(cmd)
        os.unlink(rsp)
        if rc:
            raise SystemExit("BUILD-ERROR (link):\n" + out[-6000:])
        os.rename(tmp, exe)
        open(stamp, "w").write(key)
        return exe


if __name__ == "__main__":
    v = sys.argv[1] if len(sys.argv) > 1 else "plain"
    b = Build(v)
    objs, n, t = b.compile(sys.argv[2:])
    print("compiled %d units in %.1f s" % (n, t))
