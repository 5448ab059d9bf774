#!/usr/bin/env python3
"""Builds /verif/build: the simulator (sim) and the code under test of /repo's working tree (sut0.so ...).
usage: build.py [--sim-only]"""
import fcntl, glob, hashlib, os, re, shutil, subprocess, sys, concurrent.futures as cf
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = os.environ.get("LSMDB_REPO", "/repo")
B = os.environ.get("LSMDB_BUILD", os.path.join(V, "build"))
NIMG = 6
CXX = "clang++"
SIMFLAGS = ["-std=c++17", "-O2", "-g", "-Wall", "-fno-exceptions", "-I" + V]
SUTFLAGS = ["-std=gnu++11", "-Wno-c++11-narrowing", "-Wno-reserved-user-defined-literal", "-O1", "-g", "-fno-finite-loops", "-fPIC", "-fsanitize=thread", "-fno-exceptions", "-fno-rtti", "-femulated-tls", "-fno-builtin", "-fstack-protector-strong",
            "-U_FORTIFY_SOURCE", "-D_FORTIFY_SOURCE=0", "-w", "-DLSMDB_PLATFORM_POSIX=1", "-DLSMDB_COMPILE_LIBRARY", "-I" + B + "/include", "-I" + R, "-I" + R + "/include", "-I" + V + "/sut"]

def run(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if r.returncode:
        sys.stderr.write("build failed: " + " ".join(cmd) + "\n" + r.stdout + "\n")
        sys.exit(2)
    return r.stdout

def digest(files, extra):
    h = hashlib.sha256(repr(extra).encode())
    for f in files:
        h.update(f.encode()); h.update(open(f, "rb").read())
    return h.hexdigest()

def stale(stamp, d, outs):
    return not (os.path.exists(stamp) and open(stamp).read() == d and all(os.path.exists(o) for o in outs))

def build_sim():
    src = sorted(glob.glob(V + "/sim/*.cc"))
    deps = src + sorted(glob.glob(V + "/sim/*.h")) + [V + "/sim/fiber.S", V + "/sut/adapter.h"]
    out = B + "/sim"
    d = digest(deps, SIMFLAGS)
    if not stale(B + "/sim.stamp", d, [out]): return
    os.makedirs(B + "/simobj", exist_ok=True)
    hd = digest([f for f in deps if f.endswith(".h")], SIMFLAGS)
    jobs = []
    for s in src:
        o = B + "/simobj/" + os.path.basename(s)[:-3] + ".o"
        sd = digest([s], hd)
        if stale(o + ".stamp", sd, [o]): jobs.append((s, o, sd))
    def one(j):
        run([CXX] + SIMFLAGS + ["-c", j[0], "-o", j[1]]); open(j[1] + ".stamp", "w").write(j[2])
    with cf.ThreadPoolExecutor(8) as ex: list(ex.map(one, jobs))
    run(["clang", "-c", V + "/sim/fiber.S", "-o", B + "/simobj/fiber.o"])
    objs = [B + "/simobj/" + os.path.basename(s)[:-3] + ".o" for s in src] + [B + "/simobj/fiber.o"]
    run([CXX, "-rdynamic", "-o", out] + objs + ["-ldl", "-lpthread"])
    open(B + "/sim.stamp", "w").write(d)

BENIGN = re.compile(r"^(_ZTT|_ZNS?t|_ZNKS?t|_ZS?t|_ZTI|_ZTV|_ZTS|_ZN[KS]|_Zn|_Zd|_ZSt|__tsan_|__cxa_|__gxx|_Unwind|__emutls|_GLOBAL_OFFSET_TABLE_|__dso_handle|mem|str|sprintf|snprintf|vsnprintf|stderr|stdout|atoi|strto|is[a-z]+$|to(lower|upper)|qsort|bsearch|abs|log|pow|_ITM|__gmon)")

def build_sut():
    src = sorted(set(glob.glob(R + "/util/**/*.cc", recursive=True) + glob.glob(R + "/db/**/*.cc", recursive=True) + glob.glob(R + "/helpers/**/*.cc", recursive=True)
                     + glob.glob(R + "/table/**/*.cc", recursive=True) + glob.glob(R + "/port/**/*.cc", recursive=True)))
    src = [s for s in src if not re.search(r"(_test|_bench|/test_util|/testutil|/lsmdb_util|_windows)\.cc$", s)]
    hdr = []
    for d in ("util", "db", "helpers", "table", "port", "include"):
        for p, _, fs in os.walk(os.path.join(R, d)):
            hdr += [os.path.join(p, f) for f in fs if re.search(r"\.(h|hpp|inc|in|inl)$", f)]
    hdr = sorted(hdr)
    src.append(V + "/sut/adapter.cc")
    outs = ["%s/sut%d.so" % (B, i) for i in range(NIMG)]
    d = digest(src + hdr + [V + "/sut/adapter.h", __file__, B + "/sim"], SUTFLAGS)
    if not stale(B + "/sut.stamp", d, outs): return
    shutil.rmtree(B + "/include", ignore_errors=True); os.makedirs(B + "/include/port")
    cfg = open(R + "/port/port_config.h.in").read()
    have = {"HAVE_FDATASYNC": 1, "HAVE_FULLFSYNC": 0, "HAVE_O_CLOEXEC": 1, "HAVE_CRC32C": 0, "HAVE_SNAPPY": 0}
    cfg = re.sub(r"#cmakedefine01\s+(\w+)", lambda m: "#define %s %d" % (m.group(1), have.get(m.group(1), 0)), cfg)
    cfg = re.sub(r"#cmakedefine\s+(\w+).*", lambda m: "#define %s 1" % m.group(1) if have.get(m.group(1)) else "/* %s undefined */" % m.group(1), cfg)
    open(B + "/include/port/port_config.h", "w").write(cfg)
    shutil.rmtree(B + "/sutobj", ignore_errors=True); os.makedirs(B + "/sutobj")
    objs = []
    for s in src: objs.append((s, B + "/sutobj/" + re.sub(r"[^A-Za-z0-9]", "_", os.path.relpath(s, R if s.startswith(R) else V)) + ".o"))
    def compile(j):   # g++ -std=gnu++11, which builds /repo, lets more of later standards pass than clang++ does
        if subprocess.run([CXX] + SUTFLAGS + ["-c", j[0], "-o", j[1]], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode:
            run([CXX] + ["-std=gnu++17" if f == "-std=gnu++11" else f for f in SUTFLAGS] + ["-c", j[0], "-o", j[1]])
    with cf.ThreadPoolExecutor(8) as ex: list(ex.map(compile, objs))
    exported = set(l.split()[-1] for l in run(["nm", "-D", "--defined-only", B + "/sim"]).splitlines())
    undef = set(); defined = set()
    for _, o in objs:
        for l in run(["nm", o]).splitlines():
            t = l.split()
            if t[-2] in "Uw": undef.add(t[-1])
            elif len(t) == 3: defined.add(t[-1])
    ren = sorted(u for u in undef if "sim_" + u in exported)
    open(B + "/redefine.txt", "w").write("".join("%s sim_%s\n" % (u, u) for u in ren))
    for _, o in objs: run(["objcopy", "--redefine-syms=" + B + "/redefine.txt", o])
    real = sorted(u for u in undef if u not in ren and u not in defined and u not in exported)
    open(B + "/passthrough.txt", "w").write("".join(u + ("" if BENIGN.match(u) else "   # not simulated") + "\n" for u in real))
    for u in real:
        if not BENIGN.match(u): sys.stderr.write("note: %s is called for real by the code under test\n" % u)
    open(B + "/ver.map", "w").write("{ global: lsmdb_sim_api; local: *; };\n")
    run([CXX, "-shared", "-Wl,-Bsymbolic", "-Wl,-z,now", "-Wl,--version-script=" + B + "/ver.map", "-o", B + "/sut.so"] + [o for _, o in objs])
    for o in outs: shutil.copyfile(B + "/sut.so", o)
    open(B + "/sut.stamp", "w").write(d)

def main():
    os.makedirs(B, exist_ok=True)
    with open(B + "/lock", "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        build_sim()
        if "--sim-only" not in sys.argv: build_sut()
main()
