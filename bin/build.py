#!/usr/bin/env python3
"""Builds the simulator binaries from /repo's *working tree* (never from its build directory).

usage: build.py <variant> [--print]      variant: fault | sched
  fault : AddressSanitizer build, all I/O / allocation / syscall seams wrapped   -> .build/fault/sim
  sched : clang -fsanitize=thread instrumentation linked against OUR runtime
          (sim/sched/tsrt.cpp), i.e. every shared access is a scheduling point    -> .build/sched/sim
"""
import os, re, sys, glob, subprocess, fcntl, time, shutil

# only the system toolchain, whatever PATH the caller has
os.environ["PATH"] = "/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin"

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("LIBCZI_REPO", "/repo")
OUTROOT = os.environ.get("VERIF_BUILD", os.path.join(VERIF, ".build"))
SRC = os.path.join(OUTROOT, "src")     # content-synchronised mirror of REPO/Src (see mirror())

def mirror():
    """Mirror REPO/Src by content, so that what gets recompiled depends on what the files contain and never on their time stamps."""
    src, want = os.path.join(REPO, "Src"), set()
    for sub in ("libCZI", "libCZIAPI", "JxrDecode"):
        for d, dirs, files in os.walk(os.path.join(src, sub)):
            rel = os.path.relpath(d, src)
            os.makedirs(os.path.join(SRC, rel), exist_ok=True)
            for f in files:
                if not f.endswith((".cpp", ".c", ".h", ".hpp", ".inl", ".inc", ".in", ".cxx", ".cc")): continue
                r = os.path.join(rel, f); want.add(r)
                data = open(os.path.join(src, r), "rb").read(); t = os.path.join(SRC, r)
                if not os.path.exists(t) or open(t, "rb").read() != data:
                    with open(t, "wb") as o: o.write(data)
    for d, dirs, files in os.walk(SRC):
        for f in files:
            if os.path.relpath(os.path.join(d, f), SRC) not in want: os.unlink(os.path.join(d, f))

ON = {"libCZI_HAVE_ENDIAN_H": "1"}

def configure(template, out):
    """The two *_Config.h.in files of the repository, resolved as on this platform."""
    t = open(template).read()
    def val(name):
        n = name.upper()
        table = {
            "LIBCZI_VERSION_MAJOR": "0", "LIBCZI_VERSION_MINOR": "0", "LIBCZI_VERSION_PATCH": "0", "LIBCZI_VERSION_TWEAK": "",
        }
        if n in table: return table[n]
        if "VERSION" in n and "AZURE" not in n: return "0"
        if "COMPILER" in n or "REPOSITORY" in n or "AZURESDK_VERSION" in n: return "sim"
        if "BIGENDIAN" in n or "BIG_ENDIAN" in n: return "0"
        if "HAVE_ENDIAN_H" in n: return "1"
        if "HAVE_ALIGNED_ALLOC" in n: return "1"
        if "PREADPWRITE" in n: return "1"
        if "CURL" in n: return "1"
        if "BUILTIN_BSWAP32" in n: return "1"
        if "ROTL" in n and "X86INTRIN" in n: return "1"
        return "0"
    t = re.sub(r"@([A-Za-z0-9_]+)@", lambda m: val(m.group(1)), t)
    t = re.sub(r"\$\{([A-Za-z0-9_]+)\}", lambda m: val(m.group(1)), t)
    t = re.sub(r"#cmakedefine01\s+(\w+)", lambda m: "#define %s %s" % (m.group(1), val(m.group(1))), t)
    old = open(out).read() if os.path.exists(out) else None
    if old != t:
        open(out, "w").write(t)

def gen(variant):
    out = os.path.join(OUTROOT, variant)
    cfg = os.path.join(out, "cfg"); os.makedirs(cfg, exist_ok=True)
    configure(os.path.join(SRC, "libCZI", "libCZI_Config.h.in"), os.path.join(cfg, "libCZI_Config.h"))
    configure(os.path.join(SRC, "JxrDecode", "JxrDecode_Config.h.in"), os.path.join(cfg, "JxrDecode_Config.h"))
    lib = sorted(glob.glob(SRC + "/libCZI/*.cpp") + glob.glob(SRC + "/libCZI/StreamsLib/*.cpp"))
    api = sorted(glob.glob(SRC + "/libCZIAPI/src/*.cpp"))
    jxr = sorted(glob.glob(SRC + "/JxrDecode/**/*.c", recursive=True) + glob.glob(SRC + "/JxrDecode/**/*.cpp", recursive=True))
    common = "-g1 -DNDEBUG -D_FILE_OFFSET_BITS=64 -D_LIBCZISTATICLIB -D_LIBCZIAPISTATICLIB -fno-omit-frame-pointer -ftrivial-auto-var-init=pattern -w"
    incl = "-I%s -I%s -I%s -isystem /usr/include/eigen3" % (cfg, SRC, SRC + "/libCZI")
    if variant == "fault":
        san = "-O1 -fsanitize=address,bounds -fno-sanitize-recover=all"
        ourflags = san
        sim = sorted(glob.glob(VERIF + "/sim/core/*.cpp") + glob.glob(VERIF + "/sim/fault/*.cpp"))
        wraps = open(VERIF + "/sim/fault/wraps.txt").read().split()
        # libcurl is replaced by the simulated network (sim/fault/curl_stub.cpp)
        ldflags = san + " " + " ".join("-Wl,--wrap=" + w for w in wraps) + " -l:libzstd.a -lpthread -ldl"
    else:
        san = "-O1 -fsanitize=thread -mllvm -tsan-instrument-func-entry-exit=0"
        ourflags = san
        sim = sorted(glob.glob(VERIF + "/sim/core/*.cpp") + glob.glob(VERIF + "/sim/sched/*.cpp")) + [VERIF + "/sim/fault/curl_stub.cpp"]
        wraps = open(VERIF + "/sim/sched/wraps.txt").read().split()
        ldflags = "-rdynamic " + " ".join("-Wl,--wrap=" + w for w in wraps) + " -lzstd -lpthread -ldl"
    L = []
    w = L.append
    w("builddir = %s" % out)
    w("rule cxx\n  command = $cc $flags -MMD -MF $out.d -c $in -o $out\n  depfile = $out.d\n  deps = gcc\n  description = CC $in")
    w("rule link\n  command = clang++ --ld-path=/usr/bin/ld.lld $in -o $out $ldflags\n  description = LINK $out")
    objs = []
    def add(src, cc, flags):
        o = os.path.join(out, "o", re.sub(r"[^A-Za-z0-9_.]", "_", os.path.relpath(src, "/")) + ".o")
        objs.append(o)
        w("build %s: cxx %s\n  cc = %s\n  flags = %s" % (o, src, cc, flags))
    for s in lib: add(s, "clang++", "-std=gnu++14 %s %s %s" % (san, common, incl))
    for s in api: add(s, "clang++", "-std=gnu++17 %s %s %s" % (san, common, incl))
    for s in jxr:
        if s.endswith(".c"): add(s, "clang", "%s %s %s -Wno-error" % (san, common, incl))
        else: add(s, "clang++", "-std=gnu++14 %s %s %s" % (san, common, incl))
    for s in sim:
        fl = ourflags
        if variant == "sched" and os.path.basename(s) == "tsrt.cpp":
            fl = "-O2 -fno-sanitize=all"
        add(s, "clang++", "-std=gnu++17 %s %s %s -I%s/sim -I%s/libCZIAPI/inc -DSIM_%s" % (fl, common, incl, VERIF, SRC, variant.upper()))
    exe = os.path.join(out, "sim")
    w("build %s: link %s\n  ldflags = %s" % (exe, " ".join(objs), ldflags))
    w("default %s" % exe)
    nf = os.path.join(out, "build.ninja")
    txt = "\n".join(L) + "\n"
    if not os.path.exists(nf) or open(nf).read() != txt:
        open(nf, "w").write(txt)
    return out, nf, exe

def build(variant, quiet=True):
    os.makedirs(OUTROOT, exist_ok=True)
    with open(os.path.join(OUTROOT, "lock"), "w") as lock:     # one build at a time in this directory
        fcntl.flock(lock, fcntl.LOCK_EX)
        return build_locked(variant)

def build_locked(variant):
    mirror()
    out, nf, exe = gen(variant)
    # files that seem to come from the future (the clock was set back): time stamps cannot be trusted
    now = time.time()
    if any(e.stat().st_mtime > now + 2 for e in os.scandir(os.path.join(out, "o"))) if os.path.isdir(os.path.join(out, "o")) else False:
        shutil.rmtree(os.path.join(out, "o"))
    p = subprocess.run(["ninja", "-f", nf], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        sys.stdout.write(p.stdout[-6000:])
        raise SystemExit("BUILD FAILED (%s)" % variant)
    return exe

if __name__ == "__main__":
    for v in (["fault"] + (["sched"] if os.path.exists(VERIF + "/sim/sched/wraps.txt") else []) if sys.argv[1] == "--all" else sys.argv[1:2]):
        print(build(v))
