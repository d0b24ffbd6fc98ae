#!/usr/bin/env python3
"""Builds the simulator binary from /repo's current working tree (and nothing built before by /repo's own build).

The sources of the library are compiled with -fsanitize=thread only for the callbacks the compiler
inserts; the ThreadSanitizer runtime is not linked, sim/core.cpp implements the callbacks."""
import glob, hashlib, json, os, re, shutil, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
OUT = os.environ.get("VERIF_BUILD", os.path.join(HERE, "build"))
SRC = os.path.join(REPO, "src/icl_core/src")
LIBS = ["icl_core", "icl_core_config", "icl_core_logging", "icl_core_thread", "icl_core_dispatch",
        "icl_core_plugin", "icl_core_performance_monitor"]
SKIP = re.compile(r"(lxrt|win32|darwin|qnx|example_usage|Lxrt|Win32|Darwin|QNX)", re.I)
DEFS = ("-DTIXML_USE_STL -D_IC_BUILDER_DEPRECATED_STYLE_ -D_IC_BUILDER_ENABLE_BASE_TYPES_ "
        "-D_SYSTEM_IDENTIFIER_=x86_64.Linux -D_SYSTEM_LINUX_ -D_SYSTEM_POSIX_ -D_IC_BUILDER_HAS_TIME_H_ "
        "-D_IC_BUILDER_HAS_SYS_TIME_H_ -D_IC_BUILDER_PTHREAD_ -D_IC_BUILDER_Pthread_ -D_IC_BUILDER_SQLITE3_ "
        "-D_IC_BUILDER_SQLite3_ -D_IC_BUILDER_BOOST_REGEX_ -D_IC_BUILDER_BOOST_ -DBOOST_ALL_NO_LIB -DBOOST_DYN_LINK "
        "-D_IC_BUILDER_BOOST_FILESYSTEM_ -D_IC_BUILDER_BOOST_SYSTEM_ -D_IC_BUILDER_ZLIB_ -D_IC_BUILDER_EIGEN3_ "
        "-D_IC_BUILDER_EIGEN_ -D_IC_BUILDER_ICL_CORE_ -D_IC_BUILDER_ICL_CORE_CONFIG_ -D_IC_BUILDER_BOOST_DATE_TIME_ "
        "-D_IC_BUILDER_TINYXML_ -D_IC_BUILDER_ICL_CORE_LOGGING_ -D_IC_BUILDER_ICL_CORE_PLUGIN_ "
        "-DBOOST_ATOMIC_DYN_LINK -DBOOST_FILESYSTEM_DYN_LINK -DBOOST_REGEX_DYN_LINK")
WRAP = ["dlopen", "dlsym", "dlclose", "dlerror", "memcpy", "memmove", "memset", "memcmp", "strlen", "strncpy", "strcpy"]

def q(s): return s.replace("$", "$$").replace(" ", "$ ").replace(":", "$:")

def forget_stale():
    """ninja goes by modification times; a source that changed without getting a newer one forces a full build."""
    stamp = os.path.join(OUT, "sources.json")
    old = {}
    if os.path.exists(stamp):
        try: old = json.load(open(stamp))
        except ValueError: old = {}
    now = {}
    for root in (SRC, os.path.join(HERE, "sim"), os.path.join(HERE, "scn")):
        for d, _, fs in os.walk(root):
            for f in fs:
                if f.endswith((".cpp", ".h", ".hpp")):
                    p = os.path.join(d, f)
                    now[p] = [hashlib.sha1(open(p, "rb").read()).hexdigest(), os.path.getmtime(p)]
    when = old.get("built", 0)
    known = old.get("files", {})
    if any(p not in now or (now[p][0] != h and now[p][1] <= when) for p, (h, m) in known.items()) or any(p not in known and now[p][1] <= when for p in now):
        shutil.rmtree(os.path.join(OUT, "obj"), ignore_errors=True)
    return stamp, now

def main():
    stamp, now = forget_stale()
    os.makedirs(os.path.join(OUT, "obj"), exist_ok=True)
    began = time.time()
    rules = []
    w = rules.append
    w("ninja_required_version = 1.3\nbuilddir = %s\n" % OUT)
    instr = "-O1 -g1 -DNDEBUG -fsanitize=thread -fno-omit-frame-pointer -w -msse -msse2"
    w("rule repo\n  command = g++ -std=gnu++17 -MMD -MF $out.d %s %s -I/usr/include/eigen3 -I%s $extra -c $in -o $out\n  depfile = $out.d\n  deps = gcc\n  description = CXX $in\n" % (instr, DEFS, SRC))
    w("rule scn\n  command = g++ -std=gnu++17 -MMD -MF $out.d %s %s -I%s/sim -I/usr/include/eigen3 -I%s -c $in -o $out\n  depfile = $out.d\n  deps = gcc\n  description = SCN $in\n" % (instr, DEFS, HERE, SRC))
    w("rule sim\n  command = g++ -std=gnu++17 -MMD -MF $out.d -O2 -g1 -U_FORTIFY_SOURCE -Wall -Wno-unused-function -Wno-format-truncation -I%s/sim -c $in -o $out && objcopy %s $out\n  depfile = $out.d\n  deps = gcc\n  description = SIM $in\n" % (HERE, " ".join("--redefine-sym %s=__real_%s" % (x, x) for x in WRAP)))
    w("rule link\n  command = g++ -no-pie -o $out $in %s -lboost_filesystem -lboost_regex -lboost_system -lboost_date_time -lsqlite3 -lz -ltinyxml -ldl -lpthread -lrt\n  description = LINK $out\n" % " ".join("-Wl,--wrap=" + x for x in WRAP))
    objs = []
    for lib in LIBS:
        for f in sorted(glob.glob(os.path.join(SRC, lib, "*.cpp"))):
            if SKIP.search(os.path.basename(f)): continue
            o = os.path.join(OUT, "obj", lib + "_" + os.path.basename(f) + ".o")
            w("build %s: repo %s\n  extra = -D%s_EXPORT_SYMBOLS\n" % (q(o), q(f), lib.upper()))
            objs.append(o)
    robjs = objs
    sc = []
    for f in sorted(glob.glob(os.path.join(HERE, "scn", "*.cpp"))):
        o = os.path.join(OUT, "obj", "scn_" + os.path.basename(f) + ".o")
        w("build %s: scn %s\n" % (q(o), q(f)))
        sc.append(o)
    sim = []
    for f in sorted(glob.glob(os.path.join(HERE, "sim", "*.cpp"))):
        o = os.path.join(OUT, "obj", "sim_" + os.path.basename(f) + ".o")
        w("build %s: sim %s\n" % (q(o), q(f)))
        sim.append(o)
    binp = os.path.join(OUT, "simrun")
    # instrumented objects first: of the merged template instances the instrumented one is kept
    w("build %s: link %s\n" % (q(binp), " ".join(q(x) for x in sc + robjs + sim)))
    nf = os.path.join(OUT, "build.ninja")
    txt = "\n".join(rules)
    if not os.path.exists(nf) or open(nf).read() != txt:
        open(nf, "w").write(txt)
    p = subprocess.run(["ninja", "--quiet", "-C", OUT, "-f", nf] + sys.argv[1:], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        sys.stdout.write(p.stdout)
        return 3
    json.dump({"built": began, "files": now}, open(stamp, "w"))
    return 0

if __name__ == "__main__":
    sys.exit(main())
