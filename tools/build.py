#!/usr/bin/env python3
"""Builds instrumented variants of /repo/src (and the command line utilities)
and the monitors in /verif/harness, from the current working tree of /repo.

  build.py TARGET...      targets: see TARGETS below

Everything goes to /verif/build (ignored by git).  A ninja file is generated, so
a second build only compiles what changed.  /repo itself is never written.
"""
import fcntl, glob, os, re, shutil, subprocess, sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("MSTK_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
H = os.path.join(VERIF, "harness")

ENV = dict(os.environ)
ENV["PATH"] = "/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin"
ENV["LC_ALL"] = "C.UTF-8"
ENV["OMPI_CC"] = "/usr/bin/gcc"
ENV["OMPI_CXX"] = "/usr/bin/g++"

SAN = {
    # one sanitizer family per build
    "asan": "-O1 -g1 -fno-omit-frame-pointer -fsanitize=address,undefined "
            "-fno-sanitize=nonnull-attribute,pointer-overflow,alignment",
    "tsan": "-O1 -g1 -fno-omit-frame-pointer -fsanitize=thread",
    "mark": "-O1 -g1 -fno-omit-frame-pointer -fsanitize=address,undefined "
            "-fno-sanitize=nonnull-attribute,pointer-overflow,alignment -DMSTK_USE_MARKERS",
    "fast": "-O1 -g1",
    "noio": "-O1 -g1",
}
DEFS = "-DENABLE_ExodusII -DMETIS_5 -D_MSTK_HAVE_METIS -D_MSTK_HAVE_ZOLTAN -DNDEBUG"
TPLINC = "-I/usr/include/trilinos"
HDF = "/usr/lib/x86_64-linux-gnu/hdf5/serial"
LIBS = ("/usr/lib/x86_64-linux-gnu/libexoIIv2c.so -lnetcdf -ldl {h}/libhdf5_hl.so {h}/libhdf5.so "
        "-lmetis -ltrilinos_zoltan -lz -lptscotch -lptscotcherr -lscotch -lscotcherr -lm").format(h=HDF)
# the real link line of the utilities names the .so files; keep to what is there
LIBS = LIBS.replace("-lnetcdf", "/usr/lib/x86_64-linux-gnu/libnetcdf.so.19"
                    if not os.path.exists("/usr/lib/x86_64-linux-gnu/libnetcdf.so") else "-lnetcdf")

UTILS = ["chkmesh", "exoatt", "meshconvert", "mkstruc", "tet2hex", "tri2quad", "vizpart"]

# program -> (list of sources in harness, variant)
PROGS = {
}
for _f in sorted(glob.glob(os.path.join(H, "serial", "c_*.cc"))):
    _n = os.path.basename(_f)[2:-3]
    PROGS["s_" + _n] = (["serial/main.cc", "serial/c_%s.cc" % _n], "asan")
    PROGS["m_" + _n] = (["serial/main.cc", "serial/c_%s.cc" % _n], "mark")
PROGS["s_all"] = (["serial/main.cc"] + sorted("serial/" + os.path.basename(f) for f in glob.glob(os.path.join(H, "serial", "c_*.cc"))), "asan")
PROGS["s_tool"] = (["serial/main.cc", "tool/tool.cc"], "asan")
PROGS["race"] = (PROGS["s_all"][0] + ["race/race.cc"], "tsan")
PROGS["m_all"] = (PROGS["s_all"][0], "mark")
PROGS["v_all"] = (PROGS["s_all"][0], "fast")        # for valgrind
for _f in sorted(glob.glob(os.path.join(H, "par", "p_*.cc"))):
    _n = os.path.basename(_f)[2:-3]
    PROGS["p_" + _n] = (["par/main.cc", "par/p_%s.cc" % _n], "asan")
    PROGS["q_" + _n] = (["par/main.cc", "par/p_%s.cc" % _n], "mark")
# the monitors themselves carry no sanitizer (they share its allocator): compiling them so is much quicker
HFLAGS = {"fast": SAN["fast"], "asan": "-O1 -g1 -fno-omit-frame-pointer", "tsan": "-O1 -g1 -fno-omit-frame-pointer",
          "mark": "-O1 -g1 -fno-omit-frame-pointer -DMSTK_USE_MARKERS"}
WRAP = " -no-pie -Wl,--wrap=MSTK_Report -Wl,--wrap=MESH_Delete" + "".join(" -Wl,--wrap=" + f for f in
        ("malloc", "calloc", "realloc", "free", "strdup"))

# entry points around which the marker build watches marks (harness/mark.h)
MWRAP = "".join(" -Wl,--wrap=" + f for f in sorted(set(re.findall(r"^MKWRAP\([^,]*, (\w+),", open(os.path.join(H, "mark.h")).read(), re.M))))


def headers(variant):
    d = os.path.join(BUILD, variant, "include")
    os.makedirs(d, exist_ok=True)
    cm = open(os.path.join(REPO, "CMakeLists.txt")).read()
    ver = {}
    for k in ("MAJOR", "MINOR", "PATCH"):
        m = re.search(r"set\s*\(\s*MSTK_VERSION_%s\s+(\d+)" % k, cm)
        ver[k] = m.group(1) if m else "0"
    want = set()
    for h in glob.glob(os.path.join(REPO, "include", "*.h")):
        t = open(h, encoding="latin-1").read()
        if os.path.basename(h) == "MSTK_defines.h":
            t = re.sub(r"@MSTK_VERSION_(\w+)@", lambda m: ver[m.group(1)], t)
            t = re.sub(r"#cmakedefine\s+MSTK_HAVE_MPI.*", "#define MSTK_HAVE_MPI", t)
        o = os.path.join(d, os.path.basename(h))
        want.add(o)
        if not os.path.exists(o) or open(o, encoding="latin-1").read() != t:
            open(o, "w", encoding="latin-1").write(t)
    for o in glob.glob(os.path.join(d, "*.h")):
        if o not in want:
            os.unlink(o)


def gen(targets):
    out = ["ninja_required_version = 1.5", "builddir = %s" % BUILD]
    out += ["rule cc", " command = mpicc $flags -MMD -MF $out.d -c $in -o $out",
            " depfile = $out.d", " deps = gcc", " description = CC $out",
            "rule cxx", " command = mpicxx $flags -MMD -MF $out.d -c $in -o $out",
            " depfile = $out.d", " deps = gcc", " description = CXX $out",
            "rule ar", " command = rm -f $out && ar crs $out @$out.rsp", " rspfile = $out.rsp",
            " rspfile_content = $in",
            "rule link", " command = mpicxx $flags -o $out $in $libs", " description = LINK $out"]
    variants = set()
    for t in targets:
        if t.startswith("util_"):
            variants.add("asan")
        elif t.startswith("lib_"):
            variants.add(t[4:])
        else:
            variants.add(PROGS[t][1])
    goals = []
    for v in sorted(variants):
        headers(v)
        inc = "-I%s/%s/include -I%s/include %s" % (BUILD, v, REPO, TPLINC)
        fl = "%s %s %s -std=c99 -w" % (SAN[v], DEFS, inc)
        objs = []
        for c in sorted(glob.glob(os.path.join(REPO, "src/*/*.c"))):
            o = "%s/%s/o/%s.o" % (BUILD, v, os.path.relpath(c, REPO).replace("/", "_"))
            out += ["build %s: cc %s" % (o, c), " flags = " + fl]
            objs.append(o)
        lib = "%s/%s/libmstk.a" % (BUILD, v)
        out += ["build %s: ar %s" % (lib, " ".join(objs))]
        if "lib_" + v in targets:
            goals.append(lib)
    done = set()
    for t in targets:
        if t.startswith("lib_"):
            continue
        util = t.startswith("util_")
        if util:
            v, n = "asan", t[5:]
            srcs = sorted(glob.glob(os.path.join(REPO, "utils", n, "src", "*.c")))
            exe, sub = "%s/bin/%s" % (BUILD, n), t
        else:
            srcs, v = PROGS[t]
            srcs = [os.path.join(H, f) for f in srcs]
            exe, sub = "%s/bin/%s" % (BUILD, t), "h"
        inc = "-I%s/%s/include -I%s/include %s -I%s" % (BUILD, v, REPO, TPLINC, H)
        objs = []
        for s in srcs:
            o = "%s/%s/%s/%s.o" % (BUILD, v, sub, os.path.relpath(s, H if not util else REPO).replace("/", "_"))
            objs.append(o)
            if o in done:
                continue
            done.add(o)
            if s.endswith(".c"):
                out += ["build %s: cc %s" % (o, s), " flags = %s %s %s -std=c99 -w" % (SAN[v], DEFS, inc)]
            else:
                out += ["build %s: cxx %s" % (o, s),
                        " flags = %s %s %s -std=c++17 -Wall -Wno-unused -Wno-misleading-indentation" % (HFLAGS[v], DEFS, inc)]
        wrap = "" if util else WRAP + (" -Wl,--wrap=MESH_PartitionWithMetis" if t[:2] in ("p_", "q_") else "") + (MWRAP if v == "mark" else "") if t[0:2] in ("s_", "m_", "p_", "q_", "v_") or t == "race" else " -no-pie -Wl,--wrap=MSTK_Report"
        out += ["build %s: link %s %s/%s/libmstk.a" % (exe, " ".join(objs), BUILD, v),
                " flags = " + SAN[v] + wrap, " libs = " + LIBS + " -lpthread"]
        goals.append(exe)
    return "\n".join(out) + "\n", goals


def build(targets, quiet=True):
    os.makedirs(os.path.join(BUILD, "bin"), exist_ok=True)
    with open(os.path.join(BUILD, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        text, goals = gen(targets)
        nf = os.path.join(BUILD, "build.ninja")
        if not os.path.exists(nf) or open(nf).read() != text:
            open(nf, "w").write(text)
        r = subprocess.run(["ninja", "-C", BUILD, "-f", nf] + goals, env=ENV,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            sys.stderr.write(r.stdout[-6000:])
            return False
        if not quiet:
            print(r.stdout[-500:])
    return True


if __name__ == "__main__":
    sys.exit(0 if build(sys.argv[1:], quiet=False) else 2)
