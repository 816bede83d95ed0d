"""Builds /repo's current working tree (own flags, own build directory) and one harness.

The build directory lives in /verif/.build (git-ignored) and only caches object files; ninja rebuilds
whatever changed in /repo (depfiles track every header).
"""
import glob, os, subprocess, sys, fcntl

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, ".build"))

OPT = os.environ.get("VERIF_OPT", "-O2")
CXX = "g++"
DEFS = "-DNDEBUG -DHAVE_LAPACK -DHAVE_MSGPACK -DCOMPILER_USE_CXX11"
WARN = "-w"
INC = f"-I{VERIF}/compat -I{REPO}/src -I{REPO}/3rd/boost-bindings -I{REPO}/3rd/log4cpp/include -I{REPO}/3rd/tinyxml"
LIBS = ("-lboost_serialization -lboost_regex -lboost_filesystem -lboost_thread -lboost_chrono "
        "-lboost_date_time -lboost_system -llapack -lblas -lpthread -lutil")

# harnesses that do not need the utcore objects at all keep their build small
HARNESS_LIBS = {}


class BuildError(Exception):
    pass


def _esc(p):
    return p.replace(" ", "$ ").replace(":", "$:")


def write_ninja(san=""):
    os.makedirs(BUILD, exist_ok=True)
    out = []
    flags = f"-std=gnu++14 {OPT} -fno-omit-frame-pointer -fPIC {WARN} {DEFS} {san}"
    out.append(f"flags = {flags}")
    out.append(f"inc = {INC}")
    out.append("rule cxx\n  command = %s $flags $xdef $inc -MMD -MF $out.d -c $in -o $out\n  depfile = $out.d\n  deps = gcc\n  description = CXX $out" % CXX)
    out.append("rule ar\n  command = rm -f $out && ar crs $out $in\n  description = AR $out")
    out.append(f"rule link\n  command = {CXX} $flags -o $out $in $libs {LIBS}\n  description = LINK $out")

    def lib(name, srcs, xdef="", per=None):
        objs = []
        for s in sorted(srcs):
            o = f"obj/{name}/" + os.path.relpath(s, REPO).replace("/", "__") + ".o"
            x = xdef + (" " + per[s] if per and s in per else "")
            out.append(f"build {o}: cxx {_esc(s)}" + (f"\n  xdef = {x}" if x.strip() else ""))
            objs.append(o)
        out.append(f"build {name}.a: ar {' '.join(objs)}")

    core = []
    for pat in ("src/*/*.cpp", "src/*/*/*.cpp", "src/*/*/*/*.cpp", "src/*/*/*/*/*.cpp"):
        core += glob.glob(os.path.join(REPO, pat))
    lib("utcore", core, per={os.path.join(REPO, "src/utMeasurement/Timestamp.cpp"): "-include ctime"})
    lib("log4cpp", glob.glob(os.path.join(REPO, "3rd/log4cpp/src/*.cpp")))
    lib("tinyxml", glob.glob(os.path.join(REPO, "3rd/tinyxml/*.cpp")), xdef="-DTIXML_USE_STL")
    for h in sorted(glob.glob(os.path.join(VERIF, "harness/*.cpp"))):
        n = os.path.splitext(os.path.basename(h))[0]
        libs = HARNESS_LIBS.get(n, ["utcore.a", "tinyxml.a", "log4cpp.a"])
        x = "-DTIXML_USE_STL"
        out.append(f"build obj/h/{n}.o: cxx {_esc(h)}\n  xdef = {x}")
        out.append(f"build h_{n}: link obj/h/{n}.o | {' '.join(libs)}\n  libs = -Wl,--start-group {' '.join(libs)} -Wl,--end-group")
    text = "\n".join(out) + "\n"
    p = os.path.join(BUILD, "build.ninja")
    if not os.path.exists(p) or open(p).read() != text:
        open(p, "w").write(text)


def build(harness):
    """returns the path of the harness binary; raises BuildError"""
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        write_ninja()
        r = subprocess.run(["ninja", "-C", BUILD, f"h_{harness}"], stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        raise BuildError(r.stdout[-6000:])
    return os.path.join(BUILD, f"h_{harness}")


if __name__ == "__main__":
    write_ninja()
    sys.exit(subprocess.call(["ninja", "-C", BUILD] + sys.argv[1:]))
