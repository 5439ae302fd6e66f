"""Builds the drivers from /repo's current working tree into /verif/build.

Sources are globbed, so files added to the repository are picked up. ninja with depfiles
rebuilds what changed; ccache (kept in /verif/build) makes rebuilds of unchanged contents
cheap even when the whole tree has new time stamps."""
import fcntl
import glob
import hashlib
import os
import re
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
TLA = "/opt/veriftools/tla"
CP = f"{BUILD}/classes:{TLA}/tla2tools.jar:{TLA}/CommunityModules-deps.jar"

# These only compile with CoCoALib; the library build leaves them out as well.
LEFT_OUT = {"src/carl-io/OPBImporter.cpp", "src/carl/util/CheckpointVerifier.cpp"}
CXX = f"-I{REPO}/src -isystem /usr/include/eigen3 -w -std=c++17 -pthread -O1"
GUARD = "-DCARL_VERIF_HOOKS"


class ToolError(Exception):
    pass


def driver_opts(name):
    """Options are in comment lines of the driver: // libs: ..., // flags: ..., // link: ..., // shim"""
    text = open(f"{VERIF}/drivers/{name}.cpp").read()
    libs = re.search(r"^// libs: (.*)$", text, re.M)
    flags = re.search(r"^// flags: (.*)$", text, re.M)
    link = re.search(r"^// link: (.*)$", text, re.M)
    return (libs.group(1).split() if libs else ["carl"],
            flags.group(1) if flags else "",
            link.group(1) if link else "",
            bool(re.search(r"^// shim$", text, re.M)))


def all_drivers():
    return sorted(os.path.basename(p)[:-4] for p in glob.glob(f"{VERIF}/drivers/d_*.cpp"))


def ensure_config():
    if os.path.exists(f"{REPO}/src/carl/config.h") and os.path.exists(f"{REPO}/src/carl/util/CompileInfo.cpp"):
        return
    # The generated headers are git-ignored files next to their templates.
    r = subprocess.run(["cmake", "-S", REPO, "-B", f"{BUILD}/cmake", "-G", "Ninja", "-Wno-dev",
                        "-DCMAKE_CXX_COMPILER=/usr/bin/g++", "-DCMAKE_BUILD_TYPE=DEBUG", "-DCMAKE_CXX_FLAGS=-w",
                        "-DCMAKE_CXX_FLAGS_DEBUG=", "-DCMAKE_POLICY_VERSION_MINIMUM=3.5", "-DUSE_COCOA:BOOL=OFF",
                        "-DUSE_BLISS:BOOL=ON", "-DEXPORT_TO_CMAKE:BOOL=OFF",
                        "-DCMAKE_PROJECT_carl_INCLUDE=/opt/vp/carl-offline.cmake"],
                       capture_output=True, text=True)
    if r.returncode != 0:
        raise ToolError("cmake configure failed:\n" + r.stdout[-2000:] + r.stderr[-2000:])


def write_ninja(names):
    out = [f"builddir = {BUILD}",
           "rule cxx", "  command = ccache /usr/bin/g++ $flags -MMD -MF $out.d -c $in -o $out",
           "  depfile = $out.d", "  deps = gcc",
           "rule ar", "  command = rm -f $out && ar rcs $out $in",
           "rule link", "  command = /usr/bin/g++ -pthread $in -Wl,--start-group $libs -Wl,--end-group $extra -lgmpxx -lgmp -ldl -o $out"]
    variants = {}
    targets = []
    for n in names:
        libs, flags, link, shim = driver_opts(n)
        f = f"{CXX} {GUARD} {flags} -I{VERIF}/drivers"
        if shim:
            f += f" -include {VERIF}/drivers/shim.h"
        # Flags of a driver also apply to the library it links (e.g. -DTHREAD_SAFE).
        key = hashlib.sha1((flags + str(shim)).encode()).hexdigest()[:8] if flags or shim else "base"
        ars = []
        for lib in libs:
            ars.append(f"{BUILD}/{key}/lib{lib}.a")
            variants.setdefault((key, lib), f"{CXX} {GUARD} {flags}" + (f" -include {VERIF}/drivers/shim.h" if shim else ""))
        obj = f"{BUILD}/{key}/{n}.o"
        out.append(f"build {obj}: cxx {VERIF}/drivers/{n}.cpp | {VERIF}/drivers/vj.h\n  flags = {f}")
        exe = f"{BUILD}/bin/{n}"
        out.append(f"build {exe}: link {obj} | {' '.join(ars)}\n  libs = {' '.join(ars)}\n  extra = {link} " +
                   ("-lboost_program_options -lboost_filesystem" if "carl-settings" in libs else ""))
        targets.append(exe)
    for (key, lib), flags in sorted(variants.items()):
        objs = []
        for s in sorted(glob.glob(f"{REPO}/src/{lib}/**/*.cpp", recursive=True)):
            rel = os.path.relpath(s, REPO)
            if rel in LEFT_OUT:
                continue
            o = f"{BUILD}/{key}/obj/{rel}.o"
            out.append(f"build {o}: cxx {s}\n  flags = {flags}")
            objs.append(o)
        out.append(f"build {BUILD}/{key}/lib{lib}.a: ar {' '.join(objs)}")
    path = f"{BUILD}/{hashlib.sha1(' '.join(names).encode()).hexdigest()[:10]}.ninja"
    with open(path, "w") as fh:
        fh.write("\n".join(out) + "\n")
    return path, targets


def classes():
    srcs = sorted(glob.glob(f"{VERIF}/java/*.java"))
    stamp = hashlib.sha1(b"".join(open(s, "rb").read() for s in srcs)).hexdigest()
    mark = f"{BUILD}/classes/stamp"
    if os.path.exists(mark) and open(mark).read() == stamp:
        return
    os.makedirs(f"{BUILD}/classes", exist_ok=True)
    r = subprocess.run(["javac", "-nowarn", "-cp", f"{TLA}/tla2tools.jar", "-d", f"{BUILD}/classes"] + srcs,
                       capture_output=True, text=True)
    if r.returncode != 0:
        raise ToolError("javac failed:\n" + r.stderr[-3000:])
    with open(mark, "w") as fh:
        fh.write(stamp)


def build(names):
    os.makedirs(BUILD, exist_ok=True)
    with open(f"{BUILD}/.lock", "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        classes()
        ensure_config()
        path, targets = write_ninja(sorted(names))
        env = dict(os.environ, CCACHE_DIR=f"{BUILD}/ccache", CCACHE_MAXSIZE="3G", CCACHE_NOHASHDIR="1")
        r = subprocess.run(["ninja", "-f", path, "-j8"] + targets, capture_output=True, text=True, env=env)
        if r.returncode != 0:
            raise ToolError("build failed:\n" + r.stdout[-6000:] + r.stderr[-2000:])
    return {n: f"{BUILD}/bin/{n}" for n in names}


if __name__ == "__main__":
    try:
        build(sys.argv[1:] or all_drivers())
    except ToolError as e:
        print(e)
        sys.exit(2)
