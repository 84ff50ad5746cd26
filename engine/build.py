"""Builds, from /repo's current working tree, (1) the LLVM IR the verifier reads and
(2) the shared library the executable contracts run against.  Everything goes to a
scratch directory."""
import concurrent.futures
import os
import re
import subprocess
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
DEFS = ["-DGLPK", "-DLIB_PLUTO", "-DSCOPLIB_INT_T_IS_LONGLONG", "-DCLOOG_INT_GMP"]


class BuildError(Exception):
    pass


def sources():
    t = open(os.path.join(REPO, "lib", "Makefile.am")).read().replace("\\\n", " ")
    out = []
    for m in re.finditer(r"^\s*libpluto_la_SOURCES\s*\+?=\s*(.*)$", t, re.M):
        out += [x for x in m.group(1).split() if x.endswith((".c", ".cpp", ".cc")) and "$" not in x]
    # sources listed through variables
    if not out:
        raise BuildError("no sources in lib/Makefile.am")
    return sorted(dict.fromkeys(os.path.basename(x) for x in out))


def prepare(scratch):
    gen = os.path.join(scratch, "gen")
    os.makedirs(gen, exist_ok=True)
    ver = "0"
    try:
        m = re.search(r"^AC_INIT\(\[pluto\],\[([^]]*)\]", open(os.path.join(REPO, "configure.ac")).read(), re.M)
        if m:
            ver = m.group(1)
    except OSError:
        pass
    open(os.path.join(gen, "version.h"), "w").write('#define PLUTO_VERSION "%s"\n' % ver)
    return gen


def srcpath(name, gen):
    p = os.path.join(REPO, "lib", name)
    if name == "constraints.c":
        dst = os.path.join(gen, "constraints.c")
        subprocess.run([sys.executable, os.path.join(HERE, "without_piplib.py"), p, dst], check=True)
        return dst
    return p


def flags(gen):
    return ["-I" + os.path.join(REPO, "include"), "-I" + os.path.join(REPO, "lib"), "-I" + gen,
            "-include", os.path.join(HERE, "absent_isl.h")] + DEFS + ["-w", "-Wno-error=implicit-function-declaration", "-Wno-error=int-conversion", "-Wno-error=implicit-int"]


def run(cmd):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise BuildError(" ".join(cmd) + "\n" + r.stdout[-3000:])


def ir(scratch, only=None):
    """Returns {source name: path of .ll}."""
    gen = prepare(scratch)
    jobs, out = [], {}
    for s in sources():
        if only and s not in only:
            continue
        ll = os.path.join(scratch, s + ".ll")
        cc = ["clang-18"] if s.endswith(".c") else ["clang++-18", "-std=c++17"]
        jobs.append(cc + ["-O0", "-g", "-fno-discard-value-names", "-Xclang", "-disable-O0-optnone", "-S", "-emit-llvm"] + flags(gen)
                    + ["-o", ll, srcpath(s, gen)])
        out[s] = ll
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        list(ex.map(run, jobs))
    return out


def native(scratch, sanitize=False):
    gen = prepare(scratch)
    jobs, objs = [], []
    for s in sources():
        o = os.path.join(scratch, s + (".san.o" if sanitize else ".o"))
        cc = ["gcc"] if s.endswith(".c") else ["g++", "-std=c++17"]
        jobs.append(cc + ["-O0", "-g1", "-fPIC", "-fno-strict-aliasing", "-fkeep-static-functions", "-fno-sanitize-recover"] + (["-fsanitize=address"] if sanitize else []) + flags(gen)
                    + ["-c", "-o", o, srcpath(s, gen)])
        objs.append(o)
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        list(ex.map(run, jobs))
    # file-local functions are made callable (the code itself is unchanged)
    seen = set()
    for ob in objs:
        t = subprocess.run(["nm", ob], stdout=subprocess.PIPE, text=True).stdout
        loc = [l.split()[2] for l in t.splitlines() if len(l.split()) == 3 and l.split()[1] == "t"]
        loc = [x for x in loc if re.match(r"^[A-Za-z_]\w*$", x) and x not in seen and not x.startswith("_GLOBAL") and not x.startswith("__static")]
        seen.update(loc)
        if loc:
            run(["objcopy"] + ["--globalize-symbol=" + x for x in loc] + [ob])
    o = os.path.join(scratch, "stubs.o")
    run(["gcc", "-fPIC", "-c", "-w"] + (["-fsanitize=address"] if sanitize else []) + ["-o", o, os.path.join(HERE, "stubs.c")])
    objs.append(o)
    lib = os.path.join(scratch, "libpluto_san.so" if sanitize else "libpluto.so")
    run(["g++", "-shared", "-Wl,-z,lazy", "-o", lib] + (["-fsanitize=address"] if sanitize else []) + objs
        + ["-lisl", "-lgmp", "-lglpk", "-lgomp", "-lm"])
    return lib
