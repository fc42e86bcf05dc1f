"""Compile a harness together with sources of /repo, outside the tree, object by object."""
import glob, os
from common import *

SAN = "-fsanitize=address,undefined -fno-sanitize-recover=all"
FLAGS = {"plain": "-O1 -g0 -w", "fast": "-O2 -g0 -w", "san": "-O1 -g1 -w -fno-omit-frame-pointer " + SAN}


def compile_all(name, sources, includes, flavor="plain", extra="", libs="", std="c++17"):
    """sources: list of files; returns the executable. Rebuilt on every call of a fresh process (ccache makes repeats cheap)."""
    out = os.path.join(BUILD, "cxx", name + "_" + flavor)
    os.makedirs(out, exist_ok=True)
    env = base_env()
    inc = " ".join("-I" + i for i in includes)

    def one(s):
        o = os.path.join(out, sha(s) + "_" + os.path.basename(s) + ".o")
        cc = "gcc" if s.endswith(".c") else "g++"
        flags = FLAGS[flavor] + (" -std=%s" % std if cc == "g++" else "")
        r = run("ccache %s %s %s %s -c %s -o %s" % (cc, flags, extra, inc, s, o), shell=True, env=env, timeout=600)
        if r.rc:
            raise BuildError("compiling %s failed:\n%s" % (s, r.out[-3000:]))
        return o
    objs = pmap(one, sources)
    exe = os.path.join(out, name)
    r = run("g++ -fuse-ld=gold %s %s -o %s %s" % (SAN if flavor == "san" else "", " ".join(objs), exe, libs), shell=True, env=env, timeout=300)
    if r.rc:
        raise BuildError("linking %s failed:\n%s" % (name, r.out[-3000:]))
    return exe


BS = os.path.join(REPO, "rad-sim/sim/noc/booksim")


def build_booksim(flavor="plain", main="harness/bs/bs_main.cpp", name="bs"):
    src = []
    for d in ("", "allocators", "arbiters", "networks", "power", "routers"):
        src += sorted(glob.glob(os.path.join(BS, d, "*.cpp")))
    src += [os.path.join(BS, "y.tab.c"), os.path.join(BS, "lex.yy.c")]
    inc = [os.path.join(VERIF, "harness/bs/stub"), BS] + [os.path.join(BS, d) for d in ("routers", "allocators", "arbiters", "networks", "power")]
    return compile_all(name, src + [os.path.join(VERIF, main)], inc, flavor)
