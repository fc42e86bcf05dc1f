"""Developer's tool: turn a change in the scratch tree /tmp/sw (a copy of /repo) into a planted bug and try it.
usage: seed.py try <property> [seed]      run the check of <property> against the scratch tree
       seed.py save <id> <property> <kind> '<needs>' '<breaks>'   write seeded/<id> (kind: bs|route|alloc <cfg> <wl> ..., or none)
       seed.py reset                       undo the change in the scratch tree"""
import json, os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SW = "/tmp/sw"


def sh(c, **k):
    return subprocess.run(c, shell=True, text=True, **k)


def reset():
    if not os.path.isdir(SW):
        sh("rsync -a --exclude=/rad-sim/build /repo/ %s/" % SW)
    sh("git -C %s fetch -q /repo HEAD && git -C %s reset -q --hard FETCH_HEAD" % (SW, SW))


DEMO_BS = r'''#!/bin/bash
# Builds BookSim from the tree with a small driver and runs recorded workloads through it; non-zero if a monitor objects.
here=$(cd "$(dirname "$0")" && pwd); repo=$PWD; B=$repo/rad-sim/sim/noc/booksim
t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
inc="-I$here/stub -I$B -I$B/routers -I$B/allocators -I$B/arbiters -I$B/networks -I$B/power"
ls $B/*.cpp $B/allocators/*.cpp $B/arbiters/*.cpp $B/networks/*.cpp $B/power/*.cpp $B/routers/*.cpp $here/main.cpp |
  xargs -P 8 -I{} sh -c 'g++ -std=c++17 -O1 -g0 -w '"$inc"' -c {} -o '"$t"'/$(echo {} | tr / _).o' || exit 1
for c in y.tab.c lex.yy.c; do gcc -O1 -w $inc -c $B/$c -o $t/$c.o || exit 1; done
g++ $t/*.o -o $t/main || exit 1
cd $t
bad=0
for w in $here/case*; do
  rm -f log; timeout 100 ./main $(sed "s#@#$w#g" $w/args) > out 2>&1; rc=$?
  if [ $rc -ne 0 ] || grep -q '^[VL] ' log || ! grep -q '^E' log || { [ -f $w/expect ] && ! grep '^K' log | cmp -s - $w/expect; }; then echo "$(basename $w): rc $rc"; grep -m3 '^[VL] ' log; tail -2 out; bad=1; fi
done
exit $bad
'''


DEMO_VT = r'''"""Random traffic on the real simulator, judged at the module ports."""
import os, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(here, "lib"))
from groups import *
grp = @GROUP@
sc0 = @GEN@(random.Random("1/0/build"), grp, 0)
exe = build_binary(prepare(sc0, "b"), "plain")
bad = 0


def one(i):
    sc = @GEN@(random.Random("1/@TAG@/%d" % i), grp, i)
    root = prepare(sc, "r%d" % i)
    r = execute(root, build_binary(root, "plain"), timeout=60)
    return sc, r


for i, (sc, r) in enumerate(pmap(one, @RANGE@)):
    if crash_of(r) or r.timed_out or not any(e[0] == "E" for e in r.events):
        print("run", i, "ended abnormally:", crash_of(r), r.out[-200:])
        bad = 1
        continue
    for k, text in @CHECK@:
        print("run", i, k, text[:200])
        bad = 1
sys.exit(bad)
'''
DEMO_VT_SH = r'''#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
VERIF_REPO=$PWD VERIF_BUILD=$t VERIF_SEED=1 PYTHONDONTWRITEBYTECODE=1 python3 "$here/demo.py" > $t/out 2>&1; rc=$?
head -5 $t/out | cut -c1-300
exit $rc
'''


DEMO_CHECK = r'''#!/bin/bash
# Random workloads on the code of the tree, judged by monitors; non-zero if one objects.
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
cp -r "$here/lib" "$here/harness" "$here/checks" "$here/check.py" $t/
VERIF_REPO=$PWD VERIF_BUILD=$t/build VERIF_SEED=1 VERIF_TIER=quick PYTHONDONTWRITEBYTECODE=1 timeout 280 python3 $t/check.py @PROP@ > $t/out 2>&1; rc=$?
head -5 $t/out | cut -c1-300
exit $rc
'''


def save(id, prop, kind, needs, breaks, cases=()):
    d = os.path.join(V, "seeded", id)
    if os.path.isdir(d):
        shutil.rmtree(d)
    os.makedirs(d)
    p = subprocess.run(["git", "-C", SW, "diff"], capture_output=True, text=True).stdout
    open(d + "/patch.diff", "w").write(p)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
    if kind in ("bs", "route", "alloc"):
        shutil.copy(os.path.join(V, "harness/bs/%s_main.cpp" % kind), d + "/main.cpp")
        shutil.copytree(os.path.join(V, "harness/bs/stub"), d + "/stub")
        for i, c in enumerate(cases):
            w = d + "/case%d" % i
            os.makedirs(w)
            if kind == "alloc":
                open(w + "/args", "w").write(c)
                continue
            c, *rest = c.split("|")
            for f in ("cfg", "wl", "graph"):
                if os.path.exists(os.path.join(c, f)):
                    shutil.copy(os.path.join(c, f), w + "/" + f)
            open(w + "/args", "w").write("@/cfg @/wl log" if kind == "bs" else "@/cfg log " + rest[0])
            if rest and rest[0] == "expect":
                open(w + "/expect", "w").write(os.popen("grep ^K %s" % rest[1]).read())
        open(d + "/demo.sh", "w").write(DEMO_BS)
        os.chmod(d + "/demo.sh", 0o755)


    if kind in ("axis", "axihs", "aximm", "mmhs"):
        group, tag, rng = cases
        gen, chk = {"axis": ("gen_axis", "check_axis(sc, r.events)[0]"), "axihs": ("gen_axis", "[(e[0], ' '.join(e)) for e in r.events if e[0] == 'V']"),
                    "aximm": ("gen_aximm", "check_aximm(sc, r.events)[0]"), "mmhs": ("gen_aximm", "[(e[0], ' '.join(e)) for e in r.events if e[0] == 'V']")}[kind]
        os.makedirs(d + "/harness")
        shutil.copytree(os.path.join(V, "lib"), d + "/lib", ignore=shutil.ignore_patterns("__pycache__", "bs.py", "cxx.py"))
        shutil.copytree(os.path.join(V, "harness/vt"), d + "/harness/vt")
        t = DEMO_VT
        for k, v in (("GEN", gen), ("CHECK", chk), ("GROUP", group), ("TAG", tag), ("RANGE", rng)):
            t = t.replace("@%s@" % k, v)
        open(d + "/demo.py", "w").write(t)
        open(d + "/demo.sh", "w").write(DEMO_VT_SH)
        os.chmod(d + "/demo.sh", 0o755)


    if kind == "check":  # the check itself, frozen as it is now; cases: the directories of harness/ it needs
        os.makedirs(d + "/harness")
        shutil.copytree(os.path.join(V, "lib"), d + "/lib", ignore=shutil.ignore_patterns("__pycache__"))
        for h in cases:
            shutil.copytree(os.path.join(V, "harness", h), d + "/harness/" + h)
        os.makedirs(d + "/checks")
        shutil.copy(os.path.join(V, "checks", prop.lower() + ".py"), d + "/checks/")
        shutil.copy(os.path.join(V, "check.py"), d)
        open(d + "/demo.sh", "w").write(DEMO_CHECK.replace("@PROP@", prop))
        os.chmod(d + "/demo.sh", 0o755)


def demo(id):
    d = os.path.join(V, "seeded", id)
    for tree in ("/repo", SW):
        r = sh("bash %s/demo.sh 2>&1 | tail -5; exit ${PIPESTATUS[0]}" % d, cwd=tree, executable="/bin/bash")
        print(tree, "rc", r.returncode)


if __name__ == "__main__":
    a = sys.argv
    if a[1] == "reset":
        reset()
    elif a[1] == "try":
        sh("cd %s && VERIF_REPO=%s VERIF_SEED=%s timeout 900 python3 check.py %s 2>&1 | cut -c1-250 | tail -8" % (V, SW, a[3] if len(a) > 3 else "1", a[2]))
    elif a[1] == "demo":
        demo(a[2])
    elif a[1] == "save":
        save(*a[2:7], cases=a[7:])
        demo(a[2])
