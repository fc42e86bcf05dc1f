"""P20: modules are attached where the placement file says and clocked as the clock file says; impossible files are refused."""
from placing import *
from telem import *
from p18 import clocks

FINISH = dict(min_nontrivial=30, need=("transactions", "timestamps_on_their_clock", "module_lines", "module_lines_aximm", "shared_nodes", "split_modules", "ports_compared", "refused"))


def broken(rng, sc):
    """The same system with a placement that cannot be; (what is wrong, word that the message must have or None)."""
    L = sc.place[0]
    kind = rng.choice(["missing", "unknown", "two_aximm", "mixed"])
    i = rng.randrange(len(L))
    mm = [l for l in L if l.endswith("aximm")]
    ax = [l for l in L if l.endswith("axis")]
    if kind == "missing":
        gone = L.pop(i)
        return "no line for %s" % gone.split()[0], gone.split()[0]
    if kind == "two_aximm" and len(mm) > 1:
        a, b = rng.sample(mm, 2)
        if a.split()[1] == b.split()[1]:
            L[L.index(a)] = " ".join([a.split()[0], *b.split()[1:]])
            return "two AXI-MM ports on node %s" % b.split()[2], None
    if kind == "mixed" and mm and ax:
        a, b = rng.choice(mm), rng.choice(ax)
        L[L.index(a)] = " ".join([a.split()[0], b.split()[1], b.split()[2], "aximm"])
        return "AXI-MM port %s on the node of AXI-S %s" % (a.split()[0], b.split()[0]), None
    L.insert(i, "nosuchmodule 0 0 axis")
    return "a line for a module that does not exist", "nosuchmodule"


def check(ck):
    ck.rule = ("random RADs with 1 or 2 NoCs, modules sharing nodes or spread over several nodes and NoCs, placed by module lines or port lines in any order; clock lines in any order with two adapter and up to "
               "three module clocks; every eighth with a file that cannot be; non-trivial: transactions between different nodes, all compared with the files")
    ck.assumptions = ["modules that share a node have the same clocks", "an AXI-MM port has a node of its own", "module lines only for modules whose ports are all AXI-S, or with one AXI-MM port"]
    thorough = ck.tier == "thorough"

    def gen(rng, group, idx):
        sc = gen_place(rng, group, idx)
        sc.broken = broken(rng, sc) if idx % 8 == 7 else None
        return sc

    def judge(i, sc, root, r):
        if sc.broken:
            what, word = sc.broken
            ran = any(e[0] in "SE" for e in r.events)
            if r.timed_out or r.rc == 0 or ran:
                ck.violation("accepted", "a placement file with %s was not refused (exit status %s, %d events)" % (what, r.rc, len(r.events)), replay_files(sc, root, r))
            elif word and word not in r.out:
                ck.violation("silent", "a placement file with %s ended the run without naming it: %s" % (what, r.out[-200:]), replay_files(sc, root, r))
            else:
                ck.count("refused")
            ck.case()
            return
        if abnormal(ck, sc, root, r):
            ck.case()
            return
        files = replay_files(sc, root, r)
        seen, ids = {}, {}
        for e in r.events:
            if e[0] == "P":
                seen[e[2]] = (int(e[3]), int(e[4]))
                p = sc.ports[(0, e[2])]
                ids.setdefault((int(e[3]), int(e[4]), p["role"]), []).append(int(e[5]))
        for (rad, full), p in sc.ports.items():
            ck.count("ports_compared")
            if seen.get(full) != (p["noc"], p["node"]):
                ck.violation("placement", "%s is reported at NoC and node %s, the file says %s" % (full, seen.get(full), (p["noc"], p["node"])), files)
        for (q, v, role), l in ids.items():
            if sorted(l) != list(range(len(l))):
                ck.violation("interfaces", "the %s ports on node %d of NoC %d have interface numbers %s" % ("master" if role == "m" else "slave", v, q, sorted(l)), files)
        bad, st = check_axis(sc, r.events)
        bad2, st2 = check_aximm(sc, r.events)
        n = dict(rows=0, edges=0, multi_hop=0)
        bad3 = []
        if next(e for e in r.events if e[0] == "E")[2] == "done":
            bad3, n = check_stats(sc, r.events, read_stats(os.path.join(root, "stats.csv")), clocks(sc))
        of = clocks(sc)
        for e in r.events:
            if e[0] in ("S", "R", "SAR", "SAW", "SW", "SR", "SB", "RAR", "RAW", "RW", "RR", "RB"):
                p = sc.ports.get((int(e[1]), e[3]))
                if p and int(e[2]) % of(0, p)[1]:
                    bad3.append(("module-clock", "%s has a handshake at %s ps, its module's clock period is %d ps" % (e[3], e[2], of(0, p)[1])))
                    break
        for k, text in bad + bad2 + bad3:
            ck.violation(k, text, {**files, "stats.csv": os.path.join(root, "stats.csv")})
        ck.count("transactions", n["rows"])
        ck.count("timestamps_on_their_clock", n["edges"])
        for k, v in sc.kinds.items():
            ck.count(k, v)
        ck.case((i,) if n["multi_hop"] else None, "RAD %d: NoCs of %s, %s, %d transactions" % (i, " ".join("%dx%d" % (k, k) for k in sc.ks), sc.kinds, n["rows"]))
    explore(ck, PLACE, gen, 1600 if thorough else 160, judge, tag="p20_", stats=True)
