"""P17: the NoCs of a RAD work independently of each other."""
from mnoc import *

FINISH = dict(min_nontrivial=40, need=("streamed", "memory_mapped", "cycles_back_pressured", "scenarios_with_different_sizes", "modules_on_several_nocs"))


def check(ck):
    ck.rule = ("random RADs with 2 or 3 NoCs, each with its own mesh size, clock, payload width, buffers, allocators, delays and adapters; modules with ports on several NoCs; AXI-S and AXI-MM traffic on "
               "all of them at once; non-trivial: transactions arrived on at least two NoCs")
    ck.assumptions = ["one VC per packet type", "buffers hold a packet", "dimension-order routing", "all ports of a module on one NoC share a node"]
    thorough = ck.tier == "thorough"

    def judge(i, sc, root, r):
        if abnormal(ck, sc, root, r):
            ck.case()
            return
        bad, st = check_axis(sc, r.events)
        bad2, st2 = check_aximm(sc, r.events)
        for k, text in bad + bad2:
            ck.violation(k, text, replay_files(sc, root, r))
        noc = {full: p["noc"] for (rad, full), p in sc.ports.items()}
        seen = {}
        for e in r.events:
            if e[0] in ("R", "RAR", "RAW", "RR", "RB") and e[3] in noc:
                seen[noc[e[3]]] = seen.get(noc[e[3]], 0) + 1
        mods = {}
        for p, q in noc.items():
            mods.setdefault(p.split(".")[0], set()).add(q)
        ck.count("streamed", st["received"])
        ck.count("memory_mapped", st2["received"])
        ck.count("cycles_back_pressured", st["held"])
        ck.count("scenarios_with_different_sizes", len(set(sc.ks)) > 1)
        ck.count("modules_on_several_nocs", sum(len(s) > 1 for s in mods.values()))
        ck.case((i,) if len(seen) > 1 else None, "RAD %d: NoCs of %s, clocks %s, %d AXI-S and %d AXI-MM transactions, per NoC %s" % (
            i, " ".join("%dx%d" % (k, k) for k in sc.ks), sc.cfg["noc"]["clk_period"], st["received"], st2["received"], seen))
    explore(ck, MNOC, gen_mnoc, 2000 if thorough else 200, judge, tag="p17_")
