"""P14: traffic between RADs arrives exactly once, intact, in order; RADs do not disturb each other."""
from xrad import *

FINISH = dict(min_nontrivial=40, need=("between_rads", "within_rads", "memory_mapped", "cycles_back_pressured"))


def check(ck):
    ck.rule = ("random clusters of 2-5 RADs with shared and own configurations, placements and clocks, AXI-S flows inside and between RADs, memory-mapped traffic inside RADs, "
               "inter-RAD latencies, bandwidths; gaps, bursts and stalls; non-trivial: transactions crossed between RADs and stayed within one")
    ck.assumptions = ["inter-RAD slots for all transactions", "transactions between RADs address interface 0 of their node", "the portal has a node of its own and the driver's clock period",
                      "one VC per packet type", "buffers hold a packet", "dimension-order routing"]
    thorough = ck.tier == "thorough"

    def judge(i, sc, root, r):
        if abnormal(ck, sc, root, r):
            ck.case()
            return
        bad, st = check_axis(sc, r.events)
        bad2, st2 = check_aximm(sc, r.events)
        for k, text in bad + bad2:
            ck.violation(k, text, replay_files(sc, root, r))
        across = within = 0
        for e in r.events:
            if e[0] == "S":
                across += e[1] != e[4]
                within += e[1] == e[4]
        ck.count("between_rads", across)
        ck.count("within_rads", within)
        ck.count("memory_mapped", st2["received"])
        ck.count("received", st["received"])
        ck.count("cycles_back_pressured", st["held"])
        ck.case((i,) if across > 3 and (within or st2["received"]) else None, "cluster %d: %d RADs, configs %s, %d transactions between RADs, %d within, %d memory-mapped transfers, latency %d cycles, bandwidth %s" % (
            i, sc.rads(), sc.cfg["cluster"]["cluster_configs"], across, within, st2["received"], sc.lat, sc.frac))
    explore(ck, XRAD, gen_xrad, 2000 if thorough else 200, judge, tag="p14_")
