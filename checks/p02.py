"""P02: valid/ready handshakes seen by user modules: an offered transfer stays offered, unchanged, until it is accepted."""
from groups import *

FINISH = dict(min_nontrivial=40, need=("transfers_observed", "cycles_held_axis", "cycles_held_aximm"))


def check(ck):
    ck.rule = ("random AXI-S and AXI-MM systems whose receivers stall at random; non-trivial: a receiver held at least one offered "
               "transfer back and the monitor compared the offer in the next cycle")
    ck.assumptions = ["one VC per packet type", "VC buffers and adapter FIFOs hold a whole packet", "equal port widths"]
    thorough = ck.tier == "thorough"
    n = 1500 if thorough else 70

    def judge(kind):
        def j(i, sc, root, r):
            if abnormal(ck, sc, root, r):
                ck.case()
                return
            held = sum(1 for e in r.events if e[0] == "H")
            seen = sum(1 for e in r.events if e[0][0] in "RS")
            for e in r.events:
                if e[0] == "V":
                    ck.violation("handshake-" + e[4], "%s at %s ps, port %s: %s" % (e[4], e[2], e[3], " ".join(e[5:])[:300]), replay_files(sc, root, r))
            ck.count("transfers_observed", seen)
            ck.count("cycles_held_" + kind, held)
            ck.case((kind, i) if held else None, "%s scenario %d: %d transfers, %d held cycles" % (kind, i, seen, held))
        return j
    explore(ck, AXIS if thorough else AXIS[:2], gen_axis, n, judge("axis"), tag="p02s_")
    explore(ck, AXIMM if thorough else AXIMM[:1], gen_aximm, n, judge("aximm"), tag="p02m_")
