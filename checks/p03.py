"""P03: AXI-MM transfers cross the NoC exactly once, intact, in order, at the addressed port."""
from groups import *

FINISH = dict(min_nontrivial=40, need=("transfers_received_AR", "transfers_received_AW", "transfers_received_W", "transfers_received_R", "transfers_received_B"))


def check(ck):
    ck.rule = ("random single-RAD systems of AXI-MM requesters and responders (mesh size, clocks, payload width, VC buffers, allocators, pipeline "
               "delays, adapter depths; random reads and writes with random address, id, length, size and burst fields, gaps and stalls on every "
               "channel); non-trivial: transfers between at least two (channel, source, destination) combinations and a stalled receiver")
    ck.assumptions = ["five packet types on five VCs", "VC buffers and adapter FIFOs hold a whole packet", "full-width ports"]
    thorough = ck.tier == "thorough"

    def judge(i, sc, root, r):
        if abnormal(ck, sc, root, r):
            ck.case()
            return
        bad, st = check_aximm(sc, r.events)
        for k, text in bad:
            ck.violation(k, text, replay_files(sc, root, r))
        for c, n in st["by"].items():
            ck.count("transfers_received_" + c, n)
        ck.count("cycles_back_pressured", st["held"])
        ck.case((i, len(st["pairs"])) if len(st["pairs"]) >= 2 and st["held"] else None,
                "scenario %d: %s received, %d (channel, source, destination) combinations" % (i, st["by"], len(st["pairs"])))
    explore(ck, AXIMM, gen_aximm, 3000 if thorough else 300, judge, tag="p03_")
