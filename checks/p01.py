"""P01: AXI-Stream transactions cross the NoC exactly once, intact, in order, at the addressed port."""
from groups import *

FINISH = dict(min_nontrivial=40, need=("transactions_received", "cycles_back_pressured"))


def check(ck):
    ck.rule = ("random single-RAD systems (mesh size, clocks, payload width, VC buffers, allocators, pipeline delays, adapter depths, "
               "modules and ports per node) with random AXI-S flows, gaps, bursts and stalls; non-trivial: at least two flows delivered "
               "something and a receiver stalled or several flows shared a receiver")
    ck.assumptions = ["one VC per packet type", "VC buffers and adapter FIFOs hold a whole packet", "equal port widths", "dimension-order routing"]
    thorough = ck.tier == "thorough"
    groups = AXIS if thorough else AXIS[:3]

    def judge(i, sc, root, r):
        if abnormal(ck, sc, root, r):
            ck.case()
            return
        bad, st = check_axis(sc, r.events)
        for k, text in bad:
            ck.violation(k, text, replay_files(sc, root, r))
        ck.count("transactions_sent", st["sent"])
        ck.count("transactions_received", st["received"])
        ck.count("cycles_back_pressured", st["held"])
        ck.count("flows", len(st["flows"]))
        ck.case((i, len(st["flows"])) if len(st["flows"]) >= 2 and st["received"] > 5 else None,
                "scenario %d: %d transactions over %d flows, max latency %d ps, %s" % (
                    i, st["received"], len(st["flows"]), st["maxlat"], {k: v for k, v in sc.cfg["noc"].items() if k in ("dim_x", "dim_y", "clk_period", "vc_allocator", "routing_delay")}))
    explore(ck, groups, gen_axis, 3000 if thorough else 160, judge, tag="p01_")
