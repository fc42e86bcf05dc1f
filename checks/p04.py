"""P04: the NoC itself moves every flit exactly once to its destination and gives every buffer slot back."""
from bs import *

FINISH = dict(min_nontrivial=60, need=("packets", "flits", "contended_packets", "multi_flit_packets"))
WHAT = {
    "phantom": "an ejected flit belongs to no packet in flight", "misrouted": "a flit was ejected at a node that is not its destination",
    "corrupt": "a flit left the network with other contents than it entered with", "flitorder": "the flits of a packet were ejected out of order",
    "vc": "a flit left on a virtual channel that does not belong to its packet type", "vcrange": "a flit left on a virtual channel that does not exist",
    "headtail": "head/tail marks of ejected flits do not delimit packets", "interleave": "flits of two packets were mixed on one virtual channel",
    "credit-overrun": "more flits were sent to the sink than it gave credits for", "source-overrun": "the network gave more credits than the injection buffer has slots",
    "credit-vc": "a credit names a virtual channel out of range", "credit-forged": "a credit was returned that no flit had used",
    "credit-lost": "after all traffic drained, credits are missing", "credit-leak": "after all traffic drained, a router still counts occupied slots",
    "order": "packets of one source, destination and type were delivered out of order on a deterministic route"}


def check(ck):
    ck.rule = ("random networks (topology x routing x VCs x allocators x delays x buffers) with random traffic and stalling sinks, driven flit by flit; "
               "non-trivial: at least one packet was delayed beyond the fastest packet of its route length")
    ck.assumptions = ["topology/routing pairs of lib/bs.py with at least the VCs they need; the pairs known to be unsupported upstream are left out",
                      "sinks keep returning credits"]
    thorough = ck.tier == "thorough"
    exe = {"plain": build_booksim("plain"), "san": build_booksim("san")}
    n = 6000 if thorough else 330
    nsan = 700 if thorough else 66

    def one(t):
        i, flavor = t
        cfg, opt, pk = gen(i)
        if flavor == "san":
            pk = pk[:60]
        return i, flavor, cfg, opt, pk, run_bs(exe[flavor], cfg, opt, pk, "p04_%s%d" % (flavor, i))
    todo = [(i, "plain") for i in range(n)] + [(100000 + i, "san") for i in range(nsan)]
    for i, flavor, cfg, opt, pk, res in pmap(one, todo):
        name = "%s-%s" % (cfg["topology"], cfg["routing_function"])
        if crashed(ck, name, cfg, opt, pk, res):
            ck.case()
            continue
        for v in res.of("V"):
            ck.violation("%s-%s" % (name, v[1]), "%s: %s (case %d, %s)" % (WHAT.get(v[1], v[1]), " ".join(v[2:])[:200], i, flavor), files(cfg, opt, pk, res))
        for l in res.of("L"):
            ck.violation("%s-lost" % name, "%s of %d packets were never delivered although the sinks kept accepting (case %d)" % (l[1], len(pk), i), files(cfg, opt, pk, res))
        if res.of("X"):
            raise HarnessError("unsupported network: %s" % res.of("X")[0])
        K = res.packets
        best, contended = {}, 0
        for k in K:
            if k["recv"] != k["n"]:
                ck.violation("%s-count" % name, "packet %d: %d of %d flits delivered (case %d)" % (k["id"], k["recv"], k["n"], i), files(cfg, opt, pk, res))
            lat = k["tail"] - k["hinj"]
            key = (k["hops"], k["n"])
            best[key] = min(best.get(key, lat), lat)
        for k in K:
            contended += (k["tail"] - k["hinj"]) > best[(k["hops"], k["n"])]
        ck.count("packets", len(K))
        ck.count("flits", sum(k["recv"] for k in K))
        ck.count("contended_packets", contended)
        ck.count("multi_flit_packets", sum(k["n"] > 1 for k in K))
        ck.count("cycles", int(res.of("E")[0][2]))
        ck.count("runs_" + flavor)
        ck.count("in_order_checked_runs", opt["inorder"])
        ck.case((i, flavor) if contended else None, "%s %s: %d packets, %d delayed by contention" % (name, flavor, len(K), contended))
        rmtree(res.dir)
    ck.counts["topology_routing_pairs"] = len({(e[0], e[1]) for e in TOPO})
