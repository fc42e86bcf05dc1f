"""P05: NoC latency and throughput follow the configured pipeline and link delays, counted in NoC cycles."""
from bs import *

FINISH = dict(min_nontrivial=40, need=("packets_timed", "multi_hop_packets", "credit_loops_timed", "streams_timed"))
# topology, routing, parameters, extra link cycles per hop: int, or "flatfly" (by distance)
NETS = [("mesh", "dim_order", dict(k=4, n=2), 0), ("mesh", "dim_order", dict(k=3, n=3), 0), ("torus", "dim_order", dict(k=5, n=2), 1),
        ("cmesh", "dor_no_express", dict(k=4, n=2, c=4, x=8, y=8, xr=2, yr=2), 1), ("fly", "dest_tag", dict(n=2, k=3), 0), ("fly", "dest_tag", dict(n=3, k=2), 0),
        ("qtree", "nca", dict(n=3, k=4), 0), ("tree4", "nca", dict(n=3, k=4), 0), ("fattree", "nca", dict(n=2, k=3), 0),
        ("flatfly", "ran_min", dict(n=2, k=4, c=4, x=4, y=4, xr=2, yr=2), "flatfly")]


def base(rng, topo, rf, par, rd, va, sa, cd, vcs, buf):
    cfg = dict(par, topology=topo, routing_function=rf, num_vcs=vcs, vc_buf_size=buf, output_buffer_size=8, router="iq", vc_allocator="islip",
               sw_allocator="islip", alloc_iters=1, wait_for_tail_credit=0, credit_delay=cd, routing_delay=rd, vc_alloc_delay=va, sw_alloc_delay=sa)
    cfg["read_request_begin_vc"], cfg["read_request_end_vc"] = 0, vcs - 1
    return cfg


def check(ck):
    ck.rule = ("one packet at a time through random networks and pipeline settings: every packet's head latency is compared with the configured delays along its route; "
               "single-slot buffers and long streams for the credit loop and link rate; non-trivial: settings in which packets of at least two route lengths were timed")
    ck.assumptions = ["islip allocators, no speculation; link latencies as the topologies define them (mesh 1, torus/cmesh 2, flatfly 2 cycles per grid step)"]
    thorough = ck.tier == "thorough"
    exe = build_booksim("plain")
    rng = random.Random(SEED * 77 + 5)
    jobs = []
    for i in range(800 if thorough else 120):
        topo, rf, par, link = NETS[i % len(NETS)]
        rd, va, sa, cd = rng.choice([0, 1, 1, 2, 3]), rng.choice([1, 1, 2, 3]), rng.choice([1, 1, 2, 3]), rng.choice([0, 1, 2, 4, 6])
        cfg = base(rng, topo, rf, par, rd, va, sa, cd, 2, 16)
        xb, spec = rng.choice([1, 1, 2, 3]), i % 4 == 1
        cfg.update(st_prepare_delay=rng.randrange(xb), vc_allocator=rng.choice(ALLOC), sw_allocator=rng.choice(ALLOC), arb_type=rng.choice(["round_robin", "matrix"]))
        cfg["st_final_delay"] = xb - cfg["st_prepare_delay"]
        if spec:   # BookSim's speculation assumes that both allocators take one cycle
            va = sa = cfg["vc_alloc_delay"] = cfg["sw_alloc_delay"] = 1
            cfg.update(speculative=1, spec_sw_allocator=rng.choice(["prio", "islip", "separable_input_first"]))
        hold = i % 5 == 2
        if hold:
            cfg["hold_switch_for_packet"] = 1
        N = (par["c"] if topo in ("cmesh", "flatfly") else 1) * par["k"] ** par["n"]
        pk = [(j + 1, rng.randrange(N), rng.randrange(N), 0, rng.choice([1, 2, 5]), 1 + j * 200, 0) for j in range(60)]
        opt = dict(seed=i + 1, types=1, maxcyc=20000, drain=100, quiesce=1, scale=rng.choice([1, 1000, 571, 3333]), base=rng.choice([0, 0, 123456, 2147400000]))
        jobs.append(("lat", i, cfg, opt, pk, (rd, max(va, sa) if spec else va + sa, 1 if hold else sa, cd, link, xb)))
    for i in range(200 if thorough else 40):
        rd, va, sa, cd = rng.choice([0, 1, 2, 3]), rng.choice([1, 1, 2]), 1, rng.choice([0, 1, 2, 5, 8])
        cfg = base(rng, "mesh", "dim_order", dict(k=4, n=2), rd, va, sa, cd, 1, 1)
        s, d = rng.sample(range(4), 2)
        row = rng.choice([0, 4, 8, 12])
        pk = [(j + 1, row + s, row + d, 0, 1, 1, 0) for j in range(150)]
        jobs.append(("loop", i, cfg, dict(seed=1, types=1, maxcyc=40000, drain=100, quiesce=1, scale=rng.choice([1, 1000, 571])), pk, (rd, va, sa, cd)))
        B, n = rng.choice([2, 3, 4, 5, 6, 8, 12]), rng.choice([1, 400])
        cfg = base(rng, "mesh", "dim_order", dict(k=4, n=2), rd, va, sa, cd, 1, B)
        pk = [(j + 1, row + s, row + d, 0, n, 1, 0) for j in range(4 if n > 1 else 420)]
        jobs.append(("slots", i, cfg, dict(seed=1, types=1, maxcyc=40000, drain=100, quiesce=1, scale=rng.choice([1, 1000, 571])), pk, (rd, va, sa, cd, B)))
        cfg = base(rng, "mesh", "dim_order", dict(k=4, n=2), rd, va, sa, cd, 1, 40)
        pk = [(1, row + s, row + d, 0, 400, 1, 0)]
        jobs.append(("stream", i, cfg, dict(seed=1, types=1, maxcyc=40000, drain=100, quiesce=1, scale=rng.choice([1, 1000, 571])), pk, (rd, va, sa, cd)))

    def one(j):
        kind, i, cfg, opt, pk, par = j
        return j, run_bs(exe, cfg, opt, pk, "p05_%s%d" % (kind, i))
    for (kind, i, cfg, opt, pk, par), res in pmap(one, jobs):
        topo = cfg["topology"]
        f = files(cfg, opt, pk, res)
        if crashed(ck, topo, cfg, opt, pk, res):
            ck.case()
            continue
        K = res.packets
        if len(K) < len(pk) or res.of("L"):
            ck.violation("%s-undelivered" % topo, "%d of %d packets never arrived (%s case %d)" % (len(pk) - len(K), len(pk), kind, i), f)
            ck.case()
            continue
        if kind == "lat":
            rd, al, sa, cd, link, xb = par
            hops = set()
            for k in K:
                h, lat = k["hops"], k["head"] - k["hinj"]
                if link == "flatfly":
                    c, w = cfg["c"], cfg["k"]
                    ok = {h * (rd + al + 1 + xb) + 1 + e for e in flatfly_extra(k, c, w)}
                else:
                    ok = {h * (rd + al + 1 + xb) + 1 + (h - 1) * link}
                if lat not in ok:
                    ck.violation("%s-latency" % topo, "a packet crossed %d routers in %d cycles, the configured delays give %s (routing %d, allocation %d, crossbar %d, case %d, time unit %d from %d)" % (
                        h, lat, sorted(ok), rd, al, xb, i, opt["scale"], opt["base"]), f)
                if k["tail"] - k["head"] != (k["n"] - 1) * sa:  # each flit of a packet is allocated after the one before
                    ck.violation("%s-serialisation" % topo, "%d flits of an unhindered packet arrived over %d cycles (case %d)" % (k["n"], k["tail"] - k["head"] + 1, i), f)
                hops.add(h)
                ck.count("multi_hop_packets", h > 1)
            ck.count("packets_timed", len(K))
            ck.case((topo, par) if len(hops) > 1 else None, "%s routing %d allocation %d crossbar %d: %d packets over %s routers" % (topo, rd, al, xb, len(K), sorted(hops)))
        elif kind == "loop":
            rd, va, sa, cd = par
            t = sorted(k["head"] for k in K)
            gaps = {b - a for a, b in zip(t[60:], t[61:])}
            want = rd + va + sa + cd + 4
            if gaps != {want}:
                ck.violation("credit-loop", "with one-flit buffers packets follow each other every %s cycles, the configured delays give %d (routing %d, VC %d, switch %d, credit %d, case %d)" % (
                    sorted(gaps)[:6], want, rd, va, sa, cd, i), f)
            ck.count("credit_loops_timed")
            ck.case(("loop", par))
        elif kind == "slots":
            rd, va, sa, cd, B = par
            if K[0]["n"] > 1:
                per, want = (K[1]["tail"] - K[1]["head"]) / (K[1]["n"] - 1), max(1, (sa + cd + 4) / B)
            else:
                t = sorted(k["tail"] for k in K)
                per, want = (t[400] - t[100]) / 300, max(rd + va + 1, (rd + va + sa + cd + 4) / B)
            if abs(per - want) > .015 * want:
                ck.violation("slots", "with %d-slot buffers %d-flit packets move at %.3f cycles per flit, the configured delays give %.3f (routing %d, VC %d, switch %d, credit %d, case %d)" % (
                    B, K[0]["n"], per, want, rd, va, sa, cd, i), f)
            ck.count("credit_loops_timed")
            ck.case(("slots", par))
        else:
            k = K[0]
            if k["tail"] - k["head"] != k["n"] - 1:
                ck.violation("link-rate", "a stream of %d flits with deep buffers took %d cycles" % (k["n"], k["tail"] - k["head"] + 1), f)
            ck.count("streams_timed")
            ck.case(("stream", par))
        rmtree(res.dir)


def flatfly_extra(k, c, w):
    """Link cycles of a row-then-column route beyond one per hop: a link over d grid steps takes 2*d cycles."""
    a, b = node_router(k["src"], c, w), node_router(k["dst"], c, w)
    dx, dy = abs(a % w - b % w), abs(a // w - b // w)
    return {LINK[dx] + LINK[dy]}


LINK = {0: 0, 1: 1, 2: 3, 3: 5}


def node_router(n, c, w):
    # nodes are numbered row by row over the whole chip, two by two per router
    row, col = n // (2 * w), n % (2 * w)
    return (row // 2) * w + col // 2
