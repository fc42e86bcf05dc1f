"""P25: ports, adapters and clocks cost the time they are configured to cost: no cycle more, none less."""
from xrad import *
from telem import *

FINISH = dict(min_nontrivial=60, need=("stages_timed", "alone_transfers", "streams_timed", "stream_transfers", "scaled_runs", "scaled_events"))
PER = [0.5, 0.8, 1.0, 1.25, 1.5, 2.0, 3.0]


def base(rng, group, nf, mm, slowest=None):
    k = rng.choice(group["ks"])
    same = rng.random() < 0.3
    p = rng.choice(PER)
    per = dict(noc=p, ad=p, mod=p) if same else dict(noc=rng.choice(PER), ad=rng.choice(PER), mod=rng.choice(PER + [3.32, 5.0, 7.0]))
    pipe = rng.choice([0, 1, 2, 3]), rng.choice([1, 2, 3]), rng.choice([1, 1, 2])
    if slowest == "module":
        per["noc"], per["ad"], pipe = rng.choice([0.5, 0.8]), rng.choice([0.5, 0.8]), (pipe[0], pipe[1], 1)
        slow = max((pipe[0] + pipe[1] + nf) * per["noc"], nf * per["ad"])
        per["mod"] = rng.choice([x for x in (1.5, 2.0, 3.0, 3.32, 5.0, 7.0, 9.0, 12.0, 20.0) if x >= slow][:3])
    elif slowest == "adapter":
        per["noc"], per["ad"], pipe = 0.5, rng.choice([2.0, 3.0, 5.0]), (pipe[0], pipe[1], 1)
    types = 5 if mm else group["types"]
    noc = dict(payload_width=[group["payload"]], dim_x=[k], dim_y=[k], clk_period=[per["noc"]], vcs=[types], num_packet_types=[types], vc_buffer_size=[rng.choice([48, 64]) + 4 * nf], output_buffer_size=[8],
               credit_delay=[rng.choice([0, 1, 2])], routing_delay=[pipe[0]], vc_alloc_delay=[pipe[1]], sw_alloc_delay=[pipe[2]])
    w, uw, idw = group.get("max_w", 512), group.get("uw", 64), group.get("idw", 8)
    ifc = {"max_axis_tdata_width": 64, "axis_tuser_width": 32, "max_axi_data_width": w, "axi_user_width": uw, "axi_id_width": idw} if mm else {"max_axis_tdata_width": group["axis_w"], "axis_tuser_width": group["tuser"]}
    cfg = make_config(noc, dict(clk_period=[per["ad"]], fifo_size=[96 + 4 * nf], obuff_size=[rng.choice([4, 8])]), {"sim_driver_period": rng.choice([1.0, 5.0])}, None, ifc)
    cfg["config rad1"]["design"]["clk_periods"] = [per["mod"]]
    sc = Scenario(cfg)
    sc.per, sc.nf, sc.k, sc.payload, sc.uw = per, nf, k, group["payload"], uw
    sc.pipe = pipe
    sc.seed, sc.rstcyc, sc.drain = rng.randrange(1 << 30), rng.choice([1, 3]), 200
    sc.nodes = rng.sample(range(k * k), min(k * k, 3))
    return sc


def axis_nf(g):
    return math.ceil((g["axis_w"] + g["tuser"] + 1) / g["payload"])


def mm_nf(g):
    return math.ceil((max(g.get("max_w", 512), 77) + 2 + g.get("uw", 64) + 1) / g["payload"])


def gen_alone_axis(rng, group, idx):
    sc = base(rng, group, axis_nf(group), False)
    n = len(sc.nodes)
    for i, node in enumerate(sc.nodes):
        sc.module(0, "axis", "m%d" % i)
        sc.port(0, "m%d" % i, "m", "tx", group["axis_w"], rng.randrange(group["types"]), 0, node, "axis")
        sc.port(0, "m%d" % i, "s", "rx", group["axis_w"], 0, 0, node, "axis")
    p = sc.per
    apart = 60 + 8 * p["mod"] + 2 * sc.k * (sum(sc.pipe) + 3) * p["noc"] + sc.nf * (2 * p["ad"] + 2 * p["noc"] * sc.pipe[2]) + 6 * p["ad"]  # ns: longer than anything takes
    order = rng.sample(range(n), n)
    for j, i in enumerate(order):
        sc.flow(0, "m%d.tx" % i, 0, "m%d.rx" % rng.choice([x for x in range(n) if x != i]), 1)
        sc.opt(0, "m%d.tx" % i, gap=0, burst=1, start=int((j * apart + rng.randrange(60)) / sc.per["mod"]))
    sc.maxcyc = int((n + 3) * apart / sc.cfg["cluster"]["sim_driver_period"])
    return sc


def gen_alone_mm(rng, group, idx):
    sc = base(rng, group, mm_nf(group), True)
    w = rng.choice(group["mm_w"])
    a, b = sc.nodes[:2]
    sc.module(0, "mmm", "m0")
    sc.module(0, "mms", "m1")
    sc.port(0, "m0", "m", "axi", w, 0, 0, a, "aximm")
    sc.port(0, "m1", "s", "axi", w, 0, 0, b, "aximm")
    sc.op(0, "m0.axi", "R", "m1.axi", 64, 0, 0, 0, 1)  # a write's address and data are two transfers side by side, so reads only
    sc.opt(0, "m0.axi", gap=0, stall=0, mode=1)
    sc.opt(0, "m1.axi", gap=0, stall=0, mode=1)
    sc.maxcyc = 4000
    return sc


NSTREAM = 120


def gen_stream_axis(rng, group, idx):
    while True:  # the module keeps the adapter's short input queue filled, or is the slowest stage itself
        sc = base(rng, group, axis_nf(group), False, rng.choice([None, "module", "adapter"]))
        slow = max((sc.pipe[0] + sc.pipe[1] + sc.nf * sc.pipe[2]) * sc.per["noc"], sc.nf * sc.per["ad"])
        if not slow / 2 < sc.per["mod"] < slow:
            break
    for i, (pn, r) in enumerate((("tx", "m"), ("rx", "s"))):
        sc.module(0, "axis", "m%d" % i)
        sc.port(0, "m%d" % i, r, pn, group["axis_w"], rng.randrange(group["types"]) if r == "m" else 0, 0, sc.nodes[i], "axis")
    sc.flow(0, "m0.tx", 0, "m1.rx", NSTREAM)
    sc.opt(0, "m0.tx", gap=0, burst=1, start=rng.randrange(9))
    sc.opt(0, "m1.rx", stall=0, mode=1)
    sc.maxcyc = 40000
    return sc


def gen_stream_mm(rng, group, idx):
    while True:  # the memory-mapped adapters take one transfer at a time, so only the NoC can be the slowest stage here
        sc = gen_alone_mm(rng, group, idx)
        w = sc.ports[(0, "m0.axi")]["dataw"]
        sc.nf = math.ceil((w + 2 + sc.uw + 1) / sc.payload)
        if (sc.pipe[0] + sc.pipe[1] + sc.nf * sc.pipe[2]) * sc.per["noc"] >= (sc.nf + 2) * sc.per["ad"] + 4 * sc.per["mod"]:
            break
    sc.ops = []
    for i in range(NSTREAM // 16):
        sc.op(0, "m0.axi", "R", "m1.axi", 4096 * i, 15, 0, 0, 1)
    sc.opt(0, "m0.axi", maxout=40)
    sc.maxcyc = 40000
    return sc


def edges(t, p):
    """The edges of a clock of period p (ps) at (if there is one) and after t."""
    n = math.floor((t + 25) / p)
    return [n * p, n * p + p] if abs(n * p - t) <= 25 else [n * p + p]


def check(ck):
    ck.rule = ("random meshes, delays, widths and clocks: transfers alone in the system, every stage's time in the statistics against the edges of the stage's clock; streams on deep buffers, their rate against the slowest stage's; "
               "scenarios with all traffic run twice, with every clock period multiplied, event by event; non-trivial: clocks differ, or more than one flit or hop")
    ck.assumptions = ["as P01 and P03", "timing of transfers alone and of streams: one NoC, dimension-order routing, buffers deeper than the credit loop", "at an edge shared by two clocks either stage may run first (SystemC leaves the order open)"]
    thorough = ck.tier == "thorough"
    one_in = lambda n: 900 // n if thorough else 60 // n

    def ps(x):
        return int(round(x * 1000))

    def alone(mm):
        def judge(i, sc, root, r):
            if abnormal(ck, sc, root, r):
                return ck.case()
            P = {k: ps(v) for k, v in sc.per.items()}
            rt, va, sa = sc.pipe
            bad = []
            for x in read_stats(os.path.join(root, "stats.csv")):
                t = {c: ps(x[c]) for c in COLS[6:12]}
                if t["receive"] > 10 ** 7:
                    raise HarnessError("times too long to be printed exactly")
                near = lambda c, s: any(abs(t[c] - y) <= 25 for y in s)
                ck.count("alone_transfers")
                ck.count("stages_timed", 5)
                n = sc.nf
                if mm:  # a read's address with its control fields, or its data
                    bits = 64 + 13 if x["src"] == sc.nodes[0] else x["dataw"]
                    n = math.ceil((bits + 2 + sc.uw + 1) / sc.payload)
                first = edges(t["init"], P["ad"])
                # AXI-S: a flit per cycle; AXI-MM: all flits at once, in the cycles that they or one module cycle take
                due = [f + (n - 1) * P["ad"] for f in first] if not mm else [f + max(1, max(n, P["mod"] // P["ad"]) - 2 + j) * P["ad"] for f in first for j in (0, 1)]
                if not near("packet", due):
                    bad.append(("packetization", "accepted at %d ps, packed at %d" % (t["init"], t["packet"]), due))
                due = sorted({y for f in first for y in edges(f, P["noc"])})
                if not near("inject", due):
                    bad.append(("injection", "accepted at %d ps, injected at %d" % (t["init"], t["inject"]), due))
                noc = (x["hops"] * (rt + va + sa + 2) + 1) * P["noc"]
                tail = (n - 1) * sa * P["noc"]
                if mm or P["ad"] <= P["noc"]:
                    due = [t["inject"] + noc + tail]
                    if not near("eject", due):
                        bad.append(("crossing", "injected at %d ps, ejected at %d after %d hops" % (t["inject"], t["eject"], x["hops"]), due))
                elif not noc + tail - 25 <= t["eject"] - t["inject"] <= noc + max(tail, (n - 1) * P["ad"]) + P["noc"] * (sa + 1) + 25:
                    bad.append(("crossing", "injected at %d ps, ejected at %d after %d hops" % (t["inject"], t["eject"], x["hops"]), [t["inject"] + noc + tail]))
                due = [edges(t["eject"], P["ad"])[-1] + (n - 1) * P["ad"]]
                if not near("depacket", due):
                    bad.append(("depacketization", "ejected at %d ps, unpacked at %d" % (t["eject"], t["depacket"]), due))
                due = [y + P["mod"] for y in edges(t["depacket"], P["mod"])]
                if not near("receive", due):
                    bad.append(("output", "unpacked at %d ps, received at %d" % (t["depacket"], t["receive"]), due))
            for k, text, due in bad[:1]:
                ck.violation("%s_%s" % ("mm" if mm else "axis", k), "%s, not at %s (clocks %s, delays %s, %d flits)" % (text, " or ".join(map(str, due)), sc.per, sc.pipe, sc.nf), replay_files(sc, root, r))
            ck.case(("alone", mm, i), "alone %d (%s): clocks %s, delays %s, %d flits" % (i, "AXI-MM" if mm else "AXI-S", sc.per, sc.pipe, sc.nf))
        return judge

    def stream(mm):
        def judge(i, sc, root, r):
            if abnormal(ck, sc, root, r):
                return ck.case()
            P = {k: ps(v) for k, v in sc.per.items()}
            rt, va, sa = sc.pipe
            R = [int(e[2]) for e in r.events if e[0] == ("RR" if mm else "R")]
            if len(R) < 90:
                ck.violation("stream_stuck", "%d transfers of the stream arrived" % len(R), replay_files(sc, root, r))
                return ck.case()
            due = max((rt + va + sc.nf * sa) * P["noc"], sc.nf * P["ad"], P["mod"])
            a, b = 30, len(R) - 2
            rate = (R[b] - R[a]) / (b - a)
            tol = 2 * (P["noc"] * (1 + sa) + P["ad"] + 2 * P["mod"]) / (b - a) + 25
            ck.count("streams_timed")
            ck.count("stream_transfers", len(R))
            if abs(rate - due) > tol:
                ck.violation("%s_rate_%s" % ("mm" if mm else "axis", "slow" if rate > due else "fast"), "a stream moves a transfer every %.0f ps, its slowest stage takes %d ps (clocks %s, delays %s, %d flits)" % (rate, due, sc.per, sc.pipe, sc.nf), replay_files(sc, root, r))
            ck.case(("stream", mm, i))
        return judge

    def scaled():
        def judge(i, sc, root, r):
            if abnormal(ck, sc, root, r):
                return ck.case()
            k = sc.scale
            for name, sec in sc.cfg.items():
                d = sec.get("design", sec) if name.startswith("config") else sec
                for key in ("clk_period", "clk_periods"):
                    if key in d:
                        d[key] = [x * k for x in d[key]]
            c = sc.cfg["cluster"]
            c["sim_driver_period"] *= k
            if "inter_rad_latency" in c:
                c["inter_rad_latency"] *= k
                c["inter_rad_bw"] /= k
            root2 = prepare(sc, "p25k_%s%d" % (sc.name, i))
            r2 = execute(root2, build_binary(root2, "plain"), timeout=240)
            if abnormal(ck, sc, root2, r2):
                return ck.case()

            def of(ev, k):
                return [tuple(x if j != 2 or e[0][0] == "X" else str(int(x) * k) for j, x in enumerate(e)) for e in ev if e[0] not in ("P", "E", "D", "F", "XO", "XH", "XI")]
            a, b = of(r.events, k), of(r2.events, 1)
            ck.count("scaled_runs")
            ck.count("scaled_events", len(b))
            if a != b:
                j = next((j for j, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
                ck.violation("scaled", "with every clock period times %d the runs differ from event %d of %d: %s, due %s" % (k, j, len(a), " ".join(b[j])[:90] if j < len(b) else "nothing", " ".join(a[j])[:90] if j < len(a) else "nothing"),
                             {**replay_files(sc, root, r), "events2.log": os.path.join(root2, "events.log")})
            ck.case(("scaled", sc.name, i), "scaled %s: times %d, %d events" % (sc.name, k, len(b)) if i < 4 else None)
            rmtree(os.path.dirname(root2))
        return judge

    def with_scale(g):
        def gen(rng, group, idx):
            sc = g(rng, group, idx)
            for key in ("noc", "noc_adapters"):  # both edges of a clock in whole picoseconds
                sc.cfg[key]["clk_period"] = [0.572 if x == 0.571 else x for x in sc.cfg[key]["clk_period"]]
            sc.scale = rng.choice([2, 4, 8] if sc.rads() > 1 else [2, 3, 4, 5, 10])  # a bandwidth divided by 3 is not the same decimal
            return sc
        return gen
    few = (lambda G: G) if thorough else (lambda G: G[:3])
    explore(ck, few(AXIS), gen_alone_axis, one_in(1), alone(False), tag="p25a_", stats=True)
    explore(ck, few(AXIS), gen_stream_axis, one_in(1), stream(False), tag="p25b_")
    explore(ck, few(AXIMM), gen_alone_mm, one_in(1), alone(True), tag="p25c_", stats=True)
    explore(ck, few(AXIMM), gen_stream_mm, one_in(2), stream(True), tag="p25d_")
    explore(ck, few(AXIS), with_scale(gen_axis), one_in(2), scaled(), tag="p25e_")
    explore(ck, few(AXIMM), with_scale(gen_aximm), one_in(3), scaled(), tag="p25f_")
    explore(ck, few(XRAD), with_scale(gen_xrad), one_in(4), scaled(), tag="p25g_")
