"""P18: statistics, traffic flows, traces and the log report what happened."""
from mnoc import *
from xrad import *
from telem import *

FINISH = dict(min_nontrivial=40, need=("transactions", "timestamps_on_their_clock", "transactions_over_several_hops", "flows", "trace_events", "messages", "flows_of_several_rads", "transactions_between_rads"))


def gen(rng, group, idx):
    sc = gen_mnoc(rng, group, idx)
    drv = rng.choice([5.0, 5.0, 4.0, 3.3, 2.5, 0.7, 0.571, 1.667])
    sc.cfg["cluster"].update(sim_driver_period=drv, telemetry_log_verbosity=rng.randrange(5), telemetry_traces=["tr%d" % i for i in range(rng.choice([0, 1, 2, 5]))])
    sc.maxcyc, sc.drain, sc.idle = (int(v * 5.0 / drv) + 1 for v in (sc.maxcyc, sc.drain, sc.idle))
    return sc


def clocks(sc):
    clk = {}
    for rad, l in sc.clks.items():
        for line in l:
            m, a, b = line.split()
            clk[(rad, m)] = (int(a), int(b))
    ad = [round(p * 1000) for p in sc.cfg["noc_adapters"]["clk_period"]]
    mod = {rad: [round(p * 1000) for p in sc.cfg["config " + sc.cfg["cluster"]["cluster_configs"][rad]]["design"]["clk_periods"]] for rad in range(sc.rads())}

    def of(rad, p):
        if not p:
            return None, None
        a, b = clk[(rad, p["module"])]
        return ad[a], mod[rad][b]
    return of


def read(path):
    try:
        with open(path) as f:
            return f.read()
    except OSError:
        return ""


def check(ck):
    ck.rule = ("random RADs with 2 or 3 NoCs (own sizes and clocks), several adapter and module clocks, driver periods, AXI-S and AXI-MM traffic with gaps and stalls, 0-5 traces, all log verbosities; "
               "non-trivial: transactions crossed at least two routers and every file was compared")
    ck.assumptions = ["times in the statistics file have six significant digits; clocks are compared where these tell edges apart", "all ports of a node belong to one module"]
    thorough = ck.tier == "thorough"

    def judge(i, sc, root, r):
        if abnormal(ck, sc, root, r):
            ck.case()
            return
        e = next(e for e in r.events if e[0] == "E")
        if e[2] != "done":
            ck.count("unfinished")  # P17's business
            ck.case()
            return
        stats = read_stats(os.path.join(root, "stats.csv"))
        bad, n = check_stats(sc, r.events, stats, clocks(sc))
        files = {(rad, q): read(os.path.join(root, "flows%d_noc%d.xml" % (rad, q))) for rad in range(sc.rads()) for q in range(sc.cfg["noc"]["num_nocs"])}
        bad2, n2 = check_flows(sc, r.events, files)
        drv = round(sc.cfg["cluster"]["sim_driver_period"] * 1000)
        bad3, n3 = check_traces(sc, r.events, read(os.path.join(root, "sim.trace")), drv)
        bad4, n4 = check_log(sc, r.events, read(os.path.join(root, "sim.log")), drv, "sim.log")
        bad5, _ = check_log(sc, r.events, r.out, drv, "the console")
        for k, text in bad + bad2 + bad3 + bad4 + bad5:
            ck.violation(k, text, {**replay_files(sc, root, r), "stats.csv": os.path.join(root, "stats.csv")})
        ck.count("transactions", n["rows"])
        ck.count("timestamps_on_their_clock", n["edges"])
        ck.count("transactions_over_several_hops", n["multi_hop"])
        ck.count("flows", n2["flows"])
        ck.count("trace_events", n3)
        ck.count("messages", n4)
        ck.case((i,) if n["multi_hop"] and n2["flows"] else None, "RAD %d: NoCs of %s, driver %s ns, %d transactions, %d flows, %d trace events, %d messages at verbosity %d" % (
            i, " ".join("%dx%d" % (k, k) for k in sc.ks), sc.cfg["cluster"]["sim_driver_period"], n["rows"], n2["flows"], n3, n4, sc.cfg["cluster"]["telemetry_log_verbosity"]))
    explore(ck, MNOC, gen, 1600 if thorough else 160, judge, tag="p18_", stats=True)

    def gen2(rng, group, idx):
        sc = gen_xrad(rng, group, idx)
        sc.axis_w = group["axis_w"]
        return sc

    def judge2(i, sc, root, r):
        if abnormal(ck, sc, root, r):
            ck.case()
            return
        if next(e for e in r.events if e[0] == "E")[2] != "done":
            ck.count("unfinished")  # P14's business
            ck.case()
            return
        files = {(rad, 0): read(os.path.join(root, "flows%d_noc0.xml" % rad)) for rad in range(sc.rads())}
        bad, n = check_flows(sc, r.events, files)
        for k, text in bad:
            ck.violation("x" + k, text, replay_files(sc, root, r))
        ck.count("flows_of_several_rads", n["flows"])
        ck.count("transactions_between_rads", n.get("crossing", 0))
        ck.case(("x", i) if n.get("crossing") else None, "cluster %d: %d RADs, %d flows, %d transactions between RADs" % (i, sc.rads(), n["flows"], n.get("crossing", 0)))
    explore(ck, XRAD[:2], gen2, 800 if thorough else 80, judge2, tag="p18x_", stats=True)
