"""P06: routing reaches every destination, on the packet type's own virtual channels, by shortest routes where promised, without cyclic waits."""
from bs import *

FINISH = dict(min_nontrivial=40, need=("routing_decisions", "channel_dependencies", "adaptive_choices", "random_graphs"))
NONMIN = {("mesh", "valiant"), ("torus", "valiant"), ("torus", "valiant_ni"), ("flatfly", "valiant"), ("flatfly", "ugal"), ("flatfly", "ugal_pni"), ("flatfly", "ugal_xyyx")}


def mode(topo, rf):
    if (topo, rf) in NONMIN:
        return 0
    if topo == "mesh" or (topo == "cmesh" and rf.endswith("no_express")):
        return 3
    return 4 if topo == "cmesh" else 1


def graph(rng, style):
    """A random connected any-net: (text, routers, nodes)."""
    R = rng.randint(2, 9)
    edges = {}
    for r in range(1, R):
        edges[(rng.randrange(r), r)] = rng.choice([1, 1, 2, 3, 7])
    if style == "graph":
        for _ in range(rng.randint(1, R)):
            a, b = sorted(rng.sample(range(R), 2))
            edges.setdefault((a, b), rng.choice([1, 1, 2, 3, 7]))
    nodes = list(range(R)) + [rng.randrange(R) for _ in range(rng.randint(0, R))]
    first, rest = nodes[:R], nodes[R:]
    rng.shuffle(first)
    at = first + rest           # at[node] = router
    lines = []
    for r in range(R):
        l = "router %d" % r
        for n, x in enumerate(at):
            if x == r:
                l += " node %d" % n
        for (a, b), w in sorted(edges.items()):
            if a == r:
                l += " router %d%s" % (b, " %d" % w if w > 1 else "")
        lines.append(l)
    return "\n".join(lines) + "\n", R, len(at)


def check(ck):
    ck.rule = ("the real routing function is called from every source to every destination on every VC of every type and along every alternative it offers, with random "
               "queue lengths where it asks for them; the channels followed are those of the built network; non-trivial: networks whose routes have at least two hops")
    ck.assumptions = ["topology/routing pairs of lib/bs.py plus random any-net graphs in which every router has a node",
                      "the cyclic-wait part is not claimed for any-net graphs with cycles (BookSim documents that their routing may deadlock) nor for min_adapt, whose adaptive VCs may wait in cycles because an escape VC remains (P04 runs it under load)"]
    thorough = ck.tier == "thorough"
    exe = {"plain": build_booksim("plain", "harness/bs/route_main.cpp", "route"), "san": build_booksim("san", "harness/bs/route_main.cpp", "route")}
    rng = random.Random(SEED * 31 + 6)
    jobs = []
    for rep in range(6 if thorough else 1):
        for topo, rf, par, per in TOPO:
            ks = par["k"] if isinstance(par["k"], list) else [par["k"]]
            for k in ks:
                if k ** par["n"] > (256 if thorough else 64):
                    continue
                p = dict(par, k=k)
                if topo == "flatfly":
                    p["x"] = p["y"] = k
                types = rng.choice([1, 2, 5]) if per < 9 else 1
                if thorough and per < 9:
                    types = 5
                cfg = make_cfg(rng, topo, rf, p, per * (rng.choice([1, 1, 2]) if per < 9 else 1), types, seed=rng.randint(1, 10000), vc_allocator="islip", sw_allocator="islip")
                n = nodes(topo, p)
                trials = 1 if (topo, rf) in DETERMINISTIC else max(2, min(12, 60000 // (n * n * cfg["num_vcs"])))
                jobs.append(("%s-%s" % (topo, rf), len(jobs), cfg, types, trials, mode(topo, rf), 0 if rf == "min_adapt" else 1, None, "san" if n <= 16 else "plain"))
    for g in range(400 if thorough else 60):
        style = "tree" if g % 2 else "graph"
        text, R, n = graph(rng, style)
        types = rng.choice([1, 2])
        cfg = make_cfg(rng, "anynet", "min", dict(k=2, n=1, network_file="net"), rng.choice([1, 2]), types, seed=1)
        jobs.append(("anynet-" + style, len(jobs), cfg, types, 1, 2, 1 if style == "tree" else 0, text, "plain"))

    def one(j):
        name, i, cfg, types, trials, md, acyc, text, flavor = j
        d = os.path.join(BUILD, "bsrun", "p06_%d" % i)
        os.makedirs(d, exist_ok=True)
        with open(d + "/cfg", "w") as f:
            f.write("".join("%s = %s;\n" % kv for kv in cfg.items()))
        if text:
            with open(d + "/net", "w") as f:
                f.write(text)
        if os.path.exists(d + "/log"):
            os.unlink(d + "/log")
        cmd = [exe[flavor], "cfg", "log", str(types), str(trials), str(md), str(acyc)]
        r = run(cmd, cwd=d, timeout=200)
        if r.timed_out:
            r = run(cmd, cwd=d, timeout=500)
        res = Run(r, [l.split() for l in open(d + "/log")] if os.path.exists(d + "/log") else [])
        res.dir = d
        return j, res
    for (name, i, cfg, types, trials, md, acyc, text, flavor), res in pmap(one, jobs):
        fl = {"cfg": res.dir + "/cfg", "net": res.dir + "/net", "log": res.dir + "/log", "output": "\n" + res.r.out[-4000:]}
        if res.r.rc != 0 or not res.of("E"):
            what = "does not come to an end" if res.r.timed_out else "failed (exit code %s): %s" % (res.r.rc, " ".join(res.r.out[-600:].split())[:400])
            ck.violation("%s-%s" % (name, "hang" if res.r.timed_out else "crash"), "routing walk %s" % what, fl)
            ck.case()
            continue
        for v in res.of("V"):
            ck.violation("%s-%s" % (name, v[1]), " ".join(v[2:]) + " (k=%s n=%s)" % (cfg["k"], cfg["n"]), fl)
        e = res.of("E")[0]
        e = dict(zip(e[1::2], map(int, e[2::2])))
        ck.count("routing_decisions", e["steps"])
        ck.count("routes_walked", e["paths"])
        ck.count("channel_dependencies", e["dependencies"])
        ck.count("adaptive_choices", e["choices"])
        ck.peak("longest_route", e["maxhops"])
        if text:
            ck.count("random_graphs")
        ck.case((name, cfg["k"], cfg["n"], text) if e["maxhops"] > 1 else None, "%s k=%s n=%s: %d decisions, %d dependencies, longest route %d" % (name, cfg["k"], cfg["n"], e["steps"], e["dependencies"], e["maxhops"]))
        rmtree(res.dir)
    # any-net trees under load: everything arrives
    bexe = build_booksim("plain")

    def load(g):
        r2 = random.Random(SEED * 1000 + g)
        text, R, n = graph(r2, "tree")
        types = r2.choice([1, 3])
        cfg = make_cfg(r2, "anynet", "min", dict(k=2, n=1, network_file="net"), 1, types)
        pk = [(j + 1, r2.randrange(n), r2.randrange(n), r2.randrange(types), r2.choice([1, 3, 6]), r2.randint(0, 100), 0) for j in range(150)]
        d = os.path.join(BUILD, "bsrun", "p06_load%d" % g)
        os.makedirs(d, exist_ok=True)
        with open(d + "/net", "w") as f:
            f.write(text)
        opt = dict(seed=g + 1, types=types, maxcyc=60000, drain=300, stall=r2.choice([0, 60]), mode=5, quiesce=1)
        return cfg, opt, pk, run_bs(bexe, cfg, opt, pk, "p06_load%d" % g)
    for cfg, opt, pk, res in pmap(load, range(200 if thorough else 30)):
        if crashed(ck, "anynet-load", cfg, opt, pk, res):
            ck.case()
            continue
        for v in res.of("V") + res.of("L"):
            ck.violation("anynet-load-%s" % (v[1] if v[0] == "V" else "lost"), " ".join(v)[:300], files(cfg, opt, pk, res))
        ck.count("loaded_trees")
        ck.case()
        rmtree(res.dir)
