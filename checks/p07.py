"""P07: allocators and arbiters grant only what was asked, to one requester each, by priority and in turn."""
from bs import *

FINISH = dict(min_nontrivial=60, need=("contested_allocations", "contested_arbitrations", "persistent_workloads", "prioritised_allocations"))
KINDS = ["allocators_" + a for a in ALLOC] + ["arbiters_" + a for a in ("round_robin", "matrix", "tree-round_robin", "tree-matrix")]


def check(ck):
    ck.rule = ("random request sets, priorities and histories put to every allocator and arbiter BookSim's routers can be configured with; each round's grants are judged against "
               "the requests and, for arbiters, a reference model of whose turn it is; non-trivial: batches with contested requests")
    ck.assumptions = ["requests are cleared after each round, as the routers do", "max_size is exempt from the no-starvation part (a maximum matching may leave an input out for ever)"]
    thorough = ck.tier == "thorough"
    exe = {"plain": build_booksim("plain", "harness/bs/alloc_main.cpp", "alloc"), "san": build_booksim("san", "harness/bs/alloc_main.cpp", "alloc")}
    batches = [("plain", 150)] * (640 if thorough else 64) + [("san", 60)] * (160 if thorough else 32)

    def one(t):
        i, (flavor, n) = t
        log = os.path.join(BUILD, "bsrun", "p07_%d.log" % i)
        os.makedirs(os.path.dirname(log), exist_ok=True)
        if os.path.exists(log):
            os.unlink(log)
        r = run([exe[flavor], log, str(SEED * 100000 + i), str(n), "40"], timeout=240)
        return i, flavor, log, Run(r, [l.split() for l in open(log)] if os.path.exists(log) else [])
    for i, flavor, log, res in pmap(one, enumerate(batches)):
        f = {"log": log, "output": "\n" + res.r.out[-4000:], "how": "harness alloc_main.cpp, arguments: log %d %d 40\n" % (SEED * 100000 + i, batches[i][1])}
        for v in res.of("V"):
            ck.violation(v[1], " ".join(v[2:]) + " (batch %d)" % i, f)
        if res.r.timed_out:
            ck.violation("hang", "an allocation does not come to an end (batch %d)" % i, f)
        elif res.r.rc or not res.of("E"):
            ck.violation("crash", "the allocator harness failed (exit code %s): %s" % (res.r.rc, " ".join(res.r.out[-600:].split())[:400]), f)
        c = {l[1]: int(l[2]) for l in res.of("C")}
        for k, v in c.items():
            (ck.peak if k.startswith("longest") else ck.count)(k, v)
        ck.case((i, flavor) if c.get("contested_allocations") else None, "batch %d: %s" % (i, {k: c.get(k) for k in ("allocations", "grants", "contested_allocations", "arbitrations")}))
        os.path.exists(log) and os.unlink(log)
    missing = [k for k in KINDS if not ck.counts.get(k)]
    if missing and not ck.viol:
        raise HarnessError("never exercised: %s" % missing)
