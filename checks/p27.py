"""P27: packets that contend for a link share it by turns and without idle cycles; packets that share nothing do not affect each other."""
from collections import Counter
from bs import *

FINISH = dict(min_nontrivial=40, need=("contended_links", "flits_at_contended_links", "types_compared", "undisturbed_packets", "flows_side_by_side"))
FAIR = ["islip", "separable_input_first", "separable_output_first", "select"]
SKIP, SPAN = 400, 2400   # cycles: warm-up, observation


def coords(v, k, n):
    return [v // k ** i % k for i in range(n)]


def node(c, k):
    return sum(x * k ** i for i, x in enumerate(c))


def step(c, dim, d, k):
    c = list(c)
    c[dim] += d
    return c if 0 <= c[dim] < k else None


def merge(rng, topo, p):
    """Sources whose packets meet on different inputs of one router and leave it over one link, and their destination."""
    k, n = p["k"], p["n"]
    if topo == "mesh":
        at = [rng.randrange(k) for _ in range(n)]
        near = [node(s, k) for dim in range(n) for d in (-1, 1) for s in [step(at, dim, d, k)] if s]
        dim = n - 1
        to = step(at, dim, rng.choice([-1, 1]), k)
        if to and rng.random() < .5:   # the link to a neighbour, in the dimension that is routed last
            return [s for s in near if s != node(to, k)] + [node(at, k)], node(to, k)
        return near + [node(at, k)], node(at, k)
    if topo == "cmesh":
        at, w = rng.randrange(k * k), k * 2
        own = [(at // k * 2 + j) * w + at % k * 2 + i for j in range(2) for i in range(2)]
        return own, rng.choice(own)
    if topo == "fly":
        d = rng.randrange(k ** n)
        return [i * k + rng.randrange(k) for i in range(k)], d
    leaf = rng.randrange(k ** (n - 1))
    return [leaf * k + i for i in range(k)], leaf * k + rng.randrange(k)


def links(s, d, k, n):
    c, t, out = coords(s, k, n), coords(d, k, n), {("in", s), ("out", d)}
    for dim in range(n):
        while c[dim] != t[dim]:
            m = step(c, dim, 1 if t[dim] > c[dim] else -1, k)
            out.add((node(c, k), node(m, k)))
            c = m
    return out


NETS = [("mesh", "dim_order", dict(n=2, k=[2, 3, 4])), ("mesh", "dim_order", dict(n=1, k=[3, 5])), ("mesh", "dim_order", dict(n=3, k=[2, 3])), ("mesh", "dor", dict(n=2, k=[3])),
        ("cmesh", "dor_no_express", dict(n=2, k=[2, 4], c=4, x=8, y=8, xr=2, yr=2)), ("fly", "dest_tag", dict(n=2, k=[2, 3, 4])),
        ("qtree", "nca", dict(n=3, k=[4])), ("fattree", "nca", dict(n=2, k=[3, 4]))]


def check(ck):
    ck.rule = ("several sources saturate one link of a network: rate of the link and shares of its sources and packet types over %d cycles; and random traffic of flows that share no link, "
               "each packet's times compared with those of a run with its flow alone; non-trivial: a link with at least three contenders, or at least two flows side by side" % SPAN)
    ck.assumptions = ["rate and shares: one-cycle VC and switch allocation, buffers deeper than the credit loop, equal packet lengths; rate: allocators %s and wavefront; shares: %s" % ((", ".join(FAIR),) * 2),
                      "undisturbed flows: dimension-order meshes, every allocator"]
    thorough = ck.tier == "thorough"
    exe = build_booksim("plain")
    jobs = []
    for i in range(1200 if thorough else 160):
        rng = random.Random(SEED * 5003 + i)
        topo, rf, p, _ = pick(rng, NETS[i % len(NETS)] + (1,))
        V, types, n = rng.choice([1, 1, 1, 1, 2, 4]), rng.choice([1, 2, 3, 5]), rng.choice([1, 1, 2, 3, 5, 8])
        a = rng.choice(FAIR + ["wavefront"])
        src, dst = merge(rng, topo, p)
        while len(src) < 2:
            src, dst = merge(rng, topo, p)
        if len(src) == 2:
            n = max(n, 2)
        cfg = make_cfg(rng, topo, rf, p, V, types, vc_buf_size=rng.choice([24, 40]), output_buffer_size=rng.choice([-1, 8]), vc_allocator=a, sw_allocator=rng.choice([a, rng.choice(FAIR)]),
                       alloc_iters=1, wait_for_tail_credit=0, vc_alloc_delay=1, sw_alloc_delay=1)
        pk, j = [], 0
        for r in range((SKIP + SPAN) // n // max(1, len(src) // 2) + 2 * types * V):
            for s in src:
                j += 1
                pk.append((j, s, dst, r % types, n, 1, r // types % V))
        jobs.append(("share", i, cfg, dict(seed=i + 1, types=types, maxcyc=SKIP + SPAN + 100, drain=100, scale=rng.choice([1, 1000, 571])), pk, (src, dst, V, types, n)))
    for i in range(400 if thorough else 70):
        rng = random.Random(SEED * 7001 + i)
        topo, rf, p, _ = pick(rng, NETS[i % 3] + (1,))
        k, n = p["k"], p["n"]
        N, types, V = k ** n, rng.choice([1, 2, 3]), 1
        used, flows = set(), []
        for _ in range(60):
            s, d = rng.randrange(N), rng.randrange(N)
            l = links(s, d, k, n)
            if not l & used:
                used |= l
                flows.append((s, d))
        cfg = make_cfg(rng, topo, rf, p, V, types)
        cfg.update(rng.choice(EXTRA[:-2]) if rng.random() < .4 else {})
        pk, j = [], 0
        for s, d in flows:
            t, rate = 1, rng.choice([0, 3, 20])
            for _ in range(40):
                j += 1
                t += rng.randint(0, rate)
                pk.append((j, s, d, rng.randrange(types), rng.choice([1, 1, 2, 4, 7]), t, rng.randrange(4)))
        # one packet type, and so one VC, per flow: which of several goes first would be the allocator's choice
        pk = [(a, s, d, s % types, l, t, 0) for a, s, d, _, l, t, _ in pk]
        opt = dict(seed=i + 1, types=types, maxcyc=60000, drain=100, quiesce=1)
        jobs.append(("apart", i, cfg, opt, pk, flows))

    def one(j):
        kind, i, cfg, opt, pk, par = j
        res = run_bs(exe, cfg, opt, pk, "p27_%s%d" % (kind, i))
        alone = []
        if kind == "apart":
            for f in random.Random(i).sample(par, min(len(par), 4)):
                alone.append((f, run_bs(exe, cfg, opt, [q for q in pk if (q[1], q[2]) == f], "p27_alone%d" % i)))
        return j, res, alone
    for (kind, i, cfg, opt, pk, par), res, alone in pmap(one, jobs):
        name = "%s-%s" % (cfg["topology"], cfg["routing_function"])
        f = files(cfg, opt, pk, res)
        if crashed(ck, name, cfg, opt, pk, res) or any(crashed(ck, name, cfg, opt, pk, r) for _, r in alone):
            ck.case()
            continue
        if kind == "share":
            src, dst, V, types, n = par
            topo = cfg["topology"]
            K = [k for k in res.packets if k["recv"] == k["n"] and SKIP <= k["tail"] < SKIP + SPAN]
            per, sub = Counter(k["src"] for k in K), Counter((k["src"], k["type"]) for k in K)
            # A VC passes from one packet to the next in one cycle, or, if the packets pass through another router, in the cycles
            # that router takes to route. Meanwhile other VCs may use the link, or have to pass as well.
            g = cfg["routing_delay"] + 1 if topo == "mesh" and dst not in src else 1
            low, high = (n / (n + g), n / (n + g)) if V * types == 1 else (types * n / (types * n + 1 + g) if V == 1 else .5, 1)
            rate = len(K) * n / SPAN
            where = "%s, %d sources to node %d, %d-flit packets, %d VCs, %d types, allocators %s/%s %s, case %d" % (
                name, len(src), dst, n, V, types, cfg["vc_allocator"], cfg["sw_allocator"], cfg["arb_type"], i)
            tol = n * (2 + V * types) / SPAN
            if not low - tol <= rate <= high + tol:
                ck.violation("%s-rate" % name, "a saturated link moves %.3f flits per cycle, not %s (%s)" % (rate, "%.3f" % low if low == high else "%.3f to %.3f" % (low, high), where), f)
            fair = V == 1 and cfg["vc_allocator"] in FAIR and cfg["sw_allocator"] in FAIR
            a, b = min(per[s] for s in src), max(per[s] for s in src)
            if fair and b - a > 2 + .02 * b + types:
                ck.violation("%s-share" % name, "sources get unequal shares of a link they contend for: %s packets (%s)" % ([per[s] for s in src], where), f)
            for s in src:
                T = [sub[s, t] for t in range(types)]
                if fair and max(T) - min(T) > 2 + .02 * max(T):
                    ck.violation("%s-types" % name, "packet types of source %d get unequal shares of its link: %s packets (%s)" % (s, T, where), f)
            ck.count("contended_links")
            ck.count("flits_at_contended_links", len(K) * n)
            ck.count("types_compared", len(src) * types * (types > 1 and fair))
            ck.count("shares_compared", fair)
            ck.count("allocator_" + cfg["sw_allocator"])
            ck.case(("share", i) if len(src) > 2 else None, "%s: rate %.3f, shares %s" % (where, rate, [per[s] for s in src]))
        else:
            both = {k["id"]: k for k in res.packets}
            for fl, r in alone:
                for k in r.packets:
                    o = both[k["id"]]
                    if any(k[x] != o[x] for x in ("hinj", "inj", "head", "tail", "hops")):
                        ck.violation("%s-disturbed" % name, "packet %d of flow %s: injected, arrived and ended at %s beside flows that share no link with it, at %s alone (allocators %s/%s, case %d)" % (
                            k["id"], fl, [o[x] for x in ("hinj", "head", "tail")], [k[x] for x in ("hinj", "head", "tail")], cfg["vc_allocator"], cfg["sw_allocator"], i), f)
                        break
                ck.count("undisturbed_packets", len(r.packets))
            ck.count("flows_side_by_side", len(par))
            ck.case(("apart", i) if len(par) > 1 else None, "%s: %d flows that share no link, %d compared with runs alone" % (name, len(par), len(alone)))
        rmtree(res.dir)
        for _, r in alone:
            rmtree(r.dir)
