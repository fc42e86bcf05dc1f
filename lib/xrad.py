"""Systems of several RADs: generation, and the oracle over what crosses the inter-RAD network."""
from fractions import Fraction
from groups import *

XRAD = [
    dict(rads=2, ks=[3, 4], payload=166, types=5, axis_w=512, tuser=75, mm=(512, 64, 8)),
    dict(rads=3, ks=[2], payload=80, types=2, axis_w=128, tuser=32),
    dict(rads=5, ks=[2], payload=300, types=5, axis_w=256, tuser=50, mm=(64, 70, 3)),
    dict(rads=2, ks=[5], payload=64, types=5, axis_w=64, tuser=40, mm=(64, 64, 8)),
]


def gen_xrad(rng, group, idx, stress=False):
    """Several RADs with AXI-S traffic inside and between them. stress: few modules, saturated portals, possibly few inter-RAD slots."""
    R = group["rads"]
    k = rng.choice(group["ks"])
    noc_p, ad_p, mod_p = pick_clks(rng)
    w, types = group["axis_w"], group["types"]
    nflits = math.ceil((w + group["tuser"] + 1) / group["payload"])
    mm = group.get("mm")
    if mm:
        nflits = max(nflits, math.ceil((max(mm[0], 77) + 2 + mm[1] + 1) / group["payload"]))
    noc, adapters = gen_noc(rng, group, nflits, k, k, types, types, nflits + 1 if mm else 0)
    if stress and rng.random() < 0.6:
        noc_p, ad_p = rng.choice([0.5, 0.571]), rng.choice([0.5, 0.8])
    noc["clk_period"], adapters["clk_period"] = [noc_p], [ad_p]
    drv = rng.choice([1.0, 2.0, 5.0, 5.0, 4.0])
    frac = Fraction(*rng.choice([(1, 1), (1, 1), (1, 2), (1, 3), (2, 3), (3, 4), (1, 5), (4, 5), (3, 7), (1, 10)] if stress else [(1, 1), (1, 1), (1, 2), (2, 3), (1, 5)]))
    lat = rng.choice([0, 1, 2, 3, 5, 10, 40, 100, 300])
    total_n = rng.randint(60, 240)
    slots = 1000 if not stress or rng.random() < 0.5 else rng.choice([1, 2, 3, 8, 20, 50])
    lat_ns = lat * drv - (rng.choice([0.25, 0.5]) if lat and rng.random() < 0.3 else 0)
    cl = {"sim_driver_period": drv, "num_rads": R, "inter_rad_latency": lat_ns, "inter_rad_bw": float(frac * Fraction(w) / Fraction(drv)),
          "inter_rad_fifo_num_slots": slots, "cluster_topology": "all-to-all"}
    ifc = {"max_axis_tdata_width": w, "axis_tuser_width": group["tuser"]}
    if mm:
        ifc.update(max_axi_data_width=mm[0], axi_user_width=mm[1], axi_id_width=mm[2])
    nconf = rng.randint(1, R)
    confs = ["c%d" % i for i in range(nconf)]
    cl["cluster_configs"] = confs + [rng.choice(confs) for _ in range(R - nconf)]
    clks = {c: rng.sample(mod_p, len(mod_p)) + [drv] for c in confs}
    cfg = make_config(noc, adapters, cl, {c: {"design": {"name": "vt", "noc_placement": ["vt.place"], "clk_periods": clks[c]}} for c in confs}, ifc)
    sc = Scenario(cfg, "xrad%d" % idx)
    sc.seed = rng.randrange(1 << 30)
    sc.rstcyc = rng.choice([1, 2, 5])
    sc.lat, sc.frac, sc.slots = lat, frac, slots
    srcs, rx, first = {}, {}, {}
    for rad in range(R):
        nodes = list(range(k * k))
        rng.shuffle(nodes)
        pc = len(mod_p)
        sc.place.setdefault(rad, []).append("portal_inst 0 %d axis" % nodes[0])
        sc.clks.setdefault(rad, []).append("portal_inst 0 %d" % pc)
        srcs[rad], rx[rad], first[rad] = [], [], []
        nm = rng.randint(1, min(3 if stress else 5, k * k - 1))
        for i in range(nm):
            nmod = sc.module(rad, "axis", "mod%d" % i, (0, rng.randrange(len(mod_p))))
            for p in range(rng.choice([1, 1, 2])):
                srcs[rad].append(sc.port(rad, nmod, "m", "tx%d" % p, w, rng.randrange(types), 0, nodes[i + 1], "axis"))
            for p in range(rng.choice([1, 1, 2])):
                q = sc.port(rad, nmod, "s", "rx%d" % p, w, 0, 0, nodes[i + 1], "axis")
                rx[rad].append(q)
                if p == 0:
                    first[rad].append(q)
        if mm and not stress and len(nodes) >= nm + 3 and rng.random() < 0.6:  # memory-mapped traffic inside the RAD
            q = sc.module(rad, "mmm", "req_r%d" % rad, (0, rng.randrange(len(mod_p))))
            q = sc.port(rad, q, "m", "axi", mm[0], 0, 0, nodes[nm + 1], "aximm")
            d = sc.module(rad, "mms", "res_r%d" % rad, (0, rng.randrange(len(mod_p))))
            d = sc.port(rad, d, "s", "axi", mm[0], 0, 0, nodes[nm + 2], "aximm")
            for _ in range(rng.choice([1, 5, 15])):
                sc.op(rad, q, rng.choice("RW"), d, rng.choice([0, rng.getrandbits(40), rng.getrandbits(58)]), rng.choice([0, 0, 1, 3]), rng.randrange(8), rng.randrange(4), rng.randrange(1 << mm[2]))
            sc.opt(rad, q, gap=rng.choice([0, 64]), stall=rng.choice([0, 128]), mode=3, wearly=rng.choice([0, 1]), awahead=rng.choice([0, 1]))
            sc.opt(rad, d, gap=rng.choice([0, 64]), stall=rng.choice([0, 128]), mode=3)
    total = 10 * len(sc.ops)
    hot = rng.randrange(R) if rng.random() < 0.4 else None
    for rad in range(R):
        for s in srcs[rad]:
            nloc = 0 if stress else rng.choice([0, 0, 1, 2])
            for d in rng.sample(rx[rad], min(len(rx[rad]), nloc)):
                n = rng.choice([1, 5, 20])
                sc.flow(rad, s, rad, d, n)
                total += n
            others = [(o, d) for o in range(R) if o != rad for d in first[o]]
            if hot is not None and rad != hot and rng.random() < 0.8:
                others = [x for x in others if x[0] == hot]
            for o, d in rng.sample(others, min(len(others), rng.choice([1, 1, 2]) if stress else rng.choice([0, 1, 1, 2, 3]))):
                n = rng.choice([20, 60]) if stress else rng.choice([1, 4, 15, 40])
                sc.flow(rad, s, o, d, n)
                total += n
            sc.opt(rad, s, gap=rng.choice([0, 0] if stress else [0, 0, 64, 180]), burst=rng.choice([1, 4, 16]), start=rng.choice([0, 0, 20]))
    for rad in range(R):
        for d in rx[rad]:
            sc.opt(rad, d, stall=rng.choice([0, 0, 40, 128, 200]), mode=rng.choice([1, 3, 10]))
    per = nflits * (noc_p + ad_p) * 6 + 60 * max(mod_p) + 300
    sc.maxcyc = int(4000 + (total * per / drv + total / float(frac)) * 3 + lat * 4)
    sc.drain = int(100 + 60 * (noc_p + ad_p + max(mod_p)) / drv * 5 + lat * 2 + 3 / float(frac))
    sc.idle = sc.drain + 2000 + lat * 2
    sc.total, sc.nflits = total, nflits
    return sc


OFFSET = 1  # cycles between the end of the latency and the cycle in which the destination sees the data


def check_inter(sc, events, out):
    """Bandwidth, latency, order, and conservation on the inter-RAD network. Returns (problems, counts)."""
    bad, n = [], dict(crossed=0, dropped=0, held_back=0, queued_behind=0, full_windows=0)
    R = sc.rads()
    outs, ins, valid = [], {d: [] for d in range(R)}, {r: {} for r in range(R)}
    for e in events:
        if e[0] == "XO":
            outs.append((int(e[2]), int(e[1]), int(e[3]), (e[4], e[5], e[6])))
            valid[int(e[1])][int(e[2])] = 1
        elif e[0] == "XH":
            valid[int(e[1])][int(e[2])] = 0
            n["held_back"] += 1
        elif e[0] == "XI":
            ins[int(e[1])].append((int(e[2]), int(e[3]), (e[4], e[5], e[6])))
    outs.sort(key=lambda x: x[:2])
    # bandwidth: a of every b consecutive cycles
    a, b = sc.frac.numerator, sc.frac.denominator
    for r in range(R):
        v = valid[r]
        if not v:
            continue
        lo, hi = min(v), max(v)
        cum = {lo - 1: (0, 0)}
        t = acc = 0
        for c in range(lo, hi + 1):
            t += c in v
            acc += v.get(c, 0)
            cum[c] = (t, acc)
        for c in range(lo, hi - b + 2):
            nv, na = cum[c + b - 1][0] - cum[c - 1][0], cum[c + b - 1][1] - cum[c - 1][1]
            if na > a:
                bad.append(("bandwidth-over", "RAD %d handed over %d transfers in %d cycles from cycle %d; the inter-RAD bandwidth allows %d" % (r, na, b, c, a)))
                break
            if nv == b and na < a:
                bad.append(("bandwidth-under", "RAD %d offered a transfer in all %d cycles from cycle %d but only %d were accepted; the inter-RAD bandwidth is %d" % (r, b, c, na, a)))
                break
            n["full_windows"] += nv == b
    # queue per destination: first come first served, one per cycle, each after its latency, refused only if no slot is free
    for d in range(R):
        q, exp, drops = [], [], []   # q: delivery cycles of entries not yet delivered
        last = -1
        for c, src, dst, f in outs:
            if dst != d:
                continue
            q = [x for x in q if x > c]  # an entry leaves its slot one cycle before it is seen, which frees the slot for the cycle after
            if len(q) >= sc.slots:
                drops.append((c, src, f))
                continue
            t = max(c + max(sc.lat, 1) + OFFSET, last + 1)
            if t > c + max(sc.lat, 1) + OFFSET:
                n["queued_behind"] += 1
            last = t
            q.append(t)
            exp.append((t, src, f))
        got = ins[d]
        n["crossed"] += len(got)
        n["dropped"] += len(drops)
        for i in range(max(len(exp), len(got))):
            if i >= len(got):
                bad.append(("lost", "the inter-RAD network accepted %d transfers for RAD %d that fit its %d slots but delivered %d; first missing: %s from RAD %d" % (len(exp), d, sc.slots, len(got), exp[i][2], exp[i][1])))
                break
            if i >= len(exp):
                bad.append(("extra", "RAD %d was delivered %s in cycle %d, which nobody sent" % (d, got[i][2], got[i][0])))
                break
            if got[i][2] != exp[i][2]:
                bad.append(("order", "delivery %d to RAD %d is %s, expected %s (from RAD %d)" % (i, d, got[i][2], exp[i][2], exp[i][1])))
                break
            if got[i][1] != d:
                bad.append(("dest", "delivery %d to RAD %d carries destination RAD %d" % (i, d, got[i][1])))
                break
            if got[i][0] != exp[i][0]:
                bad.append(("latency", "delivery %d to RAD %d came in cycle %d, expected cycle %d (latency %d cycles)" % (i, d, got[i][0], exp[i][0], sc.lat)))
                break
    told = out.count("packet dropped at inter_rad")
    if told != n["dropped"] and not bad:
        bad.append(("unreported", "%d transfers were dropped for want of a slot but %d drops were reported" % (n["dropped"], told)))
    return bad, n
