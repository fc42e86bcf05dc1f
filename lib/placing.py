"""Systems described by many equivalent placement and clock files."""
from mnoc import *

PLACE = [
    dict(nocs=1, ks=[3, 4], payload=[166], types=5, axis_w=512, tuser=75, mm=(512, 64, 8)),
    dict(nocs=2, ks=[3, 4], payload=[80, 120], types=5, axis_w=128, tuser=32, mm=(64, 64, 8)),
]


def gen_place(rng, group, idx):
    """Modules that share nodes, have ports on several nodes and NoCs, and are placed by lines for modules or ports in any order."""
    n, types, w, mm = group["nocs"], group["types"], group["axis_w"], group["mm"]
    sc = gen_mnoc(rng, group, idx)  # its configuration, with other modules
    cfg, ks = sc.cfg, sc.ks
    sc = Scenario(cfg, "place%d" % idx)
    sc.seed, sc.rstcyc = rng.randrange(1 << 30), rng.choice([1, 2, 5])
    mods = cfg["config rad1"]["design"]["clk_periods"]
    clk = lambda: (rng.randrange(2), rng.randrange(len(mods)))
    nodes = [list(range(k * k)) for k in ks]
    for l in nodes:
        rng.shuffle(l)
    sc.kinds = dict(module_lines=0, shared_nodes=0, split_modules=0, module_lines_aximm=0)
    srcs, rx = [[] for _ in range(n)], [[] for _ in range(n)]
    pool = {}   # (noc, node) -> clock, nodes that AXI-S modules may share
    lines = []  # the placement as lists of ports with one place each
    for i in range(rng.randint(2, 8)):
        q0 = rng.randrange(n)
        shared = [(q, v) for (q, v) in pool if q == q0]
        if shared and rng.random() < 0.4:
            home = rng.choice(shared)
            c = pool[home]
            sc.kinds["shared_nodes"] += 1
        elif nodes[q0]:
            home = (q0, nodes[q0].pop())
            c = pool[home] = clk()
        else:
            continue
        # names of which one is the beginning of another, and which sort differently than they are created
        name = rng.choice(["mod%d", "m%d", "mod%d_x", "a%dmod", "mod%d_"]) % i
        nm = sc.module(0, "axis", name, c)
        split = rng.random() < 0.4
        mine = {}
        k = [rng.choice([0, 1, 1, 2, 3]), rng.choice([0, 1, 1, 2, 3])]
        if sum(k) == 0:
            k[1] = 1
        for role, cnt in zip("ms", k):
            for p in range(cnt):
                where = home
                if split and rng.random() < 0.5:
                    q = rng.randrange(n)
                    if nodes[q]:
                        where = (q, nodes[q].pop())
                        pool[where] = c
                full = sc.port(0, nm, role, ("tx%d" if role == "m" else "rx%d") % p, w, rng.randrange(types) if role == "m" else 0, where[0], where[1], "axis")
                (srcs if role == "m" else rx)[where[0]].append(full)
                mine.setdefault(where, []).append(full)
        if len(mine) == 1 and home in mine and rng.random() < 0.6:
            lines.append("%s %d %d axis" % (nm, *home))
            sc.kinds["module_lines"] += 1
        else:
            lines += ["%s %d %d axis" % (p, *where) for where, l in mine.items() for p in l]
            sc.kinds["split_modules"] += len(mine) > 1
    total = 0
    for q in range(n):
        for s in srcs[q]:
            for d in rng.sample(rx[q], min(len(rx[q]), rng.randint(1, 3))):
                c = rng.choice([1, 4, 12])
                sc.flow(0, s, 0, d, c)
                total += c
            sc.opt(0, s, gap=rng.choice([0, 0, 64, 180]), burst=rng.choice([1, 4]), start=rng.choice([0, 0, 20]))
        for d in rx[q]:
            sc.opt(0, d, stall=rng.choice([0, 0, 40, 128]), mode=rng.choice([1, 3]))
    beats = 0
    for q in range(n):
        if len(nodes[q]) < 2 or rng.random() < 0.25:
            continue

        def mmport(kind, name, role):
            m = sc.module(0, kind, name, clk())
            v = nodes[q].pop()
            p = sc.port(0, m, role, "axi", mm[0], 0, q, v, "aximm")
            whole = rng.random() < 0.4
            lines.append("%s %d %d aximm" % (m if whole else p, q, v))
            sc.kinds["module_lines_aximm"] += whole
            return p
        a = mmport("mmm", "req%d" % q, "m")
        ds = [mmport("mms", "res%d_%d" % (q, j), "s") for j in range(min(len(nodes[q]), rng.randint(1, 3)))]
        for _ in range(rng.choice([1, 6, 15])):
            ln = rng.choice([0, 0, 1, 3])
            beats += ln + 1
            sc.op(0, a, rng.choice("RW"), rng.choice(ds), rng.choice([0, rng.getrandbits(40), rng.getrandbits(56)]), ln, rng.randrange(8), rng.randrange(4), rng.randrange(1 << mm[2]))
        sc.opt(0, a, gap=rng.choice([0, 64]), stall=rng.choice([0, 128]), mode=3, wearly=0, awahead=0)
        for d in ds:
            sc.opt(0, d, gap=rng.choice([0, 64]), stall=rng.choice([0, 128]), mode=3)
    rng.shuffle(lines)
    rng.shuffle(sc.clks[0])
    sc.place[0] = lines
    nflits = max(math.ceil((w + group["tuser"] + 1) / max(group["payload"])), math.ceil((max(mm[0], 77) + 2 + mm[1] + 1) / max(group["payload"])))
    noc_p, ad_p = max(cfg["noc"]["clk_period"]), max(cfg["noc_adapters"]["clk_period"])
    per = nflits * (noc_p + ad_p) * 6 + 80 * max(mods) + 300
    sc.maxcyc = int(4000 + (total + beats * 2) * per / 5.0 * 3)
    sc.drain = int(100 + 60 * (noc_p + ad_p + max(mods)))
    sc.idle = sc.drain + 3000
    sc.total, sc.nflits, sc.ks = total, nflits, ks
    return sc
