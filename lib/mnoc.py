"""Systems whose RAD has several NoCs."""
from groups import *

MNOC = [
    dict(nocs=2, ks=[3, 4], payload=[166, 166], types=5, axis_w=512, tuser=75, mm=(512, 64, 8)),
    dict(nocs=3, ks=[2, 3], payload=[80, 64, 97], types=5, axis_w=128, tuser=32, mm=(64, 64, 8)),
    dict(nocs=2, ks=[2, 3, 4, 5], payload=[90, 200], types=5, axis_w=256, tuser=50, mm=(128, 64, 3)),
]
ALLOCS = ["islip", "separable_input_first", "separable_output_first", "wavefront", "pim", "loa", "select"]


def gen_mnoc(rng, group, idx, same_dims=False):
    n, types, w = group["nocs"], group["types"], group["axis_w"]
    mm = group["mm"]
    _, ad_p, mod_p = pick_clks(rng)
    kmax = max(group["ks"])
    ks = [rng.choice(group["ks"]) for _ in range(n)]
    if same_dims:
        ks = [ks[0]] * n
    elif rng.random() < 0.3:
        ks[rng.randrange(n)] = kmax
    noc_p = [rng.choice([0.5, 0.571, 0.8, 1.0, 1.25, 2.0, 3.3]) for _ in range(n)]
    nflits = max(math.ceil((w + group["tuser"] + 1) / max(group["payload"])), math.ceil((max(mm[0], 77) + 2 + mm[1] + 1) / max(group["payload"])))
    vcs = [types] * n
    buf = [rng.choice([x for x in (2, 3, 4, 8, 16) if x >= nflits]) for _ in range(n)]
    L = lambda f: [f() for _ in range(n)]
    noc = dict(type=["2d"] * n, num_nocs=n, topology=["mesh"] * n, routing_func=["dim_order"] * n, router_uarch=["iq"] * n, payload_width=group["payload"],
               dim_x=ks, dim_y=ks, clk_period=noc_p, vcs=vcs, num_packet_types=[types] * n, vc_buffer_size=buf, output_buffer_size=L(lambda: rng.choice([1, 2, 8])),
               vc_allocator=L(lambda: rng.choice(ALLOCS)), sw_allocator=L(lambda: rng.choice(ALLOCS)), credit_delay=L(lambda: rng.choice([0, 1, 1, 2, 4])),
               routing_delay=L(lambda: rng.choice([0, 1, 1, 2, 3])), vc_alloc_delay=L(lambda: rng.choice([1, 1, 2])), sw_alloc_delay=L(lambda: rng.choice([1, 1, 2])))
    adapters = dict(clk_period=[ad_p, rng.choice([0.8, 1.25, 2.0])], fifo_size=[rng.choice([x for x in (b, 8, 16, 32) if x >= max(b, nflits + 1)] or [max(b, nflits + 1)]) for b in buf],
                    obuff_size=L(lambda: rng.choice([1, 2, 2, 4])), in_arbiter=["fixed_rr"] * n, out_arbiter=["priority_rr"] * n, vc_mapping=["direct"] * n)
    ifc = {"max_axis_tdata_width": w, "axis_tuser_width": group["tuser"], "max_axi_data_width": mm[0], "axi_user_width": mm[1], "axi_id_width": mm[2]}
    cfg = make_config(noc, adapters, {"sim_driver_period": 5.0}, {"rad1": {"design": {"name": "vt", "noc_placement": ["vt.place"], "clk_periods": mod_p}}}, ifc)
    sc = Scenario(cfg, "mnoc%d" % idx)
    sc.seed = rng.randrange(1 << 30)
    sc.rstcyc = rng.choice([1, 2, 5])
    free = []
    for k in ks:
        l = list(range(k * k))
        rng.shuffle(l)
        free.append(l)
    clk = lambda: (rng.randrange(2), rng.randrange(len(mod_p)))
    srcs, rx = [[] for _ in range(n)], [[] for _ in range(n)]
    node_of = {}
    for i in range(rng.randint(2, 6)):
        nm = sc.module(0, "axis", "mod%d" % i, clk())
        for role in "ms":
            for p in range(rng.choice([0, 1, 1, 2])):
                q = rng.randrange(n)  # a module's ports may be on different NoCs
                if (i, q) not in node_of:
                    if not free[q]:
                        continue
                    node_of[(i, q)] = free[q].pop()
                full = sc.port(0, nm, role, ("tx%d" if role == "m" else "rx%d") % p, w, rng.randrange(types) if role == "m" else 0, q, node_of[(i, q)], "axis")
                (srcs if role == "m" else rx)[q].append(full)
    total = 0
    for q in range(n):
        for s in srcs[q]:
            for d in rng.sample(rx[q], min(len(rx[q]), rng.randint(1, 3))):
                c = rng.choice([1, 5, 20])
                sc.flow(0, s, 0, d, c)
                total += c
            sc.opt(0, s, gap=rng.choice([0, 0, 64, 180]), burst=rng.choice([1, 4, 16]), start=rng.choice([0, 0, 20]))
        for d in rx[q]:
            sc.opt(0, d, stall=rng.choice([0, 0, 40, 128, 200]), mode=rng.choice([1, 3, 10]))
    beats = 0
    for q in range(n):
        if len(free[q]) < 2 or rng.random() < 0.3:
            continue
        a = sc.port(0, sc.module(0, "mmm", "req%d" % q, clk()), "m", "axi", mm[0], 0, q, free[q].pop(), "aximm")
        ds = [sc.port(0, sc.module(0, "mms", "res%d_%d" % (q, j), clk()), "s", "axi", mm[0], 0, q, free[q].pop(), "aximm") for j in range(min(len(free[q]), rng.randint(1, 2)))]
        for _ in range(rng.choice([1, 6, 20])):
            ln = rng.choice([0, 0, 1, 3])
            beats += ln + 1
            sc.op(0, a, rng.choice("RW"), rng.choice(ds), rng.choice([0, rng.getrandbits(40), rng.getrandbits(56)]), ln, rng.randrange(8), rng.randrange(4), rng.randrange(1 << mm[2]))
        sc.opt(0, a, gap=rng.choice([0, 64]), stall=rng.choice([0, 128]), mode=3, wearly=rng.choice([0, 1]), awahead=rng.choice([0, 1]))
        for d in ds:
            sc.opt(0, d, gap=rng.choice([0, 64]), stall=rng.choice([0, 128]), mode=3)
    per = nflits * (max(noc_p) + max(adapters["clk_period"])) * 6 + 80 * max(mod_p) + 300
    sc.maxcyc = int(4000 + (total + beats * 2) * per / 5.0 * 3)
    sc.drain = int(100 + 60 * (max(noc_p) + ad_p + max(mod_p)))
    sc.idle = sc.drain + 3000
    sc.total, sc.nflits, sc.ks = total, nflits, ks
    return sc
