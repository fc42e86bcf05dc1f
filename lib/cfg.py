"""Random config.yml files, the tree's config.py, and what the simulator and designs then see (P16)."""
import math, re
import yaml
from rad import *

ROUTERS, ALLOCS, RF = ["iq"], ["islip", "wavefront", "separable_input_first", "select", "pim", "loa"], ["dim_order", "xy_yx", "romm", "valiant", "planar_adapt"]
TYPES = ["read_request", "write_request", "write_data", "read_reply", "write_reply"]
DRAMS = ["HBM2_8Gb_x128", "DDR4_8Gb_x16_2400", "DDR4_8Gb_x16_2133", "DDR3_1Gb_x8_1333", "GDDR6_8Gb_x16"]
NAMES = ["rad1", "anotherconfig", "a", "hub", "leaf_2", "config", "rad2", "x-y", "Base"]
PER = lambda r: r.choice([5, 5.0, 1.25, 0.571, 2, 3.32, 0.938, 1.6, 10.0, 0.001, 123456.75])


def base_noc(rng, nocs):
    L = lambda f: [f() for _ in range(nocs)]
    types = L(lambda: rng.randint(1, 5))
    n = {"type": L(lambda: rng.choice(["2d", "2d", "3d"])), "num_nocs": nocs, "clk_period": L(lambda: PER(rng)), "payload_width": L(lambda: rng.choice([16, 64, 146, 166, 512, 1000])),
         "topology": L(lambda: "mesh"), "dim_x": L(lambda: rng.choice([2, 2, 3, rng.randint(2, 16)])), "dim_y": L(lambda: rng.choice([2, 2, 3, rng.randint(2, 16)])), "routing_func": L(lambda: rng.choice(RF)),
         "vcs": [t * rng.randint(1, 6) for t in types], "vc_buffer_size": L(lambda: rng.randint(1, 64)), "output_buffer_size": L(lambda: rng.randint(1, 64)), "num_packet_types": types,
         "router_uarch": L(lambda: rng.choice(ROUTERS)), "vc_allocator": L(lambda: rng.choice(ALLOCS)), "sw_allocator": L(lambda: rng.choice(ALLOCS)), "credit_delay": L(lambda: rng.randint(0, 9)),
         "routing_delay": L(lambda: rng.randint(0, 9)), "vc_alloc_delay": L(lambda: rng.randint(1, 9)), "sw_alloc_delay": L(lambda: rng.randint(1, 9))}
    for i in range(nocs):
        if n["type"][i] == "2d" and rng.random() < 0.25:
            n["topology"][i] = "torus"
    if rng.random() < 0.25:
        n["anynet_file"], n["num_nodes"] = L(lambda: "/some/where/file_%d" % rng.randint(0, 99)), L(lambda: rng.randint(2, 300))
        for i in range(nocs):
            if rng.random() < 0.6:
                n["topology"][i], n["type"][i] = "anynet", "2d"
    return n


def gen(rng, i, rads=None, designs=None, ints=None):
    """(config, designs in command-line order, why it must be rejected or None)."""
    nocs = rng.choice([1, 1, 1, 2, 3])
    names = rng.sample(NAMES, rng.randint(1, 4))
    designs = designs or rng.sample(["da", "db", "dc"], rng.randint(1, 3))
    c = {}
    confs = {}
    for k, n in enumerate(names):
        nd = rng.randint(0, 4)
        s = {"design": {"name": designs[k] if k < len(designs) else rng.choice(designs), "noc_placement": [rng.choice(["p.place", "a_b.place", "x%d.place" % rng.randint(0, 9)])],
                        "clk_periods": [PER(rng) for _ in range(rng.randint(1, 5))]}}
        if nd or rng.random() < 0.5:
            s["dram"] = {"num_controllers": nd, "clk_periods": [PER(rng) for _ in range(nd)], "queue_sizes": [rng.choice([17, 64, 100]) for _ in range(nd)],
                         "config_files": [rng.choice(DRAMS) for _ in range(nd)]}
        confs["config " + n] = s
    noc = base_noc(rng, nocs)
    ad = {"clk_period": [PER(rng) for _ in range(nocs)], "fifo_size": [rng.randint(1, 99) for _ in range(nocs)], "obuff_size": [rng.randint(1, 9) for _ in range(nocs)],
          "in_arbiter": [rng.choice(["fixed_rr", "priority_rr"]) for _ in range(nocs)], "out_arbiter": [rng.choice(["fixed_rr", "priority_rr"]) for _ in range(nocs)], "vc_mapping": ["direct"] * nocs}
    rads = rads or rng.choice([1, 1, 2, 3, 5, 8])
    per = PER(rng)
    cl = {"sim_driver_period": per, "telemetry_log_verbosity": rng.randint(0, 3), "telemetry_traces": ["t%d" % k for k in range(rng.randint(0, 9))], "num_rads": rads,
          "cluster_configs": [rng.choice(names) for _ in range(rads + (rng.randint(1, 2) if rng.random() < 0.2 else 0))], "cluster_topology": "all-to-all"}
    itf = {}
    for k, v in (("max_axis_tdata_width", [64, 128, 512, 1024, 77]), ("axis_tkeep_width", [1, 8, 64]), ("axis_tstrb_width", [1, 8, 64]), ("axis_tuser_width", [16, 75, 128]),
                 ("axi_id_width", [1, 8, 12]), ("axi_user_width", [16, 64, 128]), ("max_axi_data_width", [64, 128, 512, 1024])):
        if rng.random() < 0.6:
            itf[k] = rng.choice(v)
    if rng.random() < 0.3:
        noc["packet_id_width"] = rng.choice([8, 16, 32])
    if rng.random() < 0.3:
        noc["max_num_router_dest_interfaces"] = rng.choice([2, 5, 32, 33, 64])
    width = itf.get("max_axis_tdata_width", 512)
    if rng.random() < 0.8:
        cl["inter_rad_latency"] = rng.choice([per * rng.randint(1, 400), round(rng.uniform(1, 3000), 2), rng.randint(1, 3000)])
    if rng.random() < 0.8:
        full = width / per
        cl["inter_rad_bw"] = rng.choice([full, full / 2, full * rng.randint(1, 99) / 100, full * rng.uniform(0.001, 1), full * 1.7, full / rng.randint(1, 3000)])
    if rng.random() < 0.8:
        cl["inter_rad_fifo_num_slots"] = rng.randint(1, 5000)
    parts = list(confs.items()) + [("noc", noc), ("noc_adapters", ad), ("cluster", cl)] + ([("interfaces", itf)] if itf else [])
    if rng.random() < 0.7:
        rng.shuffle(parts)
    if nocs == 1:  # everything left out has a default
        for sec in (noc, ad):
            for k in list(sec):
                if rng.random() < 0.1 and k not in ("num_packet_types", "vcs", "num_nodes", "anynet_file", "dim_x", "dim_y", "topology", "type"):
                    del sec[k]
    c = {k: {a: (dict(b) if isinstance(b, dict) else b) for a, b in v.items()} for k, v in parts}
    bad = None
    if rng.random() < 0.25:
        t = rng.randint(0, 7)
        sec = rng.choice([n for n in c if n.startswith("config ")])
        z = rng.randrange(nocs)
        if t == 0:
            bad = "unknown parameter of a configuration"
            c[sec]["design"]["nam"] = 3
        elif t == 1:
            bad = "unknown noc parameter"
            c["noc"]["vc"] = [3]
        elif t == 2:
            bad = "unknown cluster parameter"
            c["cluster"]["num_rad"] = 1
        elif t == 3:
            bad = "configuration that is not there"
            c["cluster"]["cluster_configs"][rng.randrange(rads)] = "nosuch"
        elif t == 4:
            bad = "too few configurations"
            c["cluster"]["cluster_configs"] = c["cluster"]["cluster_configs"][:rads - 1]
        elif t == 5:
            bad = "VCs not a multiple of the packet types"
            c["noc"]["num_packet_types"][z], c["noc"]["vcs"][z] = 3, 3 * rng.randint(1, 4) + rng.randint(1, 2)
        elif t == 6:
            bad = "too many packet types"
            c["noc"]["num_packet_types"][z], c["noc"]["vcs"][z] = 6, 6
        else:
            bad = "unsupported topology"
            c["noc"]["topology"][z] = rng.choice(["fattree", "ring"])
    return c, designs, bad


def text_of(c, rng):
    style = rng.choice([None, False, True])
    t = yaml.safe_dump(c, sort_keys=False, default_flow_style=style, width=rng.choice([80, 4000]))
    if style is not True and rng.random() < 0.5:
        t = "# a comment\n" + t.replace("\nnoc:\n", "\n# NoC: the network\nnoc:\n")
    return t


D_RAD = {"noc_num_nocs": 1, "noc_clk_period": [0.571], "noc_payload_width": [146], "noc_vcs": [3], "noc_num_nodes": [0], "noc_adapters_clk_period": [1.25], "noc_adapters_fifo_size": [16],
         "noc_adapters_obuff_size": [2], "noc_adapters_in_arbiter": ["fixed_rr"], "noc_adapters_out_arbiter": ["priority_rr"], "noc_adapters_vc_mapping": ["direct"],
         "dram_num_controllers": 0, "dram_clk_periods": [2.0], "dram_queue_sizes": [64], "dram_config_files": ["HBM2_8Gb_x128"]}
D_NOC = {"routing_func": "dim_order", "vc_buffer_size": 8, "output_buffer_size": 8, "router_uarch": "iq", "vc_allocator": "islip", "sw_allocator": "islip", "credit_delay": 1, "routing_delay": 1,
         "vc_alloc_delay": 1, "sw_alloc_delay": 1}
D_ITF = {"max_axis_tdata_width": 512, "axis_tkeep_width": 8, "axis_tstrb_width": 8, "axis_tuser_width": 75, "axi_id_width": 8, "axi_user_width": 64, "max_axi_data_width": 512}


def nodes_of(noc, z):
    if noc["topology"][z] == "anynet":
        return noc["num_nodes"][z]
    k = max(noc["dim_x"][z], noc["dim_y"][z])
    return k * k * (4 if noc["type"][z] == "3d" else 1)


def same(a, b):
    """A printed value against the YAML value."""
    if isinstance(b, (int, float)) and not isinstance(b, bool):
        try:
            return abs(float(a) - b) <= 1e-9 * max(1, abs(b))
        except ValueError:
            return False
    return a == str(b)


def judge_files(c, root, dump, bad):
    """Problems with what the probe read; `dump`: its lines."""
    out = []
    vals = {}
    for l in dump:
        p = l.split()
        if len(p) >= 2:
            vals.setdefault((p[0], p[1]), []).append(p[2:])
    cl, noc, ad = c["cluster"], c["noc"], c["noc_adapters"]
    n = 0

    def expect(who, key, want, how=""):
        nonlocal n
        n += 1
        got = vals.get((who, key))
        if got is None:
            out.append(("missing:" + key, "%s %s: not set, configured as %s" % (who, key, want)))
            return
        g, w = got[-1], want if isinstance(want, list) else [want]
        if len(got) != 1 or len(g) != len(w) or not all(same(a, b) for a, b in zip(g, w)):
            out.append(("value:" + re.sub(r"\d", "", key), "%s %s is %s, configured as %s" % (who, key, g, w)))

    for k in ("sim_driver_period", "telemetry_log_verbosity", "num_rads", "cluster_topology"):
        expect("s", k, cl[k])
    expect("s", "telemetry_num_traces", len(cl["telemetry_traces"]))
    if [v[0] for v in vals.get(("s", "telemetry_traces"), [])] != cl["telemetry_traces"]:
        out.append(("value:telemetry_traces", "telemetry_traces are %s, configured as %s" % (vals.get(("s", "telemetry_traces")), cl["telemetry_traces"])))
    if "inter_rad_fifo_num_slots" in cl:
        expect("s", "inter_rad_fifo_num_slots", cl["inter_rad_fifo_num_slots"])
    else:
        expect("s", "inter_rad_fifo_num_slots", 1000)
    lat = cl.get("inter_rad_latency", 5.0) / cl["sim_driver_period"]
    n += 2
    try:
        got = int(vals[("s", "inter_rad_latency_cycles")][-1][0])
        if got not in {math.ceil(lat), math.ceil(lat - 1e-9 * max(1, lat)), math.ceil(lat + 1e-9 * max(1, lat))}:
            out.append(("inter-rad-latency", "an inter-RAD latency of %s ns at a driver period of %s became %d cycles" % (cl.get("inter_rad_latency"), cl["sim_driver_period"], got)))
        a, t = int(vals[("s", "inter_rad_bw_accept_cycles")][-1][0]), int(vals[("s", "inter_rad_bw_total_cycles")][-1][0])
        want = min(1.0, cl.get("inter_rad_bw", 25.6) * cl["sim_driver_period"] / c.get("interfaces", {}).get("max_axis_tdata_width", 512))
        if not (1 <= a <= t) or abs(a / t - want) > 0.0006 or abs(a / t - want) > 0.05 * want + 1e-9 and want * 1000 > 1.5:
            out.append(("inter-rad-bw", "an inter-RAD bandwidth of %s bits/ns (%.6f of the width per cycle) became %d of %d cycles" % (cl.get("inter_rad_bw"), want, a, t)))
    except (KeyError, IndexError, ValueError) as e:
        out.append(("missing:inter_rad", "inter-RAD latency or bandwidth missing: %r" % e))
    for r in range(cl["num_rads"]):
        who, cf = "r%d" % r, c["config " + cl["cluster_configs"][r]]
        expect(who, "design_name", cf["design"]["name"])
        expect(who, "radsim_user_design_root_dir", root + "/example-designs/" + cf["design"]["name"])
        expect(who, "design_noc_placement", cf["design"]["noc_placement"])
        expect(who, "design_clk_periods", cf["design"]["clk_periods"])
        d = cf.get("dram", {})
        for k in ("num_controllers", "clk_periods", "queue_sizes", "config_files"):
            expect(who, "dram_" + k, d.get(k, D_RAD["dram_" + k]))
        for k in ("clk_period", "payload_width", "num_nocs"):
            expect(who, "noc_" + k, noc.get(k, D_RAD["noc_" + k]))
        expect(who, "noc_vcs", noc["vcs"])
        expect(who, "noc_num_nodes", [nodes_of(noc, z) for z in range(noc.get("num_nocs", 1))])
        for k in ("clk_period", "fifo_size", "obuff_size", "in_arbiter", "out_arbiter", "vc_mapping"):
            expect(who, "noc_adapters_" + k, ad.get(k, D_RAD["noc_adapters_" + k]))
        for z in range(noc.get("num_nocs", 1)):
            w = "n%d.%d" % (r, z)
            g = lambda k: noc[k][z] if k in noc else D_NOC[k]
            top = noc["topology"][z]
            expect(w, "topology", "cmesh" if noc["type"][z] == "3d" else top)
            if top == "anynet":
                expect(w, "network_file", noc["anynet_file"][z])
            else:
                expect(w, "k", max(noc["dim_x"][z], noc["dim_y"][z]))
                expect(w, "n", 2)
                if noc["type"][z] == "3d":
                    expect(w, "c", 4)
            expect(w, "routing_function", g("routing_func"))
            expect(w, "num_vcs", noc["vcs"][z])
            expect(w, "vc_buf_size", g("vc_buffer_size"))
            expect(w, "output_buffer_size", g("output_buffer_size"))
            expect(w, "router", g("router_uarch"))
            expect(w, "wait_for_tail_credit", 0)
            for k in ("vc_allocator", "sw_allocator", "credit_delay", "routing_delay", "vc_alloc_delay", "sw_alloc_delay"):
                expect(w, k, g(k))
            per = noc["vcs"][z] // noc["num_packet_types"][z]
            for t in range(noc["num_packet_types"][z]):
                expect(w, TYPES[t] + "_begin_vc", t * per)
                expect(w, TYPES[t] + "_end_vc", t * per + per - 1)
    return out, n


def judge_header(c, root, text):
    out, C, F = [], {}, {}
    for l in text.splitlines():
        p = l.split()
        if p[:1] == ["c"]:
            C[p[1]] = int(p[2])
        elif p[:1] == ["f"]:
            F[p[1]] = (int(p[3]), int(p[2]))
    cl, noc = c["cluster"], c["noc"]
    itf = {**D_ITF, **c.get("interfaces", {})}
    n = 0

    def eq(k, v):
        nonlocal n
        n += 1
        if C[k] != v:
            out.append(("header:" + k, "%s is %d, configured as %d" % (k, C[k], v)))

    def holds(k, cnt, what):
        nonlocal n
        n += 1
        if C[k] < 1 or cnt > 1 << C[k]:
            out.append(("header:" + k, "%s is %d bits, too few for %d %s" % (k, C[k], cnt, what)))
    if "root " + root not in text.splitlines():
        out.append(("header:root", "RADSIM_ROOT_DIR is wrong: " + text.splitlines()[0]))
    if ("single" in text.splitlines()) != (cl["num_rads"] == 1):
        out.append(("header:single", "SINGLE_RAD with %d RADs" % cl["num_rads"]))
    eq("NOC_LINKS_PAYLOAD_WIDTH", max(noc.get("payload_width", [166])))
    holds("NOC_LINKS_VCID_WIDTH", max(noc["vcs"]), "VCs")
    holds("NOC_LINKS_TYPEID_WIDTH", max(noc["num_packet_types"]), "packet types")
    eq("NOC_LINKS_PACKETID_WIDTH", noc.get("packet_id_width", 32))
    nodes = max(nodes_of(noc, z) for z in range(noc.get("num_nocs", 1)))
    holds("AXIS_DEST_FIELDW", nodes, "nodes")
    holds("AXIS_DEST_FIELDW", cl["num_rads"], "RADs")
    holds("AXI4_NODE_ADDRW", nodes, "nodes")
    holds("NOC_LINKS_DEST_INTERFACE_WIDTH", noc.get("max_num_router_dest_interfaces", 32), "interfaces")
    for k, v in (("AXIS_MAX_DATAW", "max_axis_tdata_width"), ("AXI4_MAX_DATAW", "max_axi_data_width"), ("AXIS_USERW", "axis_tuser_width"), ("AXI4_USERW", "axi_user_width"),
                 ("AXIS_STRBW", "axis_tstrb_width"), ("AXIS_KEEPW", "axis_tkeep_width"), ("AXI4_IDW", "axi_id_width")):
        eq(k, itf[v])
    for k, v in (("AXI4_ADDRW", 64), ("AXI4_LENW", 8), ("AXI4_SIZEW", 3), ("AXI4_BURSTW", 2), ("AXI4_RESPW", 2)):
        eq(k, v)

    def fields(name, width, total, ws):
        """Disjoint fields of the given widths inside [0, total)."""
        nonlocal n
        used = {}
        for f, w in ws:
            n += 1
            lo, hi = F[f]
            if hi - lo + 1 != w:
                out.append(("header:" + f, "%s is %d bits wide instead of %d" % (f, hi - lo + 1, w)))
            if lo < 0 or hi >= total:
                out.append(("header:" + f, "%s is bits %d to %d of a %s of %d bits" % (f, lo, hi, name, total)))
            for b in range(max(lo, 0), hi + 1):
                if b in used:
                    out.append(("header:" + f, "%s and %s overlap in a %s" % (f, used[b], name)))
                    break
                used[b] = f
    fields("stream payload", 0, C["AXIS_PAYLOADW"], [("AXIS_TLAST", 1), ("AXIS_TUSER", itf["axis_tuser_width"]), ("AXIS_TDATA", itf["max_axis_tdata_width"])])
    fields("stream transaction", 0, C["AXIS_TRANSACTION_WIDTH"], [("AXIS_TLAST", 1), ("AXIS_TUSER", itf["axis_tuser_width"]), ("AXIS_TDATA", itf["max_axis_tdata_width"]),
           ("AXIS_TSTRB", itf["axis_tstrb_width"]), ("AXIS_TKEEP", itf["axis_tkeep_width"]), ("AXIS_TID", C["AXIS_IDW"]), ("AXIS_TDEST", C["AXIS_DESTW"])])
    fields("destination", 0, C["AXIS_DESTW"], [("DEST_LOCAL_NODE", C["AXIS_DEST_FIELDW"]), ("DEST_REMOTE_NODE", C["AXIS_DEST_FIELDW"]), ("DEST_RAD", C["AXIS_DEST_FIELDW"])])
    fields("data packet", 0, C["AXI4_PAYLOADW"], [("AXI4_LAST", 1), ("AXI4_USER", itf["axi_user_width"]), ("AXI4_RESP", 2), ("AXI4_DATA", itf["max_axi_data_width"])])
    fields("address packet", 0, C["AXI4_PAYLOADW"], [("AXI4_LAST", 1), ("AXI4_USER", itf["axi_user_width"]), ("AXI4_CTRL", 13), ("AXI4_ADDR", 64)])
    if len({C["AXI_TYPE_" + t] for t in ("AR", "AW", "W", "R", "B")}) != 5 or C["AXI_NUM_REQ_TYPES"] != 3 or C["AXI_NUM_RSP_TYPES"] != 2:
        out.append(("header:types", "packet type constants are wrong"))
    return out, n


def overlays(dst, designs):
    """The probe design under each of the design names."""
    for d in designs:
        p = os.path.join(dst, d)
        os.makedirs(p, exist_ok=True)
        for f in os.listdir(os.path.join(VERIF, "harness/cfg")):
            t = open(os.path.join(VERIF, "harness/cfg", f)).read()
            open(os.path.join(p, f.replace("DESIGN", d)), "w").write(t.replace("DESIGN", d))
    return {d: os.path.join(dst, d) for d in designs}
