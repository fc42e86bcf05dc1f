"""Traffic scenarios for the vt design: generation, running, and the oracles over the recorded events."""
import math, random, os, shutil
from rad import *


class Scenario:
    def __init__(self, cfg, name="s"):
        self.cfg, self.name = cfg, name
        self.lines, self.place, self.clks = [], {}, {}
        self.modules, self.ports, self.flows, self.opts, self.ops = [], {}, [], {}, []
        self.seed, self.maxcyc, self.drain, self.rstcyc, self.idle = 1, 20000, 60, 1, 0
        self.ender, self.fins = 0, {}
        self.nsrc = 0
        self.srcname = {}

    def rads(self):
        return self.cfg["cluster"]["num_rads"]

    def module(self, rad, kind, name, clk=(0, 0), **opt):
        self.modules.append([rad, kind, name, dict(opt)])
        self.clks.setdefault(rad, []).append("%s %d %d" % (name, clk[0], clk[1]))
        return name

    def port(self, rad, module, role, pname, dataw, typ, noc, node, axi):
        full = module + "." + pname
        self.ports[(rad, full)] = dict(rad=rad, module=module, role=role, dataw=dataw, type=typ, noc=noc, node=node, axi=axi)
        self.place.setdefault(rad, []).append("%s %d %d %s" % (full, noc, node, axi))
        if role == "m":
            m = next(x for x in self.modules if x[0] == rad and x[2] == module)
            k = sum(1 for p in self.ports.values() if p["rad"] == rad and p["module"] == module and p["role"] == "m") - 1
            m[3]["src%d" % k] = self.nsrc
            self.srcname[self.nsrc] = (rad, full)
            self.ports[(rad, full)]["src"] = self.nsrc
            self.nsrc += 1
        return full

    def flow(self, sr, sp, dr, dp, n):
        self.flows.append((sr, sp, dr, dp, n))

    def opt(self, rad, port, **kw):
        self.opts.setdefault((rad, port), {}).update(kw)

    def op(self, rad, port, *a):
        self.ops.append((rad, port) + a)

    def text(self):
        o = ["seed %d" % self.seed, "maxcyc %d" % self.maxcyc, "drain %d" % self.drain, "rstcyc %d" % self.rstcyc, "idle %d" % self.idle]
        if self.fins:
            o += ["ender %d" % self.ender] + ["fin %d %d %s" % (r, c, " ".join(map(str, f))) for r, (c, f) in self.fins.items()]
        for r, k, n, opt in self.modules:
            o.append("module %d %s %s %s" % (r, k, n, " ".join("%s=%s" % kv for kv in opt.items())))
        for (r, full), p in self.ports.items():
            if p["axi"] == "aximm" and ".mem_channel_" in full:
                continue
            o.append("port %d %s %s %s %d %d" % (r, p["module"], p["role"], full, p["dataw"], p["type"]))
        for f in self.flows:
            o.append("flow %d %s %d %s %d" % f)
        for (r, p), kw in self.opts.items():
            o.append("opt %d %s %s" % (r, p, " ".join("%s=%d" % kv for kv in kw.items())))
        for x in self.ops:
            o.append("op " + " ".join(str(v) for v in x))
        return "\n".join(o) + "\n"


_run_ctr = [0]


class RunResult:
    pass


def prepare(sc, tag):
    d = os.path.join(BUILD, "run", tag)
    if os.path.isdir(d):
        rmtree(d)
    os.makedirs(d)
    root, r = configure(sc.cfg, d)
    if not config_ok(root, r):
        raise HarnessError("config.py failed on a valid configuration: " + r.out[-600:])
    dd = os.path.join(root, "example-designs/vt")
    for rad in range(sc.rads()):
        with open(os.path.join(dd, "vt%d.place" % rad), "w") as f:
            f.write("\n".join(sc.place.get(rad, [])) + "\n")
        with open(os.path.join(dd, "vt%d.clks" % rad), "w") as f:
            f.write("\n".join(sc.clks.get(rad, [])) + "\n")
    with open(os.path.join(root, "scenario.txt"), "w") as f:
        f.write(sc.text())
    return root


def execute(root, exe, timeout=300, env=None, stats=False):
    e = base_env(VT_SCENARIO="scenario.txt", VT_LOG="events.log", **(env or {}))
    if stats:
        e["VT_STATS"] = "1"
    r = run([exe], cwd=root, env=e, timeout=timeout, outfile=os.path.join(root, "stdout.log"))
    r.events = []
    p = os.path.join(root, "events.log")
    if os.path.exists(p):
        with open(p) as f:
            r.events = [l.split() for l in f if l.endswith("\n")]
    return r


def crash_of(r):
    """Describe an abnormal end of a simulator process, or None."""
    if r.timed_out:
        return None
    # shift checks recover, because SystemC's own headers (sc_lv_base.h) shift by the word size
    m = re.search(r"(ERROR: AddressSanitizer: \S+|^(?!/usr/)[\w./-]+:\d+:\d+: runtime error: .*)", r.out, re.M)
    if m or r.rc in (98, 99):
        fr = re.findall(r"#\d+ 0x[0-9a-f]+ in (\S+)[^\n]*?/(rad-sim/[\w./-]+):", r.out)
        where = "; ".join("%s (%s)" % f for f in fr[:3])
        return "sanitizer", "%s at %s" % (m.group(1) if m else "report", where)
    m = re.search(r"([\w./-]+): Assertion `(.*?)' failed", r.out)
    if m:
        return "assert", m.group(0)
    if r.rc < 0:
        return "signal", "killed by signal %d" % -r.rc
    if r.rc == 77:
        return "harness", r.out[-300:]
    return None


# ------------------------------------------------------------------ generators
def pick_clks(rng, fast_adapter=True):
    noc = rng.choice([0.5, 0.571, 0.8, 1.0, 1.25, 2.0, 3.3])
    ad = rng.choice([0.5, 0.8, 1.0, 1.25, 1.5, 2.0, 3.0, 5.0])
    mod = [rng.choice([0.5, 1.0, 1.5, 2.0, 3.32, 5.0, 7.0]) for _ in range(rng.randint(1, 3))]
    return noc, ad, mod


def gen_axis(rng, group, idx):
    """A random single-RAD AXI-S scenario in a define group."""
    k = rng.choice(group["ks"])
    kx, ky = k, k
    if rng.random() < 0.4:  # non-square grids are padded to the larger dimension
        if rng.random() < 0.5: kx = rng.randint(2, k)
        else: ky = rng.randint(2, k)
    noc_p, ad_p, mod_p = pick_clks(rng)
    nvc_types = group["types"]
    w = group["axis_w"]
    nflits = math.ceil((w + group["tuser"] + 1) / group["payload"])
    buf = rng.choice([x for x in (2, 3, 4, 8, 16) if x >= nflits] or [nflits])
    noc = dict(payload_width=[group["payload"]], dim_x=[kx], dim_y=[ky], clk_period=[noc_p], vcs=[nvc_types],
               num_packet_types=[nvc_types], vc_buffer_size=[buf],
               output_buffer_size=[rng.choice([1, 2, 8])],
               vc_allocator=[rng.choice(["islip", "separable_input_first", "separable_output_first", "wavefront", "pim", "loa", "select"])],
               sw_allocator=[rng.choice(["islip", "separable_input_first", "separable_output_first", "wavefront", "pim", "loa", "select"])],
               credit_delay=[rng.choice([0, 1, 1, 2, 4])], routing_delay=[rng.choice([0, 1, 1, 2, 3])],
               vc_alloc_delay=[rng.choice([1, 1, 2])], sw_alloc_delay=[rng.choice([1, 1, 2])],
               routing_func=[rng.choice(["dim_order"] * 4 + ["xy_yx"] * 0)])
    fifo = rng.choice([x for x in (buf, 8, 16, 32) if x >= buf])
    adapters = dict(clk_period=[ad_p], fifo_size=[fifo], obuff_size=[rng.choice([1, 2, 2, 4])])
    ifc = {"max_axis_tdata_width": w, "axis_tuser_width": group["tuser"]}
    cfg = make_config(noc, adapters, {"sim_driver_period": 5.0}, None, ifc)
    cfg["config rad1"]["design"]["clk_periods"] = mod_p
    sc = Scenario(cfg, "axis%d" % idx)
    sc.seed = rng.randrange(1 << 30)
    sc.rstcyc = rng.choice([1, 2, 5])
    nodes = list(range(k * k)) if kx == ky else [y * k + x for y in range(ky) for x in range(kx)]
    rng.shuffle(nodes)
    nmod = rng.randint(2, min(len(nodes), group.get("maxmods", 7)))
    dests, srcs = [], []
    for i in range(nmod):
        clk = (0, rng.randrange(len(mod_p)))
        name = "mod%d" % i
        sc.module(0, "axis", name, clk)
        node = nodes[i]
        for p in range(rng.choice([0, 1, 1, 2, 3])):
            srcs.append((sc.port(0, name, "m", "tx%d" % p, w, 0, 0, node, "axis"), node))
        for p in range(rng.choice([0, 1, 1, 2, 3])):
            dests.append(sc.port(0, name, "s", "rx%d" % p, w, 0, 0, node, "axis"))
    # guarantee one of each
    if not srcs:
        srcs.append((sc.port(0, "mod0", "m", "txa", w, 0, 0, nodes[0], "axis"), nodes[0]))
    if not dests:
        dests.append(sc.port(0, "mod1", "s", "rxa", w, 0, 0, nodes[1], "axis"))
    # packet types per port
    for key, p in sc.ports.items():
        if p["role"] == "m":
            p["type"] = rng.randrange(nvc_types)
    total = 0
    budget = group["pkts"]
    hot = rng.random() < 0.35
    for s, node in srcs:
        for d in (rng.sample(dests, min(len(dests), rng.randint(1, 4))) if not hot else [dests[0]]):
            n = rng.choice([1, 3, 10, 30]) if budget > 0 else 1
            n = min(n, max(1, budget))
            budget -= n
            total += n
            sc.flow(0, s, 0, d, n)
        sc.opt(0, s, gap=rng.choice([0, 0, 64, 180, 240]), burst=rng.choice([1, 1, 4, 16]), start=rng.choice([0, 0, 0, 20]))
    for d in dests:
        sc.opt(0, d, stall=rng.choice([0, 0, 40, 128, 200]), mode=rng.choice([1, 3, 10, 40]))
    # a generous bound on simulated progress, in driver cycles (5 ns)
    per = nflits * (noc_p + ad_p) * 6 + 60 * max(mod_p) + 300
    sc.maxcyc = int(4000 + total * per / 5.0 * 3)
    sc.drain = int(100 + 60 * (noc_p + ad_p + max(mod_p)))
    sc.total = total
    sc.nflits = nflits
    return sc


# ------------------------------------------------------------------ AXI-S oracle
def check_axis(sc, events, inorder=True):
    """Exactly-once, unmodified, in-order delivery at the addressed port. Returns (problems, stats)."""
    bad = []
    sent = {}          # (user tag) -> record
    order = {}
    w = sc.cfg.get("interfaces", {}).get("max_axis_tdata_width", 512)
    got = {}
    stats = dict(sent=0, received=0, held=0, flows=set(), maxlat=0)
    recv_seq = {}
    for e in events:
        if e[0] == "S":
            _, rad, t, port, drad, dport, data, user, last, dest, tid = e
            key = int(user, 16) & 0xffffffff
            sent[(key)] = dict(rad=int(rad), port=port, drad=int(drad), dport=dport, data=data, user=user, last=last, t=int(t), dest=dest, id=tid)
            stats["sent"] += 1
        elif e[0] == "R":
            _, rad, t, port, data, user, last, dest, tid = e
            key = int(user, 16) & 0xffffffff
            stats["received"] += 1
            got.setdefault(key, []).append((int(rad), port, data, user, last, int(t), dest, tid))
            recv_seq.setdefault((int(rad), port), []).append(key)
        elif e[0] == "H":
            stats["held"] += 1
    for key, l in got.items():
        if key not in sent:
            bad.append(("phantom", "a transaction that nobody sent arrived: %s" % (l[0],)))
            continue
        s = sent[key]
        if len(l) > 1:
            bad.append(("duplicate", "transaction %08x from %s to %s arrived %d times" % (key, s["port"], s["dport"], len(l))))
        r = l[0]
        if (r[0], r[1]) != (s["drad"], s["dport"]):
            bad.append(("misrouted", "transaction %08x for %d/%s arrived at %d/%s" % (key, s["drad"], s["dport"], r[0], r[1])))
        for nm, a, b in (("tdata", s["data"], r[2]), ("tuser", s["user"], r[3]), ("tlast", s["last"], r[4])):
            if a != b:
                bad.append(("corrupt-" + nm, "%s of %08x (%s -> %s) sent %s received %s" % (nm, key, s["port"], s["dport"], a, b)))
        if r[5] < s["t"]:
            bad.append(("early", "transaction %08x received at %d before it was sent at %d" % (key, r[5], s["t"])))
        stats["maxlat"] = max(stats["maxlat"], r[5] - s["t"])
        stats["flows"].add((s["port"], s["dport"]))
    end = [e for e in events if e[0] == "E"]
    lost = [k for k in sent if k not in got]
    if end:
        if lost:
            s = sent[lost[0]]
            bad.append(("lost", "%d of %d transactions never arrived by the end (%s), e.g. %08x %s -> %s sent at %d ps" % (
                len(lost), len(sent), end[0][2], lost[0], s["port"], s["dport"], s["t"])))
        elif end[0][2] != "done":
            bad.append(("stuck", "sources could not send everything: observed %s of %s events" % (end[0][3], end[0][4])))
    if inorder:
        for (rad, port), seq in recv_seq.items():
            last = {}
            for key in seq:
                s = key >> 20
                q = key & 0xfffff
                if s in last and q < last[s]:
                    bad.append(("reordered", "%s received packet %d of source %s after packet %d" % (port, q, sc.srcname.get(s), last[s])))
                    break
                last[s] = max(last.get(s, -1), q)
    return bad, stats


# ------------------------------------------------------------------ AXI-MM
def gen_noc(rng, group, nflits, kx, ky, vcs, types, fifo_min=0):
    buf = rng.choice([x for x in (2, 3, 4, 8, 16, 24) if x >= nflits] or [nflits])
    allocs = ["islip", "separable_input_first", "separable_output_first", "wavefront", "pim", "loa", "select"]
    noc = dict(payload_width=[group["payload"]], dim_x=[kx], dim_y=[ky], vcs=[vcs], num_packet_types=[types],
               vc_buffer_size=[buf], output_buffer_size=[rng.choice([1, 2, 8])],
               vc_allocator=[rng.choice(allocs)], sw_allocator=[rng.choice(allocs)],
               credit_delay=[rng.choice([0, 1, 1, 2, 4])], routing_delay=[rng.choice([0, 1, 1, 2, 3])],
               vc_alloc_delay=[rng.choice([1, 1, 2])], sw_alloc_delay=[rng.choice([1, 1, 2])])
    lo = max(buf, fifo_min)
    adapters = dict(fifo_size=[rng.choice([x for x in (lo, 8, 16, 32) if x >= lo])], obuff_size=[rng.choice([1, 2, 2, 4])])
    return noc, adapters


def grid(rng, group):
    k = rng.choice(group["ks"])
    kx, ky = k, k
    if rng.random() < 0.3:
        if rng.random() < 0.5: kx = rng.randint(2, k)
        else: ky = rng.randint(2, k)
    nodes = [y * k + x for y in range(ky) for x in range(kx)]
    rng.shuffle(nodes)
    return k, kx, ky, nodes


def gen_aximm(rng, group, idx):
    """A random single-RAD system of AXI-MM requesters and responders."""
    k, kx, ky, nodes = grid(rng, group)
    noc_p, ad_p, mod_p = pick_clks(rng)
    w = rng.choice(group["mm_w"])
    maxw, uw, idw = group.get("max_w", 512), group.get("uw", 64), group.get("idw", 8)
    nflits = math.ceil((max(maxw, 77) + 2 + uw + 1) / group["payload"])
    noc, adapters = gen_noc(rng, group, nflits, kx, ky, 5, 5, nflits + 1)
    noc["clk_period"], adapters["clk_period"] = [noc_p], [ad_p]
    cfg = make_config(noc, adapters, {"sim_driver_period": 5.0}, None, {"max_axis_tdata_width": 64, "axis_tuser_width": 32, "max_axi_data_width": maxw, "axi_user_width": uw, "axi_id_width": idw})
    cfg["config rad1"]["design"]["clk_periods"] = mod_p
    sc = Scenario(cfg, "mm%d" % idx)
    sc.seed = rng.randrange(1 << 30)
    sc.rstcyc = rng.choice([1, 2, 5])
    nreq = rng.randint(1, min(4, len(nodes) - 1))
    nres = rng.randint(1, min(3, len(nodes) - nreq))
    clk = lambda: (0, rng.randrange(len(mod_p)))
    reqs, ress = [], []
    for i in range(nreq):
        nm = sc.module(0, "mmm", "req%d" % i, clk())
        reqs.append(sc.port(0, nm, "m", "axi", w, 0, 0, nodes[i], "aximm"))
    for i in range(nres):
        nm = sc.module(0, "mms", "res%d" % i, clk())
        ress.append(sc.port(0, nm, "s", "axi", w, 0, 0, nodes[nreq + i], "aximm"))
    nodebits = max(1, math.ceil(math.log2(k * k)))
    beats = 0
    for r in reqs:
        mix = rng.choice(["r", "w", "rw", "rw", "rw"])
        for i in range(rng.choice([1, 4, 12, 30])):
            kind = "R" if mix == "r" or (mix == "rw" and rng.random() < 0.5) else "W"
            ln = rng.choice([0, 0, 1, 3, 7])
            beats += ln + 1
            addr = rng.choice([0, rng.getrandbits(64 - nodebits), rng.getrandbits(20), (1 << (64 - nodebits)) - 1])
            sc.op(0, r, kind, rng.choice(ress), addr, ln, rng.randrange(8), rng.randrange(4), rng.randrange(1 << idw))
        sc.opt(0, r, gap=rng.choice([0, 0, 64, 200]), stall=rng.choice([0, 0, 40, 128, 200]), mode=rng.choice([1, 3, 10, 40]),
               wearly=rng.choice([0, 1]), awahead=rng.choice([0, 1]))
    for d in ress:
        sc.opt(0, d, gap=rng.choice([0, 0, 64, 200]), stall=rng.choice([0, 0, 40, 128, 200]), mode=rng.choice([1, 3, 10, 40]))
    per = nflits * (noc_p + ad_p) * 6 + 80 * max(mod_p) + 300
    sc.maxcyc = int(4000 + beats * 2 * per / 5.0 * 3)
    sc.drain = int(100 + 60 * (noc_p + ad_p + max(mod_p)))
    sc.nflits = nflits
    return sc


MMFIELDS = {"AR": ("addr", "id", "len", "size", "burst", "user"), "AW": ("addr", "id", "len", "size", "burst", "user"),
            "W": ("id", "data", "last", "user"), "R": ("id", "data", "resp", "last", "user"), "B": ("id", "resp", "user")}


def mm_events(events):
    """Channel events normalised: (channel, 'S'|'R', rad, t, port, peer, fields tuple)."""
    out = []
    for e in events:
        k = e[0]
        if k in ("SAR", "SAW"):
            addr, iid, ln, sz, bu, user = e[6:12]
            out.append((k[1:], "S", int(e[1]), int(e[2]), e[3], e[4], (addr, iid, ln, sz, bu, user)))
        elif k == "SW":
            out.append(("W", "S", int(e[1]), int(e[2]), e[3], e[4], (e[7], e[8], e[9], e[10])))
        elif k in ("RAR", "RAW", "RW", "SR", "SB", "RR", "RB"):
            out.append((k[1:], k[0], int(e[1]), int(e[2]), e[3], None, tuple(e[4:])))
    return out


def check_aximm(sc, events):
    """Every AR/AW/W/R/B transfer arrives once, unmodified, at the addressed port, in order per (source, destination)."""
    bad, stats = [], dict(sent=0, received=0, held=0, pairs=set(), maxlat=0, by={})
    resp_port = {}   # request user tag -> requester port
    sent, recv = {}, {}
    for ch, d, rad, t, port, peer, f in mm_events(events):
        tag = f[-1]
        if d == "S" and ch in ("AR", "AW", "W"):
            resp_port[tag] = port
            key = (ch, port, peer)
            sent.setdefault(key, []).append((f, t))
        elif d == "S":
            key = (ch, port, resp_port.get(tag))
            sent.setdefault(key, []).append((f, t))
        elif ch in ("AR", "AW", "W"):
            key = (ch, resp_port.get(tag), port)
            recv.setdefault(key, []).append((f, t))
        else:
            recv.setdefault((ch, None, port), []).append((f, t))
        stats["sent" if d == "S" else "received"] += 1
        if d == "R":
            stats["by"][ch] = stats["by"].get(ch, 0) + 1
    stats["held"] = sum(1 for e in events if e[0] == "H")
    # requests: sequences per (channel, source, destination)
    for key in sorted(set(sent) | set(k for k in recv if k[1] is not None), key=str):
        ch, src, dst = key
        if ch in ("R", "B"):
            continue
        s, r = sent.get(key, []), recv.get(key, [])
        stats["pairs"].add(key)
        sf, rf = [x[0] for x in s], [x[0] for x in r]
        if sf == rf:
            stats["maxlat"] = max([stats["maxlat"]] + [b[1] - a[1] for a, b in zip(s, r)])
            if any(b[1] < a[1] for a, b in zip(s, r)):
                bad.append(("early", "%s %s->%s received before it was sent" % key))
            continue
        bad += diff_seq(ch, src, dst, sf, rf)
    # responses: per requester port, group by tag; the tags identify the responder by the S event
    for ch in ("R", "B"):
        st, rt = {}, {}
        for (c, p, q), l in sent.items():
            if c == ch:
                for f, t in l:
                    st.setdefault((q, p), []).append(f)
                    stats["pairs"].add((ch, p, q))
        src_of = {}
        for (q, p), l in st.items():
            for f in l:
                src_of[(q, f[-1])] = p
        for (c, p, q), l in recv.items():
            if c == ch:
                for f, t in l:
                    rt.setdefault((q, src_of.get((q, f[-1]))), []).append(f)
        for key in sorted(set(st) | set(rt), key=str):
            if st.get(key, []) != rt.get(key, []):
                bad += diff_seq(ch, key[1], key[0], st.get(key, []), rt.get(key, []))
    end = [e for e in events if e[0] == "E"]
    if end and end[0][2] != "done" and not bad:
        bad.append(("stuck", "no progress: observed %s of %s transfers" % (end[0][3], end[0][4])))
    return bad, stats


def diff_seq(ch, src, dst, s, r):
    names = MMFIELDS[ch]
    out = []
    for i in range(max(len(s), len(r))):
        if i >= len(r):
            out.append(("lost-" + ch, "%d of %d %s transfers %s -> %s never arrived, first: %s" % (len(s) - len(r), len(s), ch, src, dst, dict(zip(names, s[i])))))
            break
        if i >= len(s):
            out.append(("extra-" + ch, "%d extra %s transfers arrived at %s from %s, first: %s" % (len(r) - len(s), ch, dst, src, dict(zip(names, r[i])))))
            break
        if s[i] != r[i]:
            d = [n for n, a, b in zip(names, s[i], r[i]) if a != b]
            kind = "corrupt-" + "+".join(d) if s[i][-1] == r[i][-1] and len(d) < len(names) - 1 else "order"
            if i and r[i] == r[i - 1]: kind = "duplicate"
            out.append((kind + "-" + ch, "%s transfer %d of %s -> %s: sent %s received %s" % (ch, i, src, dst, dict(zip(names, s[i])), dict(zip(names, r[i])))))
            break
    return out
