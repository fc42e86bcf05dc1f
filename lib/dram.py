"""Random DRAM configurations and runs of the DRAMsim3 harness."""
import glob, json, os, random, re
from common import *
from cxx import compile_all

D3 = os.path.join(REPO, "rad-sim/sim/dram/DRAMsim3")
SRC = "bankstate channel_state command_queue common configuration controller dram_system hmc refresh simple_stats timing memory_system".split()


def build_dram(flavor="plain", main="harness/dram/dram_main.cpp", name="dram"):
    return compile_all(name, [os.path.join(D3, "src", s + ".cc") for s in SRC] + [os.path.join(VERIF, main)],
                       [os.path.join(D3, "src"), os.path.join(D3, "ext/headers"), os.path.join(D3, "ext/fmt/include"), os.path.join(D3, "ext/fmt/include/fmt")],
                       flavor, extra="-DCMD_TRACE -DFMT_HEADER_ONLY=1")


PATTERNS = ["random", "stream", "conflict", "hot", "bank", "rank", "half", "rows", "mix"]


def shipped():
    return sorted(f for f in glob.glob(os.path.join(D3, "configs/*.ini")) if "HMC" not in f)


def shipped_hmc():
    return sorted(f for f in glob.glob(os.path.join(D3, "configs/HMC*.ini")) if "dummy" not in f)


def load_ini(path):
    """[(section, key, value)] in the file's order."""
    out, sec = [], ""
    for l in open(path, errors="replace"):
        l = l.split(";")[0].strip()
        if not l or l[0] == "#":
            continue
        if l[0] == "[":
            sec = l[1:l.index("]")].strip()
        elif "=" in l:
            k, v = l.split("=", 1)
            out.append((sec, k.strip(), v.strip()))
    return out


def get(ini, sec, key, default=None):
    v = default
    for s, k, x in ini:
        if s == sec and k == key:
            v = x
    return v


def put(ini, sec, key, value):
    return [x for x in ini if x[:2] != (sec, key)] + [(sec, key, str(value))]


def dump(ini):
    secs = []
    for s, _, _ in ini:
        if s not in secs:
            secs.append(s)
    return "".join("[%s]\n%s\n" % (s, "".join("%s = %s\n" % (k, v) for t, k, v in ini if t == s)) for s in secs)


def geti(ini, sec, key, d):
    m = re.match(r"[+-]?\d+", get(ini, sec, key, str(d)))
    return int(m.group()) if m else d


def rank_mb(ini):
    cols, proto = geti(ini, "dram_structure", "columns", 1024), get(ini, "dram_structure", "protocol", "DDR3")
    bl, dw = geti(ini, "dram_structure", "BL", 8), geti(ini, "dram_structure", "device_width", 8)
    if proto.startswith("GDDR"):
        cols *= bl
    if proto.startswith("HBM"):
        cols *= 2
    banks = geti(ini, "dram_structure", "bankgroups", 2) * geti(ini, "dram_structure", "banks_per_group", 2)
    return cols * dw // 8 * (geti(ini, "dram_structure", "rows", 65536) // 1024) // 1024 * banks * (geti(ini, "system", "bus_width", 64) // dw)


def variant(rng, path, want=None):
    """A random variant of a shipped configuration. Returns (ini, description)."""
    ini = [x for x in load_ini(path) if x[:2] != ("other", "output_prefix")]
    want = want or {}
    d = [os.path.basename(path)[:-4]]

    def setk(sec, key, val, note=None):
        nonlocal ini
        ini = put(ini, sec, key, val)
        d.append("%s=%s" % (key, val) if note is None else note)

    if rng.random() < want.get("plain", .25):
        return ini, "-".join(d)
    page = want.get("page") or rng.choice(["OPEN_PAGE", "CLOSE_PAGE"])
    setk("system", "row_buf_policy", page)
    setk("system", "queue_structure", rng.choice(["PER_BANK", "PER_RANK"]))
    if rng.random() < .4:
        setk("system", "unified_queue", rng.choice(["true", "false"]))
    f = ["ch", "ra", "bg", "ba", "ro", "co"]
    rng.shuffle(f)
    if rng.random() < .6:
        setk("system", "address_mapping", "".join(f))
    setk("system", "refresh_policy", want.get("refresh") or rng.choice(["RANK_LEVEL_SIMULTANEOUS", "RANK_LEVEL_STAGGERED", "RANK_LEVEL_STAGGERED", "BANK_LEVEL_STAGGERED"]))
    setk("system", "cmd_queue_size", rng.choice([2, 4, 8, 16]))
    setk("system", "trans_queue_size", rng.choice([8, 16, 32, 64]))
    setk("system", "channels", rng.choice([1, 1, 2, 4]))
    setk("system", "channel_size", rank_mb(ini) * rng.choice([1, 1, 2, 4]))
    if rng.random() < .2:
        setk("dram_structure", "bankgroup_enable", "false")
    if rng.random() < want.get("sref", .4):
        setk("system", "enable_self_refresh", "true")
        setk("system", "sref_threshold", rng.choice([100, 300, 1000]))
    if rng.random() < want.get("fast_refresh", .4):
        rfc = geti(ini, "timing", "tRFC", 74)
        ranks = max(1, geti(ini, "system", "channel_size", 1024) // rank_mb(ini))
        setk("timing", "tREFI", max(rng.choice([4, 6, 10]) * rfc, 500) * ranks)
    if rng.random() < want.get("bank_refresh", 0):  # one bank refresh fits into the interval, barely or easily
        T = lambda k, d: geti(ini, "timing", k, d)
        ranks = max(1, geti(ini, "system", "channel_size", 1024) // rank_mb(ini))
        fits = T("tRAS", 24) + T("AL", 0) + T("CWL", 12) + T("tWR", 10) + 2 * T("tRP", 10) + T("tRTP", 5) + T("tRFCb", 20) + 24
        setk("system", "refresh_policy", "BANK_LEVEL_STAGGERED")
        setk("system", "enable_self_refresh", "false")
        setk("timing", "tREFIb", int(fits * rng.choice([1.2, 1.5, 3])) * ranks)
    return ini, "-".join(d)


def variant_hmc(rng, path):
    ini = [x for x in load_ini(path) if x[:2] != ("other", "output_prefix")]
    d = [os.path.basename(path)[:-4]]
    for sec, key, vals in (("hmc", "block_size", [32, 64, 128, 256]), ("hmc", "num_links", [2, 4]), ("hmc", "link_width", [8, 16]), ("hmc", "link_speed", [12500, 15000, 25000, 30000]),
                           ("hmc", "xbar_queue_depth", [2, 4, 16, 32]), ("system", "queue_structure", ["PER_BANK", "PER_RANK"]), ("system", "row_buf_policy", ["OPEN_PAGE", "CLOSE_PAGE"]),
                           ("system", "trans_queue_size", [4, 8, 32]), ("system", "unified_queue", ["true", "false"]), ("system", "refresh_policy", ["RANK_LEVEL_STAGGERED", "RANK_LEVEL_SIMULTANEOUS"])):
        if rng.random() < .5:
            v = rng.choice(vals)
            ini = put(ini, sec, key, v)
            d.append("%s=%s" % (key, v))
    return ini, "-".join(d)


def run_dram(exe, rng, root, k, n_inst, cycles, hmc=False, focus=None):
    """One process with n_inst memory systems. Returns (log lines, description, list of (ini, outdir), result)."""
    d = os.path.join(root, "d%d" % k)
    os.makedirs(d)
    args, desc, insts = [], [], []
    for i in range(n_inst):
        ini, note = variant_hmc(rng, rng.choice(shipped_hmc())) if hmc else variant(rng, rng.choice(shipped()), focus)
        if rng.random() < .6:
            ini = put(ini, "other", "epoch_period", rng.choice([1000, 3000, 10000]))
        ini = put(ini, "other", "output_level", rng.choice([1, 1, 1, 0]))
        p = os.path.join(d, "c%d.ini" % i)
        open(p, "w").write(dump(ini))
        o = os.path.join(d, "o%d" % i)
        os.makedirs(o)
        pat, w, rate = rng.choice(PATTERNS), rng.choice([0, 20, 50, 80, 100]), rng.choice([20, 100, 300, 1000])
        idle = rng.choice([0, 0, 500, 3000])
        tail = rng.choice([0, 0, cycles // 2])
        args.append("%s,%s,%s,%d,%d,%d,%d" % (p, o, pat, w, rate, idle, tail))
        if (focus or {}).get("conserve"):  # writes wait in their buffer unless reads and writes share a queue
            if get(ini, "system", "unified_queue", "false").lower() not in ("true", "yes", "on", "1"):
                w = rng.choice([0, 0, 0, 100])
            cap = rng.choice([1, 2, 3, 4, 6, 10, 1000])
            args[-1] = "%s,%s,%s,%d,%d,%d,%d,%d" % (p, o, pat, w, rate, idle, tail, cap)
        desc.append("%s pattern=%s writes=%d rate=%d idle=%d tail=%d" % (note, pat, w, rate, idle, tail))
        insts.append((ini, o))
    log = os.path.join(d, "log")
    seed = rng.getrandbits(30)
    r = run([exe, log, str(seed), str(cycles)] + args, cwd=d, timeout=300)
    r.cmd = [log, str(seed), str(cycles)] + args
    lines = open(log, errors="replace").read().split("\n") if os.path.exists(log) else []
    return lines, desc, insts, r, d


# ------------------------------------------------------------------ the statistics file, recomputed from the command trace
def getf(ini, sec, key, d):
    m = re.match(r"[+-]?[0-9.]+([eE][+-]?\d+)?", get(ini, sec, key, str(d)))
    return float(m.group()) if m else d


def increments(ini, g):
    """Energy per command and per rank and cycle, from the power section (JEDEC IDD arithmetic, V*mA*cycles)."""
    P = lambda k, d: getf(ini, "power", k, d)
    T = lambda k, d: geti(ini, "timing", k, d)
    v, n = P("VDD", 1.2), g["devices"]
    ras, rp = T("tRAS", 24), T("tRP", 10)
    i3n, i2n = P("IDD3N", 43), P("IDD2N", 34)
    return {"act": v * (P("IDD0", 48) * (ras + rp) - (i3n * ras + i2n * rp)) * n, "read": v * (P("IDD4R", 135) - i3n) * g["bc"] * n,
            "write": v * (P("IDD4W", 123) - i3n) * g["bc"] * n, "ref": v * (P("IDD5AB", 250) - i3n) * T("tRFC", 74) * n,
            "refb": v * (P("IDD5PB", 5) - i3n) * T("tRFCb", 20) * n, "act_stb": v * i3n * n, "pre_stb": v * i2n * n, "sref": v * P("IDD6x", 31) * n}


def near(a, b):
    return abs(a - b) <= 1e-6 * max(1.0, abs(a), abs(b))


def read_trace(path, ranks):
    """[(cycle, op, rank, bank key)]"""
    out = []
    for l in open(path):
        f = l.split()
        out.append((int(f[0]), f[1], int(f[3]), (int(f[4]), int(f[5]))))
    return out


OPSTAT = {"read": "num_read_cmds", "read_p": "num_read_cmds", "write": "num_write_cmds", "write_p": "num_write_cmds", "activate": "num_act_cmds", "precharge": "num_pre_cmds",
          "refresh": "num_ref_cmds", "refresh_bank": "num_refb_cmds", "self_refresh_enter": "num_srefe_cmds", "self_refresh_exit": "num_srefx_cmds"}
HIST = {"read_latency": (0, 200, 20), "write_latency": (0, 200, 20), "interarrival_latency": (0, 100, 10)}


def bins(name, h):
    lo, hi, w = HIST[name]
    out = {"%s[-%d]" % (name, lo): 0, "%s[%d-]" % (name, hi): 0}
    for a in range(lo, hi, w):
        out["%s[%d-%d]" % (name, a, a + w - 1)] = 0
    for v, n in h.items():
        out["%s[-%d]" % (name, lo) if v < lo else "%s[%d-]" % (name, hi) if v >= hi else "%s[%d-%d]" % (name, (v - lo) // w * w + lo, (v - lo) // w * w + lo + w - 1)] += n
    return out


def rank_cycles(tr, ranks, cycles):
    """Per rank: cycles with all banks closed, with a bank open, in self-refresh, as sampled after each cycle's commands (self-refresh entry and exit count from the next cycle)."""
    open_ = [set() for _ in range(ranks)]
    state = ["idle"] * ranks
    since = [0] * ranks
    tot = [{"idle": 0, "active": 0, "sref": 0} for _ in range(ranks)]
    win = []
    for clk, op, ra, bank in tr:
        old = state[ra]
        if op == "activate":
            open_[ra].add(bank)
        elif op in ("precharge", "read_p", "write_p"):
            open_[ra].discard(bank)
        new, at = ("active" if open_[ra] else "idle"), clk
        if op == "self_refresh_enter":
            new, at = "sref", clk + 1
        elif op == "self_refresh_exit":
            new = "idle"
        elif old == "sref":
            new = "sref"
        if new != old:
            win.append((ra, old, since[ra], at))
            state[ra], since[ra] = new, at
    for ra in range(ranks):
        win.append((ra, state[ra], since[ra], cycles))
    return win


def check_stats(ini, out, lines, hmc=False):
    """Violations [(kind, text)] and counters of one memory system's statistics."""
    V, n = [], 0
    T, H, G = {}, {}, {}
    for l in lines:
        f = l.split()
        if len(f) > 2 and f[1] == out:
            if f[0] == "T":
                T[int(f[2])] = {f[i]: int(f[i + 1]) for i in range(3, len(f) - 1, 2)}
            elif f[0] == "H":
                H.setdefault(int(f[2]), {})[f[3]] = {int(x.split(":")[0]): int(x.split(":")[1]) for x in f[4:]}
            elif f[0] == "G":
                G = {f[i]: int(f[i + 1]) for i in range(2, len(f) - 1, 2)}
    try:
        js = json.load(open(os.path.join(out, "dramsim3_0.json")))
    except (OSError, ValueError) as e:
        return [("stats-json", "the statistics file cannot be read: %s" % e)], 0
    if sorted(js) != sorted(str(c) for c in T):
        V.append(("stats-channels", "statistics for channels %s, the system has %s" % (sorted(js), sorted(T))))
    inc = increments(ini, G)
    tck = getf(ini, "timing", "tCK", 1.0)
    period = geti(ini, "other", "epoch_period", 100000)
    epochs = {}
    lvl = geti(ini, "other", "output_level", 1)
    cyc = max([t["cycles"] for t in T.values()] + [0])
    if lvl >= 1 and cyc >= period:
        try:
            for e in json.load(open(os.path.join(out, "dramsim3_0epoch.json"))):
                epochs.setdefault(e["channel"], []).append(e)
        except (OSError, ValueError) as e:
            V.append(("stats-epoch-json", "the epoch file cannot be read: %s" % e))

    def cmp(name, got, want, where):
        nonlocal n
        n += 1
        if got is None or not near(float(got), float(want)):
            V.append(("stats-" + re.sub(r"\[.*|\.\d+$", "", name), "channel %s: %s is %s, the commands and requests seen make %s" % (where, name, got, want)))

    def block(j, where, counts, cycles, per_rank, exact_reqs, hists):
        for k, v in counts.items():
            cmp(k, j.get(k), v, where)
        cmp("num_cycles", j.get("num_cycles"), cycles, where)
        total = 0
        for e, k in (("act", "num_act_cmds"), ("read", "num_read_cmds"), ("write", "num_write_cmds"), ("ref", "num_ref_cmds"), ("refb", "num_refb_cmds")):
            cmp(e + "_energy", j.get(e + "_energy"), counts[k] * inc[e], where)
            total += counts[k] * inc[e]
        for ra in range(G["ranks"]):
            for st, k, e in (("idle", "all_bank_idle_cycles", "pre_stb"), ("active", "rank_active_cycles", "act_stb"), ("sref", "sref_cycles", "sref")):
                want = per_rank.get((ra, st), 0)
                cmp("%s.%d" % (k, ra), j[k].get(str(ra)), want, where)
                cmp("%s_energy.%d" % (e, ra), j[e + "_energy"].get(str(ra)), want * inc[e], where)
                total += want * inc[e]
        cmp("total_energy", j.get("total_energy"), total, where)
        if cycles:
            cmp("average_power", j.get("average_power"), total / cycles, where)
        if exact_reqs:
            for k, v in exact_reqs.items():
                cmp(k, j.get(k), v, where)
            cmp("average_bandwidth", j.get("average_bandwidth"), sum(exact_reqs.values()) * G["reqbytes"] / (cycles * tck), where)
        else:
            cmp("average_bandwidth", j.get("average_bandwidth"), (j["num_reads_done"] + j["num_writes_done"]) * G["reqbytes"] / (cycles * tck), where)
        for name, h in hists.items():
            for b, v in bins(name, h).items():
                cmp(b, j.get(b), v, where)

    for c, t in T.items():
        j = js.get(str(c))
        if j is None:
            continue
        tr = read_trace(os.path.join(out, "dramsim3_0ch_%dcmd.trace" % c), G["ranks"])
        wins = rank_cycles(tr, G["ranks"], t["cycles"])

        def per_rank(a, b):
            o = {}
            for ra, st, x, y in wins:
                k = min(y, b) - max(x, a)
                if k > 0:
                    o[(ra, st)] = o.get((ra, st), 0) + k
            return o

        def ops(a, b):
            o = {k: 0 for k in set(OPSTAT.values())}
            for clk, op, _, _ in tr:
                if a <= clk < b:
                    o[OPSTAT[op]] += 1
            return o
        hists = {} if hmc else {"read_latency": H[c]["r"], "write_latency": H[c]["w"], "interarrival_latency": H[c]["i"]}
        block(j, str(c), ops(0, t["cycles"]), t["cycles"], per_rank(0, t["cycles"]), {"num_reads_done": t["reads"], "num_writes_done": t["writes"]} if not hmc else None, hists)
        # row hits: a read or write is a hit unless it is the first after the activation
        first, hit = {}, {"read": 0, "write": 0}
        for clk, op, ra, bank in tr:
            if op == "activate":
                first[(ra, bank)] = True
            elif op[:4] in ("read", "writ"):
                if not first.get((ra, bank), True):
                    hit["read" if op[0] == "r" else "write"] += 1
                first[(ra, bank)] = False
        cmp("num_read_row_hits", j.get("num_read_row_hits"), hit["read"], c)
        cmp("num_write_row_hits", j.get("num_write_row_hits"), hit["write"], c)
        dual = {}
        for clk, op, ra, bank in tr:
            dual[clk] = dual.get(clk, 0) + 1
        cmp("hbm_dual_cmds", j.get("hbm_dual_cmds"), sum(1 for v in dual.values() if v == 2), c)
        if not hmc:
            cmp("num_write_buf_hits", j.get("num_write_buf_hits"), t["forwarded"], c)
            for name in HIST:
                full = j.get(name) or {}
                cmp("histogram_" + name, 0, sum(abs(full.get(str(v), 0) - x) for v, x in hists[name].items()) + sum(x for v, x in full.items() if int(v) not in hists[name]), c)
            for k, h in (("average_read_latency", hists["read_latency"]), ("average_interarrival", hists["interarrival_latency"])):
                tot = sum(h.values())
                cmp(k, j.get(k), sum(v * x for v, x in h.items()) / tot if tot else 0, c)
        es = epochs.get(c, [])
        if lvl >= 1 and cyc >= period and len(es) != t["cycles"] // period:
            V.append(("stats-epochs", "channel %d: %d epochs reported in %d cycles, period %d" % (c, len(es), t["cycles"], period)))
        for i, e in enumerate(es):
            block(e, "%d epoch %d" % (c, i), ops(i * period, (i + 1) * period), period, per_rank(i * period, (i + 1) * period), None, {})
    return V, n


# ------------------------------------------------------------------ shared body of the DRAM checks
def dram_check(ck, prefixes, quick, thorough, cycles, hmc=False, focus=None, stats=False, key="requests"):
    """Runs random memory systems; violations whose kind starts with one of the prefixes (and crashes) count for this property."""
    exe = {"plain": build_dram("plain"), "san": build_dram("san")}
    root = os.path.join(BUILD, "dramrun", ck.prop)
    if os.path.isdir(root):
        rmtree(root)
    os.makedirs(root)
    n = thorough if ck.tier == "thorough" else quick
    deep = 3 if ck.tier == "thorough" else 1

    def one(k):
        rng = random.Random("%s %d %d" % (ck.prop, SEED, k))
        san = k % 10 == 9
        lines, desc, insts, r, d = run_dram(exe["san" if san else "plain"], rng, root, k, rng.choice([1, 1, 2]), (cycles // 4 if san else cycles * rng.choice([1, 1, deep])), hmc, focus)
        V = [(l.split(" ", 2)[1], l.split(" ", 2)[2]) for l in lines if l.startswith("V ")]
        c = {}
        for l in lines:
            if l.startswith("C "):
                c[l.split()[1]] = int(l.split()[2])
        ended = "E" in lines[-2:]
        if stats and ended and not r.rc:
            for ini, o in insts:
                vs, m = check_stats(ini, o, lines, hmc)
                V += vs
                c["statistics_compared"] = c.get("statistics_compared", 0) + m
        files = {"log": "\n".join(lines[:2000]) + "\n", "output": "\n" + r.out[-4000:], "what": "\n".join(desc) + "\n",
                 "how": "harness/dram/dram_main.cpp " + " ".join(r.cmd) + "\n"}
        for i, (ini, _) in enumerate(insts):
            files["c%d.ini" % i] = dump(ini)
        rmtree(d)
        return k, r, V, c, ended, desc, files
    for k, r, V, c, ended, desc, files in pmap(one, range(n)):
        for kind, text in V:
            if any(kind.startswith(p) for p in prefixes):
                ck.violation(kind, "%s (run %d: %s)" % (text, k, "; ".join(desc)), files)
            else:
                ck.count("other_reports")
        if r.timed_out:
            ck.violation("hang", "the memory system does not come to an end (run %d: %s)" % (k, "; ".join(desc)), files)
        elif r.rc or not ended:
            ck.violation("crash", "the memory system failed, exit code %s: %s (run %d: %s)" % (r.rc, " ".join(r.out[-500:].split())[:300], k, "; ".join(desc)), files)
        for x, v in c.items():
            (ck.peak if x.startswith("max_") else ck.count)(x, v)
        ck.case((k, tuple(desc)) if c.get(key) else None, "; ".join(desc)[:400])
