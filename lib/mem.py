"""Memory controller runs: AXI-MM requesters wired to the channels of real memory controllers."""
from dram import *
from rad import *
from vt import crash_of


def word_bytes(ini):
    return geti(ini, "system", "bus_width", 64) * geti(ini, "dram_structure", "BL", 8) // 8


def usable(ini):
    tck = getf(ini, "timing", "tCK", 1.0)
    bl = geti(ini, "dram_structure", "BL", 8)
    return word_bytes(ini) * 8 <= 512 and bl > 0 and 2.0 * (bl * tck / 2.0) / tck == float(bl) and rank_mb(ini) > 0


def channel_words(ini):
    """Addressable words of one channel."""
    mb = geti(ini, "system", "channel_size", 1024)
    ranks = max(1, mb // rank_mb(ini))
    return ranks * rank_mb(ini) * 1024 * 1024 // word_bytes(ini)


def gen_mem(rng, i):
    """Configuration and scenario of one run."""
    ctrls, cfgd = [], dict(num_controllers=rng.choice([1, 1, 2, 3]), clk_periods=[], queue_sizes=[], config_files=[])
    paths = [p for p in shipped() if usable(load_ini(p))]
    lines, desc = [], []
    total = 0
    seed = rng.randrange(1 << 30)
    for c in range(cfgd["num_controllers"]):
        while True:
            ini, d = variant(rng, rng.choice(paths), dict(plain=.2))
            ch = geti(ini, "system", "channels", 1)
            if usable(ini) and ch <= 8 and ch & (ch - 1) == 0 and channel_words(ini) & (channel_words(ini) - 1) == 0:
                break
        wb, words = word_bytes(ini), channel_words(ini)
        period = geti(ini, "dram_structure", "BL", 8) * getf(ini, "timing", "tCK", 1.0) / 2.0
        q = rng.choice([18, 20, 24, 32, 64, 128])
        cfgd["clk_periods"].append(period)
        cfgd["queue_sizes"].append(q)
        cfgd["config_files"].append("var%d" % c)
        init = {}
        chans = []
        use_init = rng.random() < .35
        base_idx = rng.choice([0, 0, 3])
        for h in range(ch):
            if rng.random() < .2 and total:
                chans.append((dict(), []))
                continue
            hot = [rng.randrange(words) for _ in range(rng.choice([1, 4, 16]))]
            bit = rng.randrange(words)
            near = [bit] + [bit ^ (1 << b) for b in range(words.bit_length() - 1)]
            pools = [lambda: rng.choice(hot), lambda: rng.choice(near), lambda: rng.randrange(words), lambda: rng.randrange(64)]
            w = [rng.choice([0, 1, 4]) for _ in pools]
            if not any(w): w[0] = 1
            phases, beats = [], 0
            while beats < rng.choice([60, 200, 400]) and len(phases) < 12:
                mix = rng.choice([.0, .3, .5, .5, .7, 1.])
                ops = []
                for _ in range(rng.choice([1, 5, 20, 60])):
                    ln = rng.choice([0, 0, 0, 1, 3, 7, 15, rng.randrange(64), 0] + ([255] if rng.random() < .05 else []))
                    a = min(rng.choices(pools, w)[0](), words - 1 - ln)
                    ops.append(("W" if rng.random() < mix else "R", a * wb, ln))
                    beats += ln + 1
                phases.append(ops)
            total += beats
            opt = dict(gaw=rng.choice([0, 0, 60, 200]), gw=rng.choice([0, 0, 60, 200]), gar=rng.choice([0, 0, 60, 200]), stall=rng.choice([0, 0, 40, 120, 220]),
                       mode=rng.choice([1, 5, 40, 150]), wlead=rng.choice([0, 0, 1, 3]))
            if use_init:
                init[h] = {a: rng.getrandbits(wb * 8) for a in rng.sample(hot + near, min(6, len(hot) + len(near)))}
            chans.append((opt, phases))
        ctrls.append(dict(ini=ini, desc=d, chans=chans, words=words, wb=wb, init=init if use_init else None, base_idx=base_idx, period=period, q=q, ch=ch))
        desc.append("%s q=%d%s" % (d, q, " init" if use_init else ""))
    text = ["seed %d" % seed, "drain %d" % 300, "rst %d" % rng.choice([1, 2, 5])]
    for c, k in enumerate(ctrls):
        text.append("ctrl %d %r %s" % (c, k["period"], "init_%d_%d" % (c, k["base_idx"]) if k["init"] is not None else ""))
        for h, (opt, phases) in enumerate(k["chans"]):
            if not phases:
                continue
            text.append("chan %d %d %s" % (c, h, " ".join("%s=%d" % kv for kv in opt.items())))
            size = (k["wb"]).bit_length() - 1
            for ops in phases:
                text.append("phase %d %d" % (c, h))
                text += ["op %d %d %s %d %d %d" % (c, h, o, a, ln, size) for o, a, ln in ops]
    cfg = make_config(rads={"rad1": {"design": {"name": "memd", "noc_placement": ["memd.place"], "clk_periods": [5.0]}, "dram": cfgd}})
    # the slowest plausible memory: refresh and self-refresh included, 400 ns a beat
    text.append("maxcyc %d" % (20000 + int(total * 400 / 5.0 * 3)))
    return cfg, ctrls, "\n".join(text) + "\n", desc


def prepare_mem(tag, cfg, ctrls, text):
    d = os.path.join(BUILD, "run", tag)
    if os.path.isdir(d):
        rmtree(d)
    os.makedirs(d)
    root, r = configure(cfg, d, design="memd")
    if not config_ok(root, r):
        raise HarnessError("config.py failed on a valid configuration: " + r.out[-600:])
    os.unlink(os.path.join(root, "sim/dram"))
    os.makedirs(os.path.join(root, "sim/dram/DRAMsim3/configs"))
    os.makedirs(os.path.join(root, "logs"), exist_ok=True)
    for c, k in enumerate(ctrls):
        with open(os.path.join(root, "sim/dram/DRAMsim3/configs/var%d.ini" % c), "w") as f:
            f.write(dump(k["ini"]))
        for h in range(k["ch"]) if k["init"] is not None else ():
            with open(os.path.join(root, "init_%d_%d.dat" % (c, h + k["base_idx"])), "w") as f:
                for a, v in k["init"].get(h, {}).items():
                    f.write("%d %s\n" % (a * k["wb"], "0b0" + bin(v)[2:]))
    with open(os.path.join(root, "scenario.txt"), "w") as f:
        f.write(text)
    return root


def run_mem(root, exe, timeout=200):
    e = base_env(MEMD_SCENARIO="scenario.txt", MEMD_LOG="events.log")
    r = run([exe], cwd=root, env=e, timeout=timeout, outfile=os.path.join(root, "stdout.log"))
    p = os.path.join(root, "events.log")
    r.events = [l.split() for l in open(p) if l.endswith("\n")] if os.path.exists(p) else []
    return r


def judge_mem(ctrls, events):
    """Memory semantics per channel. Returns (problems, counts)."""
    bad, n = [], dict(bursts_written=0, beats_read=0, reads_of_written=0, concurrent=0, held=0, overwritten=0)
    per = {}
    end = None
    for e in events:
        if e[0] == "E": end = e
        elif e[0] == "C":
            c, k = int(e[1]), ctrls[int(e[1])]
            if (int(e[2]), int(e[4])) != (k["ch"], k["wb"]):
                bad.append(("geometry", "controller %d says %s channels of %s-byte words, configured %d of %d (%s)" % (c, e[2], e[4], k["ch"], k["wb"], k["desc"])))
            want = k["ch"] * k["words"] * k["wb"] // (1 << 20)
            if int(e[3]) != want:
                bad.append(("capacity", "controller %d says %s MB, configured %d (%s)" % (c, e[3], want, k["desc"])))
        elif e[0] == "V": bad.append(("handshake-%s-%s" % (e[4], e[5]), "controller %s channel %s: an offered %s transfer changed before it was taken, at %s ps" % (e[1], e[2], e[4], e[3])))
        elif e[0] == "H": n["held"] += 1
        else: per.setdefault((int(e[1]), int(e[2])), []).append(e)
    done = end and end[2] == "done"
    for (c, h), ev in sorted(per.items()):
        k = ctrls[c]
        where = "controller %d channel %d (%s)" % (c, h, k["desc"])
        aw, w, ar, rs, bs = ([e for e in ev if e[0] == x] for x in ("AW", "W", "AR", "R", "B"))
        # writes: burst i of AW takes the next len+1 data beats; they are performed in this order
        writes, wi = {}, 0     # word -> [(start, end, data)]
        order = []
        for i, e in enumerate(aw):
            t, a, ln = int(e[3]), int(e[5], 16) // k["wb"], int(e[6])
            beats = w[wi:wi + ln + 1]
            wi += ln + 1
            fin = int(bs[i][3]) if i < len(bs) else None
            for j, x in enumerate(beats):
                writes.setdefault(a + j, []).append((max(t, int(x[3])), fin, int(x[6], 16)))
            if i < len(bs):
                if bs[i][4] != e[4]:
                    bad.append(("b-user", "%s: write response %d has user %s, the burst had %s" % (where, i, bs[i][4], e[4])))
                if len(beats) <= ln or int(bs[i][3]) < int(beats[-1][3]) or int(bs[i][3]) < t:
                    bad.append(("b-early", "%s: write %d acknowledged at %s before it was complete" % (where, i, bs[i][3])))
                n["bursts_written"] += 1
        if len(bs) > len(aw) or (done and len(bs) != len(aw)) :
            bad.append(("b-count", "%s: %d write bursts, %d responses" % (where, len(aw), len(bs))))
        beats = [(e, j, int(e[5], 16) // k["wb"] + j) for e in ar for j in range(int(e[6]) + 1)]
        if len(rs) > len(beats):
            bad.append(("r-count", "%s: %d read beats asked for, %d returned" % (where, len(beats), len(rs))))
        seen = {}
        for (e, j, word), x in zip(beats, rs):
            t0, t1 = int(e[3]), int(x[3])
            n["beats_read"] += 1
            if x[4] != e[4]:
                bad.append(("r-user", "%s: read beat has user %s, expected %s (beat %d of the read of %s)" % (where, x[4], e[4], j, e[5])))
                break
            if (x[5] == "1") != (j == int(e[6])):
                bad.append(("r-last", "%s: last=%s on beat %d of %d" % (where, x[5], j, int(e[6]) + 1)))
            if t1 < t0:
                bad.append(("r-early", "%s: read answered at %d, asked at %d" % (where, t1, t0)))
            data = int(x[6], 16)
            ws = writes.get(word, [])
            init = (k["init"] or {}).get(h, {}).get(word, 0)
            cand = ([-1] if data == init else []) + [i for i, y in enumerate(ws) if y[2] == data]
            lo = max([-1] + [i for i, y in enumerate(ws) if y[1] is not None and y[1] <= t0])   # complete before the read was asked for
            hi = max([-1] + [i for i, y in enumerate(ws) if y[0] <= t1])                        # begun before it was answered
            lo2 = max([lo] + [s for (tt, s) in seen.get(word, []) if tt <= t0])                 # an earlier read already saw it
            ok = [i for i in cand if lo2 <= i <= hi]
            if ws: n["reads_of_written"] += 1
            if hi > lo: n["concurrent"] += 1
            if lo > 0: n["overwritten"] += 1
            if not ok:
                what = "r-phantom" if not cand else "r-stale" if max(cand) < lo2 else "r-future"
                bad.append((what, "%s: read of word %#x at %d..%d returned %x; %d writes of it, allowed are %d..%d, the value is that of %s" % (where, word, t0, t1, data, len(ws), lo2, hi, cand)))
                break
            seen.setdefault(word, []).append((t1, min(ok)))
        if done and len(rs) != len(beats):
            bad.append(("r-count", "%s: %d read beats asked for, %d returned" % (where, len(beats), len(rs))))
    if end and not done and not bad:
        bad.append(("stuck", "requests were never answered: %s" % {ch: "%d AW %d W %d B, %d AR %d R" % tuple(sum(1 for e in ev if e[0] == x) for x in ("AW", "W", "B", "AR", "R")) for ch, ev in per.items()}))
    return bad, n
