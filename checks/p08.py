"""P08: the memory controller is memory."""
from mem import *

FINISH = dict(min_nontrivial=30, need=("bursts_written", "beats_read", "reads_of_written", "concurrent", "overwritten", "held"))


def check(ck):
    ck.rule = ("random memory controllers (1-3 per RAD, DRAM configuration variants, queue sizes, initial contents) with an independent scripted requester on every channel: "
               "phases of overlapping read and write bursts (length 1-256) over hot, neighbouring, sequential and random addresses, gaps and stalls on every AXI channel, data ahead of addresses; "
               "non-trivial: reads of words that were written, some of them overwritten or concurrently written")
    ck.assumptions = ["beats of the memory's word size", "addresses within the channel", "controller clock matches the memory clock as the controller demands", "queue sizes above 16"]
    n = 1600 if ck.tier == "thorough" else 256

    def one(i):
        rng = random.Random("%d/p08/%d" % (SEED, i))
        cfg, ctrls, text, desc = gen_mem(rng, i)
        root = prepare_mem("p08_%d" % i, cfg, ctrls, text)
        exe = build_binary(root, "san" if (i % 4 == 0 or ck.tier == "thorough") else "plain", design="memd", overlay=os.path.join(VERIF, "harness/memd"))
        r = run_mem(root, exe)
        if r.timed_out:
            r = run_mem(root, exe, 400)
        return i, ctrls, desc, root, r
    pmap(one, [0, 1])  # build both simulators
    for c in range(0, n, 64):
        if time.time() - ck.t0 > 500:
            ck.inconclusive.append("stopped after %d of %d runs" % (c, n))
            break
        if ck.viol and time.time() - ck.t0 > 100:
            break
        for i, ctrls, desc, root, r in pmap(one, range(c, min(n, c + 64))):
            files = {"scenario.txt": os.path.join(root, "scenario.txt"), "events.log": os.path.join(root, "events.log"), "output.txt": r.out[-20000:],
                     "configs": os.path.join(root, "sim/dram/DRAMsim3/configs"), "knobs": os.path.join(root, "sim/radsim_knobs")}
            cr = crash_of(r)
            if cr and cr[0] == "harness":
                raise HarnessError(cr[1])
            if cr or r.timed_out or not any(e[0] == "E" for e in r.events):
                ck.violation("abort:" + re.sub(r"0x[0-9a-f]+|\d+", "#", str(cr))[:80], "the simulation of valid memory traffic ended abnormally (run %d: %s): %s rc %s %s" % (
                    i, "; ".join(desc), cr, r.rc, r.out[-200:]), files)
                ck.case()
                continue
            bad, k = judge_mem(ctrls, r.events)
            for key, t in bad:
                ck.violation(key, "%s (run %d)" % (t, i), files)
            for key, v in k.items():
                ck.count(key, v)
            ck.case((i,) if k["reads_of_written"] and (k["overwritten"] or k["concurrent"]) else None, "run %d: %s; %s" % (i, "; ".join(desc)[:200], k))
            if not bad:
                rmtree(os.path.dirname(root))
