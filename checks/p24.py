"""P24: a simulation ends when every RAD is done, and its exit status tells of every failure."""
from xrad import *

FINISH = dict(min_nontrivial=30, need=("runs_ended", "rads_done_early", "failures_reported", "runs_without_failure", "transactions_after_a_rad_was_done", "events_before_the_end"))


def check(ck):
    ck.rule = ("random single RADs and clusters of 2-5 RADs whose drivers finish in different cycles (from before the first transaction to long after the last) and report no, one or several failures early, late or when done; "
               "the end compared with the drivers' own record, the exit status and the reported cycles with the truth, and the traffic of all RADs delivered although some are done; non-trivial: some RAD is done early or fails")
    ck.assumptions = ["as P14"]
    thorough = ck.tier == "thorough"

    def with_ends(g):
        def gen(rng, group, idx):
            sc = g(rng, group, idx)
            R = sc.rads()
            sc.ender = rng.randrange(R)
            span = rng.choice([5, 50, 500, 3000])
            for r in range(R):
                fails = []
                if rng.random() < (0.5 if R == 1 else 0.25):
                    fails = [rng.choice([0, 1, rng.randrange(span), 1 << 30]) for _ in range(rng.choice([1, 1, 2, 3, 256]))]
                sc.fins[r] = (-1 if r == sc.ender else rng.choice([0, 1, rng.randrange(span), rng.randrange(span)]), fails)
            if R > 1 and rng.random() < 0.25:  # one works on when the traffic is over
                r = rng.choice([x for x in range(R) if x != sc.ender])
                sc.fins[r] = (sc.maxcyc + rng.randrange(2000), sc.fins[r][1])
                sc.maxcyc += 4000
            return sc
        return gen

    def judge(i, sc, root, r):
        if abnormal(ck, sc, root, r):
            ck.case()
            return
        R = sc.rads()
        bad = []
        done = {int(e[1]): int(e[2]) for e in r.events if e[0] == "D"}
        failing = [x for x in range(R) if sc.fins[x][1]]
        if len(done) < R:
            bad.append(("ended_early", "the simulation ended before RAD %s was done" % sorted(set(range(R)) - set(done))))
        else:
            last = max(done.values())
            late = [e for e in r.events if e[0] in ("S", "R", "SAR", "SAW", "RR", "XO", "XI") and len(e) > 2 and e[2].isdigit() and e[0][0] != "X" and int(e[2]) > last + 1000]
            if late:
                bad.append(("ended_late", "all RADs are done at %d ps, but the simulation went on: %s" % (last, " ".join(late[-1])[:80])))
            m = re.findall(r"Simulation Cycles from main.cpp = (-?\d+)", r.out)
            p = round(sc.cfg["cluster"]["sim_driver_period"] * 1000)
            lo, hi = -(-last // p), -(-(last + 1000) // p)
            if len(m) != 1 or not lo <= int(m[0]) <= hi:
                bad.append(("cycles", "all RADs are done at %d ps, cycle %d of the driver, but the reported cycles are %s" % (last, lo, m)))
        want = 1 if failing else 0
        if (r.rc != 0) != bool(want):
            bad.append(("status", "RADs %s of %d reported a failure, and the exit status is %d" % (failing, R, r.rc)))
        b1, st = check_axis(sc, r.events)
        b2, st2 = check_aximm(sc, r.events)
        ck.count("runs_ended")
        ck.count("failures_reported" if failing else "runs_without_failure")
        first = min(done.values()) if done else 0
        ck.count("rads_done_early", sum(v < max(done.values()) for v in done.values()))
        ck.count("transactions_after_a_rad_was_done", sum(1 for e in r.events if e[0] == "R" and int(e[2]) > first))
        ck.count("events_before_the_end", len(r.events))
        for k, text in bad + b1 + b2:
            ck.violation(k, text, replay_files(sc, root, r))
        ck.case((i,) if failing or len(set(done.values())) > 1 else None, "run %d: %d RADs, done at %s, failures %s, exit status %d" % (i, R, sorted(done.values()), failing, r.rc))
    explore(ck, XRAD[:3] if thorough else XRAD[1:3], with_ends(gen_xrad), 900 if thorough else 120, judge, tag="p24x_")
    explore(ck, AXIS[:1], with_ends(gen_axis), 200 if thorough else 24, judge, tag="p24s_")
