"""P15: the inter-RAD network has the configured latency, bandwidth and slots."""
from xrad import *

FINISH = dict(min_nontrivial=40, need=("crossed", "dropped", "held_back", "queued_behind", "full_windows"))


def check(ck):
    ck.rule = ("random clusters of 2-5 RADs whose modules saturate the portals, with random latency, bandwidth fraction and slots, watched cycle by cycle where portals meet the inter-RAD network; "
               "non-trivial: a RAD was held back, transfers queued behind others for one destination, or slots ran out")
    ck.assumptions = ["the portal runs at the driver's clock period"]
    thorough = ck.tier == "thorough"

    def judge(i, sc, root, r):
        if abnormal(ck, sc, root, r):
            ck.case()
            return
        bad, n = check_inter(sc, r.events, open(os.path.join(root, "stdout.log"), errors="replace").read())
        for k, text in bad:
            ck.violation(k, text, replay_files(sc, root, r))
        for k, v in n.items():
            ck.count(k, v)
        ck.case((i,) if n["full_windows"] and (n["held_back"] or n["queued_behind"] or n["dropped"]) else None,
                "cluster %d: %d RADs, latency %d cycles, bandwidth %s, %d slots, driver period %s: %s" % (i, sc.rads(), sc.lat, sc.frac, sc.slots, sc.cfg["cluster"]["sim_driver_period"], n))
    explore(ck, XRAD, lambda rng, g, i: gen_xrad(rng, g, i, stress=rng.random() < 0.8), 2500 if thorough else 200, judge, tag="p15_")
