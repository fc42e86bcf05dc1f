"""Workloads for the direct BookSim network harness (harness/bs/bs_main.cpp)."""
import random
from common import *
from cxx import build_booksim

TYPES = ["read_request", "write_request", "write_data", "read_reply", "write_reply"]
# topology, routing function, parameters, VCs needed per packet type
TOPO = [
    ("mesh", "dim_order", dict(n=2, k=[2, 3, 4, 5, 8]), 1),
    ("mesh", "dim_order", dict(n=1, k=[4, 7]), 1),
    ("mesh", "dim_order", dict(n=3, k=[2, 3]), 1),
    ("mesh", "dor", dict(n=2, k=[3, 4]), 1),
    ("mesh", "dim_order_ni", dict(n=2, k=[2, 3]), 9),
    ("mesh", "dim_order_pni", dict(n=2, k=[3, 4]), 4),
    ("mesh", "xy_yx", dict(n=2, k=[2, 3, 4, 5]), 2),
    ("mesh", "adaptive_xy_yx", dict(n=2, k=[3, 4, 5]), 2),
    ("mesh", "romm", dict(n=2, k=[3, 4]), 2),
    ("mesh", "romm_ni", dict(n=2, k=[2, 3]), 18),
    ("mesh", "valiant", dict(n=2, k=[3, 4, 5]), 2),
    ("mesh", "min_adapt", dict(n=2, k=[3, 4, 5]), 2),
    ("mesh", "planar_adapt", dict(n=2, k=[3, 4]), 3),
    ("torus", "dim_order", dict(n=2, k=[3, 4, 5]), 2),
    ("torus", "dim_order", dict(n=1, k=[4, 5]), 2),
    ("torus", "dim_order_ni", dict(n=2, k=[3]), 18),
    ("torus", "dim_order_bal", dict(n=2, k=[3, 4, 5]), 2),
    ("torus", "min_adapt", dict(n=2, k=[3, 4, 5]), 4),
    ("torus", "valiant", dict(n=2, k=[3, 4, 5]), 4),
    ("torus", "valiant_ni", dict(n=2, k=[3]), 36),
    ("cmesh", "dor_no_express", dict(n=2, k=[2, 3, 4], c=4, x=8, y=8, xr=2, yr=2), 1),
    ("cmesh", "dor", dict(n=2, k=[2, 4], c=4, x=8, y=8, xr=2, yr=2), 1),
    ("cmesh", "xy_yx_no_express", dict(n=2, k=[2, 4], c=4, x=8, y=8, xr=2, yr=2), 2),
    ("cmesh", "xy_yx", dict(n=2, k=[2, 4], c=4, x=8, y=8, xr=2, yr=2), 2),
    ("fly", "dest_tag", dict(n=2, k=[2, 3, 4]), 1),
    ("fly", "dest_tag", dict(n=3, k=[2]), 1),
    ("qtree", "nca", dict(n=3, k=[4]), 1),
    ("tree4", "nca", dict(n=3, k=[4]), 1),
    ("tree4", "anca", dict(n=3, k=[4]), 1),
    ("fattree", "nca", dict(n=2, k=[2, 3, 4]), 1),
    ("fattree", "anca", dict(n=3, k=[2, 3]), 1),
    ("flatfly", "ran_min", dict(n=2, k=[2, 3, 4], c=4, x=4, y=4, xr=2, yr=2), 1),
    ("flatfly", "xyyx", dict(n=2, k=[4], c=4, x=4, y=4, xr=2, yr=2), 2),
    ("flatfly", "adaptive_xyyx", dict(n=2, k=[4], c=4, x=4, y=4, xr=2, yr=2), 2),
    ("flatfly", "valiant", dict(n=2, k=[4], c=4, x=4, y=4, xr=2, yr=2), 2),
    ("flatfly", "ugal", dict(n=2, k=[4], c=4, x=4, y=4, xr=2, yr=2), 2),
    ("flatfly", "ugal_pni", dict(n=2, k=[4], c=4, x=4, y=4, xr=2, yr=2), 8),
    ("flatfly", "ugal_xyyx", dict(n=2, k=[4], c=4, x=4, y=4, xr=2, yr=2), 4),
]
ALLOC = ["islip", "separable_input_first", "separable_output_first", "wavefront", "pim", "loa", "select", "max_size"]
# further router options (BookSim defaults otherwise)
EXTRA = [dict(hold_switch_for_packet=1), dict(input_speedup=2), dict(output_speedup=2), dict(vct=1), dict(vc_busy_when_full=1),
         dict(vc_prioritize_empty=1, vc_shuffle_requests=1, vc_priority_donation=1), dict(st_prepare_delay=1, st_final_delay=2), dict(output_delay=2),
         dict(speculative=1, vc_alloc_delay=1, sw_alloc_delay=1), dict(speculative=1, vc_alloc_delay=1, sw_alloc_delay=1, spec_sw_allocator="islip", spec_mask_by_reqs=1),
         dict(speculative=1, vc_alloc_delay=1, sw_alloc_delay=1, spec_sw_allocator="separable_input_first", spec_check_cred=0), dict(internal_speedup=2.0, vc_alloc_delay=1, sw_alloc_delay=1),
         dict(priority="queue_length"), dict(priority="hop_count")]
# one route (and hence one VC sequence) per source, destination and VC
DETERMINISTIC = {("mesh", "dim_order"), ("mesh", "dor"), ("cmesh", "dor_no_express"), ("cmesh", "dor"), ("fly", "dest_tag"), ("qtree", "nca")}


def nodes(topo, p):
    k, n = p["k"], p["n"]
    return p["c"] * k ** n if topo in ("cmesh", "flatfly") else k ** n


def pick(rng, entry):
    topo, rf, par, per = entry
    p = {k: (rng.choice(v) if isinstance(v, list) else v) for k, v in par.items()}
    if topo == "flatfly":
        p["x"] = p["y"] = p["k"]
    return topo, rf, p, per


def make_cfg(rng, topo, rf, p, per, types, **over):
    cfg = dict(p, topology=topo, routing_function=rf, num_vcs=types * per, vc_buf_size=rng.choice([1, 2, 4, 8]),
               output_buffer_size=rng.choice([-1, 1, 2, 8]), router="iq", vc_allocator=rng.choice(ALLOC), sw_allocator=rng.choice(ALLOC),
               alloc_iters=rng.choice([1, 1, 2]), wait_for_tail_credit=rng.choice([0, 0, 1]), credit_delay=rng.choice([0, 1, 2, 5]),
               routing_delay=rng.choice([0, 1, 2, 3]), vc_alloc_delay=rng.choice([1, 1, 2]), sw_alloc_delay=rng.choice([1, 1, 2]),
               arb_type=rng.choice(["round_robin", "matrix"]))
    if cfg["num_vcs"] > 20:  # slow allocators at this size
        cfg["vc_allocator"], cfg["sw_allocator"] = rng.choice(ALLOC[:3]), rng.choice(ALLOC[:3])
    for t in range(types):
        cfg[TYPES[t] + "_begin_vc"] = t * per
        cfg[TYPES[t] + "_end_vc"] = t * per + per - 1
    cfg.update(over)
    return cfg


def gen(i, n=None):
    """Random network and workload number i."""
    rng = random.Random(i * 7919 + SEED * 1000003)
    topo, rf, p, per = pick(rng, TOPO[i % len(TOPO)])
    types = rng.choice([1, 2, 3, 5])
    if per > 30:
        types = rng.choice([1, 2])
    elif rng.random() < .5:
        per *= rng.choice([1, 2])
    cfg = make_cfg(rng, topo, rf, p, per, types)
    cfg.update(rng.choice(EXTRA) if rng.random() < .4 else {})
    N = nodes(topo, p)
    pk = []
    n = n or rng.choice([20, 100, 300])
    if per > 30:
        n = min(n, 60)
    rate = rng.choice([0, 1, 5, 30])
    hot = rng.random() < .3
    t = 0
    for j in range(n):
        t += rng.randint(0, rate) if rng.random() < .5 else 0
        pk.append((j + 1, rng.randrange(N), 0 if hot and rng.random() < .7 else rng.randrange(N), rng.randrange(types),
                   rng.choice([1, 1, 2, 3, 5, 9]), t, rng.randrange(8)))
    opt = dict(seed=i + 1, types=types, maxcyc=2000000, drain=300, stall=rng.choice([0, 0, 60, 180]), mode=rng.choice([1, 5, 40]), quiesce=1,
               inorder=0, scale=rng.choice([1, 1000, 571]), base=rng.choice([0, 0, 2147400000]))
    if hot and opt["stall"] > 60:
        opt["mode"] = min(opt["mode"], 5)   # (one slow node taking most flits needs too many cycles of a slow allocator otherwise)
    if (topo, rf) in DETERMINISTIC and per == 1:
        opt["inorder"] = 1
    return cfg, opt, pk


class Run:
    def __init__(self, r, lines):
        self.r = r
        self.lines = lines

    def of(self, k):
        return [l for l in self.lines if l[0] == k]

    @property
    def packets(self):
        out = []
        for l in self.of("K"):
            v = [int(x) for x in l[1:]]
            out.append(dict(zip("id src dst type n t hinj inj head tail hops recv evc".split(), v)))
        return out


def run_bs(exe, cfg, opt, pk, tag, timeout=120, keep=False):
    d = os.path.join(BUILD, "bsrun", tag)
    os.makedirs(d, exist_ok=True)
    with open(d + "/cfg", "w") as f:
        f.write("".join("%s = %s;\n" % kv for kv in cfg.items()))
    with open(d + "/wl", "w") as f:
        f.write("".join("opt %s %d\n" % kv for kv in opt.items()) + "".join("pkt %d %d %d %d %d %d %d\n" % p for p in pk))
    if os.path.exists(d + "/log"):
        os.unlink(d + "/log")
    r = run([exe, "cfg", "wl", "log"], cwd=d, timeout=timeout)
    if r.timed_out:
        r = run([exe, "cfg", "wl", "log"], cwd=d, timeout=timeout * 3)
    lines = [l.split() for l in open(d + "/log")] if os.path.exists(d + "/log") else []
    res = Run(r, lines)
    res.dir = d
    return res


def files(cfg, opt, pk, res):
    return {"cfg": os.path.join(res.dir, "cfg"), "wl": os.path.join(res.dir, "wl"), "log": os.path.join(res.dir, "log"), "output": "\n" + res.r.out[-4000:]}


def crashed(ck, name, cfg, opt, pk, res):
    """Report a run that did not come to a regular end."""
    if res.r.timed_out:
        ck.violation("%s-hang" % name, "the network simulation does not come to an end", files(cfg, opt, pk, res))
        return True
    if res.r.rc not in (0, 1) or not res.of("E") or "Sanitizer" in res.r.out or "runtime error" in res.r.out:
        ck.violation("%s-crash" % name, "the network simulation failed (exit code %s): %s" % (res.r.rc, res.r.out[-300:]), files(cfg, opt, pk, res))
        return True
    return False
