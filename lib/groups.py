"""Define groups: sets of traffic scenarios that share one compiled simulator."""
from vt import *

AXIS = [
    dict(ks=[3, 4], payload=166, types=5, axis_w=512, tuser=75, pkts=300),
    dict(ks=[5], payload=32, types=3, axis_w=128, tuser=32, pkts=300),
    dict(ks=[2], payload=80, types=5, axis_w=1024, tuser=40, pkts=150),
    dict(ks=[6, 7], payload=600, types=4, axis_w=256, tuser=75, pkts=300),
    dict(ks=[3, 4], payload=97, types=1, axis_w=64, tuser=32, pkts=300),
]

AXIMM = [
    dict(ks=[3, 4], payload=166, mm_w=[512]),
    dict(ks=[5], payload=82, mm_w=[512]),
    dict(ks=[2], payload=600, mm_w=[512]),
    dict(ks=[3, 4], payload=61, mm_w=[64], max_w=64, uw=70, idw=3),
    dict(ks=[4], payload=300, mm_w=[1024, 256], max_w=1024, uw=100, idw=12),
]


def build_groups(groups, gen, flavor="plain", tag="build"):
    """Build the simulators of several define groups side by side."""
    def one(g):
        i, grp = g
        sc = gen(random.Random("%d/%d/build" % (SEED, i)), grp, 0)
        root = prepare(sc, "%s%d" % (tag, i))
        return build_binary(root, flavor, jobs=max(2, JOBS * 2 // max(1, len(groups))))
    return pmap(one, list(enumerate(groups)))


def explore(ck, groups, gen, n, judge, flavor="plain", tag="r", timeout=120, stats=False, keep=False):
    """Generate n scenarios over the groups, run each and hand it to judge(i, sc, root, result)."""
    exes = build_groups(groups, gen, flavor)
    t0 = time.time()
    hung = []

    def one(i):
        grp = groups[i % len(groups)]
        sc = gen(random.Random("%d/%s/%d" % (SEED, tag, i)), grp, i)
        root = prepare(sc, "%s%d" % (tag, i))
        exe = build_binary(root, flavor)
        if (ck.viol or hung) and time.time() - t0 > 150:
            return None
        r = execute(root, exe, timeout=timeout if not hung else timeout / 4, stats=stats)
        if r.timed_out and not hung:  # a loaded machine or a hang: once more, with more time
            r = execute(root, exe, timeout=2 * timeout, stats=stats)
            if r.timed_out:
                hung.append(i)
        return i, sc, root, r
    for c in range(0, n, 64):
        if time.time() - t0 > 420:  # keep a heavily loaded machine inside the time limit
            ck.inconclusive.append("stopped after %d of %d scenarios" % (c, n))
            break
        if ck.viol and time.time() - t0 > 100:
            break
        for x in pmap(one, range(c, min(n, c + 64))):
            if x is None:
                continue
            i, sc, root, r = x
            nv = len(ck.viol)
            judge(i, sc, root, r)
            if not keep and len(ck.viol) == nv:
                rmtree(os.path.dirname(root))
    return exes


def replay_files(sc, root, r):
    return {"scenario.txt": os.path.join(root, "scenario.txt"), "events.log": os.path.join(root, "events.log"),
            "config.yml": os.path.join(root, "example-designs/vt/config.yml"),
            **{n: os.path.join(root, "example-designs/vt", n) for rad in range(sc.rads()) for n in ("vt%d.place" % rad, "vt%d.clks" % rad)}, "output.txt": r.out[-20000:],
            "how.txt": "built from rad-sim with design vt (harness/vt); run `system` in the configured tree with VT_SCENARIO=scenario.txt VT_LOG=events.log\n"}


def abnormal(ck, sc, root, r, what=""):
    """Report an abnormal end of a simulation. True if there was one."""
    c = crash_of(r)
    if c and c[0] == "harness":
        raise HarnessError(c[1])
    if c:
        ck.violation("abort:" + re.sub(r"0x[0-9a-f]+|\d+", "#", c[1])[:80],
                     "the simulation of a valid traffic scenario ended abnormally: %s %s" % c, replay_files(sc, root, r))
        return True
    if r.timed_out:
        ck.violation("hang", "the simulation never finished (no progress of simulated time within %d s)" % r.wall, replay_files(sc, root, r))
        return True
    if not any(e[0] == "E" for e in r.events):
        ck.violation("noend", "the simulation ended (exit code %d) before the driver finished: %s" % (r.rc, r.out[-300:]), replay_files(sc, root, r))
        return True
    return False
