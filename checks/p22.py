"""P22: no valid simulation does anything undefined."""
from ex import *
from mnoc import *
from xrad import *
from telem import *
import p19

FINISH = dict(min_nontrivial=40, need=("simulations_of_several_nocs", "simulations_of_several_rads", "simulations_of_examples", "events", "clean_ends"))


def check(ck):
    ck.rule = ("the simulator and the example designs compiled with AddressSanitizer and UndefinedBehaviorSanitizer on random systems (several NoCs, several RADs, all knobs, statistics, flows, traces and logs written, everything destroyed at the end) "
               "and random models; any report, signal, assertion or abnormal exit counts; non-trivial: over 50 port events or a whole model")
    ck.assumptions = ["SystemC itself is not instrumented", "leaks are not errors"]
    thorough = ck.tier == "thorough"

    def traced(g):
        def gen(rng, group, idx):
            sc = g(rng, group, idx)
            sc.cfg["cluster"].update(telemetry_log_verbosity=rng.randrange(5), telemetry_traces=["tr%d" % i for i in range(rng.choice([0, 2]))])
            return sc
        return gen

    def judge_as(what):
        def judge(i, sc, root, r):
            if abnormal(ck, sc, root, r):
                ck.case()
                return
            if r.rc:
                ck.violation("exit", "a valid simulation ended with status %s: %s" % (r.rc, r.out[-300:]), replay_files(sc, root, r))
            else:
                ck.count("clean_ends")
            ck.count(what)
            ck.count("events", len(r.events))
            ck.case((what, i) if len(r.events) > 50 else None, "%s %d: %d events" % (what, i, len(r.events)))
        return judge

    def example(job):
        d, i = job
        rng = random.Random("p22 %s %d %d" % (d.name, SEED, i))
        cfg, m = d.gen(rng, i)
        cfg.setdefault("cluster", {}).update(telemetry_log_verbosity=rng.randrange(5))
        root, dd = stage("p22_%s_%d" % (d.name, i), d.name, cfg)
        if d.gfile:
            r = d.compile(dd, m, rng.randrange(1 << 30), rng)
            if r.rc:
                ck.violation("compiler", "%s: the compiler failed on %s: %s" % (d.name, m, r.out[-300:]))
                return
        r = simulate(root, exes[d.name], timeout=600)
        c = crash_of(r)
        if c or r.timed_out:
            ck.violation("abort:" + re.sub(r"0x[0-9a-f]+|\d+", "#", str(c))[:80], "%s %d %s: %s%s" % (d.name, i, m, c, " did not end" if r.timed_out else ""),
                         {"config.yml": os.path.join(dd, "config.yml"), "output.txt": "\n" + r.out[-20000:]})
        else:
            ck.count("clean_ends")
            rmtree(os.path.dirname(root))
        ck.count("simulations_of_examples")
        ck.case((d.name, i), "%s %s" % (d.name, m))
    designs = [(p19.Mlp(), 40 if thorough else 6)] + ([(p19.Dlrm(), 30), (p19.DlrmTwo(), 20), (p19.MlpInt8(), 10), (p19.Numbers("add"), 5), (p19.Numbers("mult"), 5)] if thorough else [])

    def build(d):
        root, dd = stage("p22_b_" + d.name, d.name)
        return build_binary(root, "san", design=d.name, jobs=6, extra_flags="-U_FORTIFY_SOURCE")
    exes = {}
    groups = [(MNOC[:1], gen_mnoc, "n"), (XRAD[:1], gen_xrad, "x")]
    work = [lambda d=d: exes.__setitem__(d.name, build(d)) for d, _ in designs] + [lambda g=g: build_groups(g[0], traced(g[1]), "san", "build_" + g[2]) for g in groups]
    pmap(lambda f: f(), work, 3)
    pmap(example, [(d, i) for d, n in designs for i in range(n)])
    explore(ck, MNOC if thorough else MNOC[:1], traced(gen_mnoc), 900 if thorough else 64, judge_as("simulations_of_several_nocs"), flavor="san", tag="p22n_", stats=True)
    explore(ck, XRAD if thorough else XRAD[:1], traced(gen_xrad), 900 if thorough else 48, judge_as("simulations_of_several_rads"), flavor="san", tag="p22x_", stats=True)
