"""P19: the example designs compute what their models mean, and their drivers say so truthfully."""
from ex import *

FINISH = dict(min_nontrivial=16, need=("golden_rows_compared", "corrupted_goldens_refused", "runs_passed", "designs"))
FLAGS = "-O1 -U_FORTIFY_SOURCE"
ALLOC = ["islip", "separable_input_first", "separable_output_first", "wavefront", "pim", "loa", "select"]


def noc_knobs(rng, vc_min, nodes=False):
    c = dict(noc=dict(clk_period=[rng.choice([0.5, 0.8, 1.0, 2.0])], vc_buffer_size=[rng.choice([b for b in (5, 8, 16) if b >= vc_min])], output_buffer_size=[rng.choice([1, 4, 8])],
                      vc_allocator=[rng.choice(ALLOC)], sw_allocator=[rng.choice(ALLOC)], credit_delay=[rng.choice([0, 1, 2])], routing_delay=[rng.choice([0, 1, 2])],
                      vc_alloc_delay=[rng.choice([1, 1, 2])], sw_alloc_delay=[rng.choice([1, 1, 2])]),
             noc_adapters=dict(clk_period=[rng.choice([0.8, 1.25, 2.0])], fifo_size=[rng.choice([16, 32])], obuff_size=[rng.choice([1, 2, 4])]))
    return c


class Mlp:
    name, native, bits, last_over_first, extra = "mlp", 16, 32, True, 1

    def gen(self, rng, i):
        while True:
            L = rng.randint(1, 4)
            mv = [rng.randint(1, 5) for _ in range(L)]
            if sum(mv) + mv[0] + self.extra <= 16:
                break
        # sizes around multiples of the native width as well as anything else
        def size():
            return rng.choice([rng.randint(1, self.top), max(1, self.native * rng.randint(1, self.top // self.native) + rng.choice([-1, 0, 0, 1]))])
        self_ = dict(ins=size(), dims=[size() for _ in range(L)], mvms=mv)
        cfg = noc_knobs(rng, self.vc_min)
        P = rng.choice([2.0, 3.0, 5.0, 7.0])
        cfg["cluster"] = dict(sim_driver_period=P, telemetry_traces=[])
        cfg["config rad1"] = dict(design=dict(name=self.name, noc_placement=["mlp.place"], clk_periods=[P]))
        return cfg, self_

    top, vc_min = 200, 5

    def compile(self, dd, m, seed, rng):
        return compile_(dd, "gen_testcase.py", [len(m["dims"]), m["ins"]] + m["dims"] + m["mvms"], seed)

    def golden(self, dd, m):
        return mlp_golden(dd, m["ins"], m["dims"], m["mvms"], self.native, self.bits, self.last_over_first)

    gfile, header = "compiler/golden_outputs.mif", 0


class MlpInt8(Mlp):
    name, native, bits, last_over_first, extra, top, vc_min = "mlp_int8", 64, 8, False, 3, 300, 8

    def gen(self, rng, i):
        cfg, m = Mlp.gen(self, rng, i)
        m["split"] = rng.choice(["SystemC", "RTL", "mixed"])
        return cfg, m

    def compile(self, dd, m, seed, rng):
        r = Mlp.compile(self, dd, m, seed, rng)
        p = os.path.join(dd, "compiler/layer_mvm_config")
        if not r.rc and os.path.exists(p):  # which units are SystemC and which RTL
            t = open(p).read()
            how = {"SystemC": lambda s: (s, 0), "RTL": lambda s: (0, s), "mixed": lambda s: (lambda k: (k, s - k))(rng.randint(0, s))}[m["split"]]
            t = re.sub(r"(\d+),(\d+)", lambda g: "%d,%d" % how(int(g.group(1)) + int(g.group(2))), t)
            open(p, "w").write(t)
        return r


class Dlrm:
    name, native, bits, gfile, header = "dlrm", 32, 16, "compiler/mlp.out", 1
    rads = 1

    def gen(self, rng, i):
        t, e = [], rng.choice([50, 100, 1000, 100000, 1000000])
        for g in range(rng.choice([1, 2, 3, 5])):
            k = rng.choice(["4", "8", "16", "32", "mix"])
            for v in rng.choice([[16, 8, 8], [8, 8, 16], [4, 4, 8, 16], [16, 16], [16, 8, 4, 4]]) if k == "mix" else [int(k)] * (32 // int(k)):
                t.append((v, e))
                e = max(10, e - rng.choice([0, 0, 1, e // 3]))
        cfg = noc_knobs(rng, 8)
        mvm = rng.choice([1.5, 2.0, 3.0, 5.0])
        for r in ("config rad1", "config anotherconfig")[:self.rads]:
            cfg[r] = dict(design=dict(name=self.name, noc_placement=[self.name + ".place"], clk_periods=[5.0, 2.0, 3.32, mvm]))
        return cfg, dict(tables=t, n=rng.choice([1, 2, 5, 12]), shuffle=rng.random() < 0.6)

    def compile(self, dd, m, seed, rng):
        open(os.path.join(dd, "compiler/t.csv"), "w").write("#\n" + "".join("%d,%d\n" % x for x in m["tables"]))
        if m["shuffle"]:  # the same modules on other nodes
            p = os.path.join(dd, self.name + ".place")
            L = [l.split() for l in open(p) if l.strip()]
            used = sorted({l[2] for l in L})
            to = dict(zip(used, rng.sample([str(k) for k in range(100)], len(used))))
            open(p, "w").write("\n".join(" ".join([l[0], l[1], to[l[2]]] + l[3:]) for l in L))
        return compile_(dd, "dlrm.py", ["-n", m["n"], "-m", "t.csv"], seed)

    def golden(self, dd, m):
        return dlrm_golden(dd, m["tables"], [1024, 512, 256], [4, 2, 2], 32, 18)


class DlrmTwo(Dlrm):
    name, rads = "dlrm_two_rad", 2


class Numbers:
    """add and mult: no data files, the driver draws the numbers itself."""
    gfile = None

    def __init__(self, name):
        self.name = name

    def gen(self, rng, i):
        cfg = noc_knobs(rng, 8)
        P = rng.choice([2.0, 3.0, 5.0, 7.0])
        cfg["cluster"] = dict(sim_driver_period=P, telemetry_traces=[])
        cfg["config rad1"] = dict(design=dict(name=self.name, noc_placement=[self.name + ".place"], clk_periods=[P]))
        return cfg, {}


def check(ck):
    ck.rule = ("random model shapes (layers, sizes, units per layer; embedding tables) through the tree's own compilers with random weights and inputs, random NoC, adapter and clock settings and placements, "
               "SystemC/RTL mixes; golden files compared with an independent recomputation, verdict and exit status of the simulation compared with the truth, also with one golden element falsified")
    ck.assumptions = ["shapes the design's compiler accepts and that fit its 16-node NoC", "NoC buffers hold a packet", "the driver period is its modules' clock period"]
    thorough = ck.tier == "thorough"
    plan = [(Mlp(), 700 if thorough else 32), (Dlrm(), 240 if thorough else 12), (DlrmTwo(), 120 if thorough else 6), (MlpInt8(), 120 if thorough else 4)]
    if thorough:
        plan += [(Numbers("add"), 60), (Numbers("mult"), 60)]

    def files_of(root, dd, r=None):
        f = {"config.yml": os.path.join(root, "config.yml")}
        for n in glob.glob(os.path.join(dd, "*.place")) + glob.glob(os.path.join(dd, "compiler/layer_mvm_config")) + glob.glob(os.path.join(dd, "compiler/t.csv")):
            f[os.path.basename(n)] = n
        if r is not None:
            f["output.log"] = "\n" + r.out[-4000:]
        return f

    def build(d):
        root, dd = stage("p19_b_" + d.name, d.name)
        return build_binary(root, design=d.name, jobs=4, extra_flags=FLAGS if thorough else "")
    exes = dict(zip([d.name for d, _ in plan], pmap(build, [d for d, _ in plan], 4)))
    ck.count("designs", len(plan))
    print("# built after %d s" % (time.time() - ck.t0))

    def verdict(d, tag, root, dd, exe, expect, what):
        r = simulate(root, exe, timeout=240)
        shown = "PASS" if r.passed and not r.failed else "FAIL" if r.failed and not r.passed else "none"
        if r.timed_out or (shown, r.rc == 0) != (expect, expect == "PASS"):
            ck.violation("%s_%s" % (d.name, what), "%s %s: verdict %s, exit status %s%s where %s was due: %s" % (
                d.name, tag, shown, r.rc, ", did not end" if r.timed_out else "", expect, r.out[-200:].replace("\n", " | ")), files_of(root, dd, r))
            return False
        return True

    def case(job):
        t0 = time.time()
        case_(job)
        spent[job[0].name] = spent.get(job[0].name, 0) + time.time() - t0

    def case_(job):
        d, i = job
        rng = random.Random("p19 %s %d %d" % (d.name, SEED, i))
        cfg, m = d.gen(rng, i)
        tag = "%s_%d" % (d.name, i)
        root, dd = stage("p19_" + tag, d.name, cfg)
        exe = exes[d.name]
        if d.gfile is None:
            if verdict(d, tag, root, dd, exe, "PASS", "wrong"):
                ck.count("runs_passed")
            ck.case((tag,))
            rmtree(os.path.dirname(root))
            return
        r = d.compile(dd, m, rng.randrange(1 << 30), rng)
        if r.rc:
            ck.violation("%s_compiler" % d.name, "%s: the compiler failed on %s: %s" % (tag, m, r.out[-300:]), files_of(root, dd, r))
            ck.case()
            return
        path = os.path.join(dd, d.gfile)
        try:
            want, why = d.golden(dd, m)
            lines = [l for l in open(path).read().split("\n") if l.strip()]
            got = [[int(x) for x in l.split()] for l in lines[d.header:]]
        except (OSError, ValueError, IndexError, KeyError) as e:
            ck.violation("%s_data" % d.name, "%s %s: data files missing or malformed: %s" % (tag, m, e), files_of(root, dd, r))
            ck.case()
            return
        if want is None:
            ck.violation("%s_data" % d.name, "%s %s: %s" % (tag, m, why), files_of(root, dd))
        elif got != want:
            k = next((k for k in range(min(len(got), len(want))) if got[k] != want[k]), min(len(got), len(want)))
            ck.violation("%s_golden" % d.name, "%s %s: golden row %d of %d (%d due) is %s, the data files give %s" % (tag, m, k, len(got), len(want), got[k:k + 1], want[k:k + 1]), files_of(root, dd))
        ck.count("golden_rows_compared", len(got))
        ok = verdict(d, "%s %s" % (tag, m), root, dd, exe, "PASS", "wrong")
        if ok:
            ck.count("runs_passed")
            k = rng.choice([0, len(got) - 1, rng.randrange(len(got))])
            c = rng.choice([0, len(got[k]) - 1, rng.randrange(len(got[k]))])
            row = list(got[k])
            row[c] = wrap(row[c] + rng.choice([1, -1, 17, 1 << (d.bits - 2)]), d.bits)
            if i % 2 == 0 or d.name.startswith("dlrm"):
                with open(path, "w") as f:
                    f.write("\n".join(lines[:d.header] + [" ".join(map(str, x if j != k else row)) for j, x in enumerate(got)]) + "\n")
                if verdict(d, "%s %s with row %d element %d of the golden file falsified" % (tag, m, k, c), root, dd, exe, "FAIL", "falsified"):
                    ck.count("corrupted_goldens_refused")
        ck.case((tag,) if len({v for x in want or [] for v in x}) > 1 else None, "%s %s: %d golden rows" % (tag, m, len(got)) if i < 3 else None)
        if ok:
            rmtree(os.path.dirname(root))
    jobs = [(d, i) for d, n in plan for i in range(n)]
    weight = {"mlp_int8": 0, "dlrm_two_rad": 1, "dlrm": 2}
    jobs.sort(key=lambda j: weight.get(j[0].name, 3))
    spent = {}
    pmap(case, jobs)
    print('#', spent)
