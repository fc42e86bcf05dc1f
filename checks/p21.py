"""P21: a simulation depends on its inputs only."""
import filecmp, shutil
from xrad import *
from mnoc import *

FINISH = dict(min_nontrivial=20, need=("repeated_runs", "events_compared", "files_compared", "clusters_repeated", "systems_of_several_nocs_repeated"))

# the same simulation in another process environment: dirty heaps (no per-thread cache, whose chunks malloc does not perturb), other addresses, a longer path, another size of environment
WORLDS = [
    dict(MALLOC_PERTURB_="165", GLIBC_TUNABLES="glibc.malloc.tcache_count=0"),
    dict(MALLOC_PERTURB_="90", MALLOC_TOP_PAD_="1234567", MALLOC_ARENA_MAX="1", GLIBC_TUNABLES="glibc.malloc.tcache_count=0:glibc.malloc.mmap_threshold=4096"),
    dict(PADDING="x" * 9000, TZ="Asia/Tokyo", LANG="C", MALLOC_PERTURB_="254", GLIBC_TUNABLES="glibc.malloc.tcache_count=0"),  # fresh memory is full of 1s, a bool's other value
]
SKIP = ("scenario.txt", "stdout.log", "config.yml", "config.py")


def outputs(root):
    """Everything a run wrote, by name."""
    out = {}
    for f in sorted(os.listdir(root)):
        p = os.path.join(root, f)
        if os.path.isfile(p) and f not in SKIP and not os.path.islink(p):
            out[f] = p
    return out


def console(text, root):
    """The console without the paths it shows."""
    return [l for l in text.replace(root, ".").split("\n") if not re.search(r"/example-designs|_filepath|Simulation Time", l)]


def check(ck):
    ck.rule = ("random systems (one NoC, several NoCs, several RADs; AXI-S and AXI-MM traffic, all allocators) run again in another directory with perturbed heap contents and layout and another environment; every event with its time, "
               "every statistics, flow, trace and log file and the console compared byte by byte; non-trivial: over 50 events")
    ck.assumptions = ["drivers draw no numbers from the time of day (add and mult do)"]
    thorough = ck.tier == "thorough"

    def judge_as(kind, exe_of):
        def judge(i, sc, root, r):
            if abnormal(ck, sc, root, r):
                ck.case()
                return
            first = outputs(root)
            for k in range(3 if thorough else 1):
                world = WORLDS[(i + k) % len(WORLDS)]
                other = os.path.join(BUILD, "run", "p21again_%s%d_%d" % (kind, i, k), "a-longer-path-than-before" * (k + 1), "rad-sim")
                shutil.copytree(root, other, symlinks=True, ignore=lambda d, names: [n for n in names if os.path.join(d, n) in first.values() or n == "stdout.log"])
                r2 = execute(other, exe_of(root), timeout=200, env=world, stats=True)
                ck.count("repeated_runs")
                second = outputs(other)
                diff = None
                if (r.rc, r.timed_out) != (r2.rc, r2.timed_out):
                    diff = "exit status %s and then %s: %s" % (r.rc, r2.rc, r2.out[-200:])
                elif sorted(first) != sorted(second):
                    diff = "files %s and then %s" % (sorted(first), sorted(second))
                else:
                    for f in first:
                        ck.count("files_compared")
                        if not filecmp.cmp(first[f], second[f], shallow=False):
                            a, b = open(first[f], errors="replace").read().split("\n"), open(second[f], errors="replace").read().split("\n")
                            j = next((j for j in range(min(len(a), len(b))) if a[j] != b[j]), min(len(a), len(b)))
                            diff = "%s differs in line %d: %r and then %r" % (f, j + 1, "".join(a[j:j + 1])[:120], "".join(b[j:j + 1])[:120])
                            break
                    if diff is None and console(r.out, root) != console(r2.out, other):
                        a, b = console(r.out, root), console(r2.out, other)
                        j = next((j for j in range(min(len(a), len(b))) if a[j] != b[j]), min(len(a), len(b)))
                        diff = "the console differs: %r and then %r" % ("".join(a[j:j + 1])[:120], "".join(b[j:j + 1])[:120])
                if diff:
                    ck.violation("differs_" + kind, "the same simulation run again (%s) behaves differently: %s" % (", ".join(sorted(world)), diff), {**replay_files(sc, root, r), "again.log": os.path.join(other, "events.log")})
                rmtree(os.path.join(BUILD, "run", "p21again_%s%d_%d" % (kind, i, k)))
            ck.count("events_compared", len(r.events))
            ck.count({"x": "clusters_repeated", "n": "systems_of_several_nocs_repeated"}.get(kind, "single_nocs_repeated"))
            ck.case((kind, i) if len(r.events) > 50 else None, "%s%d: %d events, files %s" % (kind, i, len(r.events), " ".join(first)))
        return judge
    exe_of = lambda root: build_binary(root)

    def traced(g):
        def gen(rng, group, idx):
            sc = g(rng, group, idx)
            sc.cfg["cluster"].update(telemetry_log_verbosity=rng.randrange(5), telemetry_traces=["tr%d" % i for i in range(rng.choice([0, 2]))])
            return sc
        return gen
    if thorough:
        explore(ck, AXIS[:2], traced(gen_axis), 400, judge_as("s", exe_of), tag="p21s_", stats=True)
    explore(ck, MNOC if thorough else MNOC[:1], traced(gen_mnoc), 600 if thorough else 60, judge_as("n", exe_of), tag="p21n_", stats=True)
    explore(ck, XRAD[:2] if thorough else XRAD[:1], traced(gen_xrad), 500 if thorough else 40, judge_as("x", exe_of), tag="p21x_", stats=True)
