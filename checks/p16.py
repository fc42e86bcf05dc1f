"""P16: the configuration file means what it says."""
from cfg import *

FINISH = dict(min_nontrivial=60, need=("values", "header_values", "rejected", "systems", "several_rads", "several_nocs", "shared_configs"))


def check(ck):
    ck.rule = ("random valid and invalid config.yml files go through the tree's config.py; the simulator's own parsers then read the generated files and every value a design can see is compared with the YAML "
               "(per RAD through cluster_configs); compiled headers are probed for widths and disjoint bit fields; built simulators report which design runs in which RAD; non-trivial: accepted configurations with several values")
    ck.assumptions = ["the documented sections; lists with one entry per NoC", "trace names without blanks", "interface widths of at least 16 bits"]
    n = 1200 if ck.tier == "thorough" else 300
    # the probe: any simulator of the tree whose design prints what it sees
    rng = random.Random("%d/p16/probe" % SEED)
    ov = overlays(os.path.join(BUILD, "p16/ov"), ["da", "db", "dc"])

    def built(tag, rads, designs, confs):
        """A simulator for these RADs: [(config name, design)] per RAD."""
        c = make_config(noc={"dim_x": [2], "dim_y": [2]}, rads={k: {"design": {"name": d, "noc_placement": ["x.place"], "clk_periods": [5.0]}} for k, d in confs.items()},
                        cluster={"num_rads": len(rads), "cluster_configs": rads, "sim_driver_period": 2.5})
        root, r = configure(c, os.path.join(BUILD, "p16", tag), designs[0], designs[1:])
        if not config_ok(root, r):
            ck.violation("refused", "config.py refused a valid configuration of %d RADs: %s" % (len(rads), r.out[-300:]), {"config.yml": yaml.safe_dump(c)})
            return None
        exe = build_binary(root, "plain", design=designs[0], designs=";".join(designs), overlay={d: ov[d] for d in designs}, jobs=4)
        r = run([exe], cwd=root, timeout=120)
        got = sorted((int(m.group(2)), m.group(1), float(m.group(3)), m.group(4)) for m in re.finditer(r"SYS (\w+) rad (\d+) period (\S+) same (\d)", r.out))
        want = [(i, confs[k], 2.5, "1") for i, k in enumerate(rads)]
        if got != want or r.rc:
            ck.violation("systems", "configured RADs %s run as %s (exit code %s): %s" % (want, got, r.rc, r.out[-300:]), {"config.yml": yaml.safe_dump(c), "main.cpp": os.path.join(root, "sim/main.cpp")})
        ck.count("systems", len(got))
        return exe
    jobs = [("b1", ["only"], ["da"], {"only": "da"}), ("b2", ["y", "x", "y"], ["db", "da"], {"x": "da", "y": "db"}), ("b3", ["z", "w", "v", "z"], ["dc", "da", "db"], {"w": "db", "z": "da", "v": "dc"})]
    exes = pmap(lambda j: built(*j), jobs, 3)
    if not exes[0]:
        return

    def one(i):
        rng = random.Random("%d/p16/%d" % (SEED, i))
        c, designs, bad = gen(rng, i)
        text = text_of(c, rng)
        root, r = configure(text, os.path.join(BUILD, "p16", "c%d" % i), designs[0], designs[1:])
        ok = config_ok(root, r)
        h = None
        if ok and not bad:
            p = os.path.join(root, "hp")
            r2 = run(["g++", "-O0", "-w", "-I" + os.path.join(root, "sim"), os.path.join(VERIF, "harness/cfg/header_probe.cpp"), "-o", p], timeout=60)
            h = run([p], timeout=20).out if r2.rc == 0 else None
            if h is None:
                return c, bad, root, r, ok, r2.out
        return c, bad, root, r, ok, (h,)
    todo = []
    for i, (c, bad, root, r, ok, h) in enumerate(pmap(one, range(n))):
        files = {"config.yml": os.path.join(root, "example-designs", os.listdir(os.path.join(root, "example-designs"))[0], "config.yml"), "output.txt": r.out[-5000:]}
        if bad:
            if ok and r.rc == 0:
                ck.violation("accepted:" + bad, "config.py accepted a configuration with an error: %s (run %d)" % (bad, i), files)
            ck.count("rejected")
            ck.case(None)
            continue
        if not ok:
            ck.violation("refused:" + re.sub(r"\d+", "#", r.out.strip().splitlines()[-1])[:60], "config.py refused a valid configuration (run %d): %s" % (i, r.out[-300:]), files)
            ck.case(None)
            continue
        if isinstance(h, str):
            ck.violation("header:compile", "the generated header does not compile (run %d): %s" % (i, h[:300]), files)
        else:
            files["radsim_defines.hpp"] = os.path.join(root, "sim/radsim_defines.hpp")
            b, k = judge_header(c, root, h[0])
            ck.count("header_values", k)
            for key, t in b:
                ck.violation(key, "%s (run %d)" % (t, i), files)
        todo.append((i, c, root, files))
    # the simulator's parsers on the generated files
    chunks = [todo[k::8] for k in range(8)]
    base = os.path.join(BUILD, "p16/b1/rad-sim")

    def probe(ch):
        env = base_env(CFG_ROOTS=" ".join("%s %d" % (root, c["cluster"]["num_rads"]) for _, c, root, _ in ch))
        return run([exes[0]], cwd=base, env=env, timeout=200)
    for r, ch in zip(pmap(probe, chunks), chunks):
        for i, c, root, files in ch:
            files = {**files, "radsim_knobs": os.path.join(root, "sim/radsim_knobs"), "noc0_rad0_config": os.path.join(root, "sim/noc/noc0_rad0_config")}
            p = os.path.join(root, "dump")
            lines = open(p).read().splitlines() if os.path.exists(p) else []
            if lines[-1:] != ["end"]:
                ck.violation("parse", "the simulator failed on the generated files (run %d, exit code %s): %s" % (i, r.rc, r.out[-300:]), files)
                break
            b, k = judge_files(c, root, lines, None)
            ck.count("values", k)
            for key, t in b:
                ck.violation(key, "%s (run %d)" % (t, i), files)
            cc = c["cluster"]["cluster_configs"][:c["cluster"]["num_rads"]]
            ck.count("several_rads", len(cc) > 1)
            ck.count("shared_configs", len(set(cc)) < len(cc))
            ck.count("several_nocs", c["noc"].get("num_nocs", 1) > 1)
            ck.case((i,), "run %d: %d RADs %s, %d NoCs %s, %d values" % (i, len(cc), cc, c["noc"].get("num_nocs", 1), c["noc"]["topology"], k))
            rmtree(os.path.dirname(root))
