"""P23: the RTL scripts connect every pin of a Verilog module to the signal its name asks for."""
import xml.etree.ElementTree as ET
from rtl import *
from groups import *

FINISH = dict(min_nontrivial=100, need=("modules_mapped", "ports_mapped", "axi_ports_mapped", "unknown_widths_warned", "maps_refused", "wrappers_built", "pin_values_compared", "interfaces_registered", "modules_parsed_by_verilator_too"))
V = "/usr/bin/verilator"
VINC = ["/usr/share/verilator/include", "/usr/share/verilator/include/vltstd"]


def parsed_by_verilator(path, work, top):
    """{port: (direction, width)} as Verilator reads it, or None."""
    r = run([V, "--xml-only", "-Wno-fatal", "-Wno-lint", "--top-module", top, "--xml-output", work + ".xml", "--Mdir", work + ".d", path], timeout=60)
    if r.rc or not os.path.exists(work + ".xml"):
        return None
    t = ET.parse(work + ".xml").getroot()
    types = {d.get("id"): d for d in t.iter("basicdtype")}

    def width(i):
        d = types.get(i)
        if d is None:
            return None
        return abs(int(d.get("left", 0)) - int(d.get("right", 0))) + 1
    m = next((m for m in t.iter("module") if m.get("name") == top or m.get("origName") == top), None)
    return {v.get("origName", v.get("name")): (v.get("dir"), width(v.get("dtype_id"))) for v in m.iter("var") if v.get("dir")} if m is not None else None


def check(ck):
    ck.rule = ("random Verilog modules (declaration styles, comments, parameters, names that contain keywords, AXI-S and AXI-MM interfaces of both roles) through generate_port_mappings.py, the map compared port by port with what was declared; "
               "malformed maps must be refused; wrappers of generate_wrapper.py built around the Verilated modules with the tree's headers, random values on every pin, each signal compared with the module's function every cycle; non-trivial: over 6 ports")
    ck.assumptions = ["names are no C++ or Verilog keywords and have no double underscores", "no functions, tasks, strings with keywords or multidimensional ports in a mapped file (the parser's documented limits)", "pins of an interface are as wide as the simulator's",
                      "wrapped modules have a NoC interface"]
    thorough = ck.tier == "thorough"
    n = 3000 if thorough else 400
    nb = 32 if thorough else 4
    rmtree(os.path.join(BUILD, "p23"))
    root, r = configure(make_config(), os.path.join(BUILD, "p23cfg"))
    if not config_ok(root, r):
        raise HarnessError("config.py failed: " + r.out[-300:])
    w = widths(root)

    def expect(line):
        return tuple(line.split())

    def one(i):
        rng = random.Random("p23 %d %d" % (SEED, i))
        d = os.path.join(BUILD, "p23", "m%d" % i)
        rtl = os.path.join(d, "modules/rtl")
        os.makedirs(rtl, exist_ok=True)
        files, mods = [], []
        for f in range(rng.choice([1, 1, 1, 2])):
            text = ""
            for m in range(rng.choice([1, 1, 1, 2])):
                name = rng.choice(["adder", "client", "my_module", "core", "reg_file"]) + "_%d%d" % (f, m)
                ports = gen_module(rng, name, w, False)
                t, _ = verilog(rng, name, ports, False)
                text += t + rng.choice(["", "\n", "// end\n"])
                mods.append((name, ports))
            files.append("f%d%s" % (f, rng.choice([".v", ".sv"])))
            open(os.path.join(rtl, files[-1]), "w").write(text)
        files_ = {f: os.path.join(rtl, f) for f in files}
        pm = os.path.join(rtl, "port.map")
        stdin, args, keep = None, [d] + files, False
        if i % 5 == 0:  # there is a map already
            open(pm, "w").write("module old\ninput 1 a a\n")
            k = rng.randrange(4)
            if k == 0:
                args.append("--overwrite")
            else:
                stdin = ["n\n", "y\n", "\n"][k - 1]
                keep = k == 1
        p = script("generate_port_mappings.py", args, d, stdin)
        bad = []
        if keep:
            if open(pm).read() != "module old\ninput 1 a a\n":
                bad.append("overwritten: the map was overwritten although the user said no")
            ck.count("maps_kept")
        elif p.returncode or not os.path.exists(pm):
            bad.append("script: the script failed: " + p.stdout[-200:])
        else:
            files_["port.map"] = pm
            got, cur = {}, None
            order = []
            for l in open(pm):
                c = l.split()
                if c and c[0] == "module":
                    cur = c[1] if len(c) > 1 else "?"
                    order.append(cur)
                    got[cur] = []
                elif c:
                    got.setdefault(cur, []).append(tuple(c))
            if order != [m for m, _ in mods]:
                bad.append("modules: the map has modules %s, declared %s" % (order, [m for m, _ in mods]))
            for m, ports in mods:
                have = list(got.get(m, []))
                ck.count("modules_mapped")
                for q in ports:
                    ck.count("ports_mapped")
                    if q.kind != "plain":
                        ck.count("axi_ports_mapped")
                    l, unknown = expect(q.line()), expect(q.line("?"))
                    if l in have:
                        have.remove(l)
                    elif q.kind == "plain" and not q.decl_known and unknown in have:
                        have.remove(unknown)
                        if not re.search(r"WARNING[^\n]*\b%s\b" % re.escape(q.name), p.stdout):
                            bad.append("unwarned: %s.%s: unknown width without a warning" % (m, q.name))
                        ck.count("unknown_widths_warned")
                    else:
                        near = [h for h in have if q.name in h]
                        bad.append(("width" if any(h[0] == q.dir and h[2:] == (q.name, q.name) for h in have) else "port") + ": %s.%s declared as %s: no line '%s'%s" % (m, q.name, q.style, q.line(), "; the map has %s" % " ".join(near[0]) if near else ""))
                for h in have:
                    bad.append("extra: %s: the map has '%s', which was not declared" % (m, " ".join(h)))
        if i % 16 == 1 and len(mods) == 1:  # what was declared, from another parser
            v = parsed_by_verilator(os.path.join(rtl, files[0]), os.path.join(d, "x"), mods[0][0])
            if v is None or v != {q.name: (q.dir, q.width) for q in mods[0][1]}:
                raise HarnessError("Verilator reads the generated module differently: %s %s" % (d, v))
            ck.count("modules_parsed_by_verilator_too")
        total = sum(len(x[1]) for x in mods)
        if bad:
            ck.violation("map_" + bad[0].split(":")[0], "; ".join(x.split(": ", 1)[1] for x in bad[:3]), {**files_, "output.log": "\n" + p.stdout[-3000:]})
        ck.case(("map", i) if total > 6 else None, "m%d: %d modules, %d ports" % (i, len(mods), total) if i < 3 else None)
        if not bad:
            rmtree(d)
    pmap(one, range(n))

    # maps that cannot be
    def refuse(i):
        rng = random.Random("p23r %d %d" % (SEED, i))
        d = os.path.join(BUILD, "p23", "r%d" % i)
        os.makedirs(os.path.join(d, "modules/rtl"), exist_ok=True)
        ports = gen_module(rng, "thing", w, True)
        lines = [p.line() for p in ports]
        axi = [k for k, p in enumerate(ports) if p.kind != "plain"]
        plain = [k for k, p in enumerate(ports) if p.kind == "plain"]
        multi = [k for k in axi if sum(q.kind != "plain" and (q.kind, q.iface) == (ports[k].kind, ports[k].iface) for q in ports) > 1]
        kind = rng.choice(["unknown", "role", "nomodule", "short", "long", "mode", "number", "axishort", "module"])
        if kind == "role" and not multi:
            kind = "unknown"
        head = "module thing"
        k = rng.choice(plain)
        if kind == "unknown":
            lines[k] = ports[k].line("?")
        elif kind == "role":
            k = rng.choice(multi)
            lines[k] = lines[k].replace(" master ", " x ").replace(" slave ", " master ").replace(" x ", " slave ")
        elif kind == "nomodule":
            head = ""
        elif kind == "short":
            lines[k] = lines[k].rsplit(" ", 1)[0]
        elif kind == "long":
            lines[k] += " more"
        elif kind == "mode":
            lines[k] = rng.choice(["in", "axi", "outputs"]) + " " + lines[k].split(" ", 1)[1]
        elif kind == "number":
            lines[k] = ports[k].line(rng.choice(["W", "-4", "3.5", "8b"]))
        elif kind == "axishort":
            k = rng.choice(axi)
            lines[k] = lines[k].rsplit(" ", 1)[0] if rng.random() < 0.5 else lines[k] + " 8"
        else:
            head = rng.choice(["module", "module thing 2"])
        pm = os.path.join(d, "modules/rtl/port.map")
        open(pm, "w").write(head + "\n" + "\n".join(lines) + "\n")
        p = script("generate_wrapper.py", [d, "thing"], d, "512\n" * 3)
        left = [x for x in os.listdir(d + "/modules") if x != "rtl"]
        if p.returncode == 0 or left:
            ck.violation("accepted_" + kind, "a map with a fault (%s: %s) is not refused (exit status %d, files %s)" % (kind, lines[k], p.returncode, left), {"port.map": pm})
        ck.count("maps_refused")
        ck.case(("refuse", kind, i))
        rmtree(d)
    pmap(refuse, range(400 if thorough else 60))

    # wrappers at work
    objs = os.path.join(BUILD, "p23", "obj")
    os.makedirs(objs, exist_ok=True)
    sim = os.path.join(REPO, "rad-sim/sim")
    inc = [os.path.join(root, "sim"), sim, sim + "/noc", sim + "/dram"] + [os.path.join(sim, "noc/booksim", x) for x in ("", "networks", "routers", "allocators", "arbiters", "power")] + [sim + "/dram/DRAMsim3/src"] + VINC
    flags = ["-std=c++17", "-O0", "-w", "-DRADSIM_ROOT=\".\""] + ["-I" + x for x in inc]

    def cxx(job):
        src, obj, more = job
        r = run(["ccache", "g++"] + flags + more + ["-c", src, "-o", obj], timeout=300)
        return None if r.rc == 0 else r.out
    common = [(os.path.join(VINC[0], f), os.path.join(objs, f + ".o"), []) for f in ("verilated.cpp", "verilated_threads.cpp") if os.path.exists(os.path.join(VINC[0], f))]
    common += [(os.path.join(sim, "radsim_module.cpp"), os.path.join(objs, "radsim_module.o"), [])]
    for e in pmap(cxx, common):
        if e:
            raise BuildError("bench: " + e[-1500:])

    def wrap(b):
        rng = random.Random("p23w %d %d" % (SEED, b))
        d = os.path.join(BUILD, "p23", "w%d" % b)
        rtl = os.path.join(d, "modules/rtl")
        os.makedirs(rtl, exist_ok=True)
        mods, src, keep = [], [], {}
        for k in range(4):
            name = rng.choice(["adder", "core", "client"]) + rng.choice(["", "_with_quite_a_long_name"]) + str(k)
            ports = gen_module(rng, name, w, True)
            t, func = verilog(rng, name, ports, True)
            open(os.path.join(rtl, name + ".sv"), "w").write(t)
            keep[name + ".sv"] = os.path.join(rtl, name + ".sv")
            mods.append((name, ports, func, rng.choice(["u%d" % k, "inst_%d" % k, "a_rather_long_name_for_an_instance_%d" % k]), rng.choice(["", "512", "64", "1024", "128"])))
        p = script("generate_port_mappings.py", [d] + [m[0] + ".sv" for m in mods], d)
        pm = os.path.join(rtl, "port.map")
        keep["port.map"] = pm
        if p.returncode or not os.path.exists(pm):
            return ck.violation("map", "the script failed: " + p.stdout[-200:], keep)
        t = open(pm).read()
        # the user fills in what could not be determined
        sections = re.split(r"(?m)^(?=module )", t)
        t = ""
        for s in sections:
            m = next((m for m in mods if s.startswith("module %s\n" % m[0])), None)
            for q in m[1] if m else []:
                s = s.replace("%s ? %s %s\n" % (q.dir, q.name, q.name), q.line() + "\n")
            t += s
        open(pm, "w").write(t)
        p = script("generate_wrapper.py", [d] + [m[0] for m in mods], d, "".join(m[4] + "\n" for m in mods))
        if p.returncode:
            return ck.violation("wrapper", "generate_wrapper.py failed: " + p.stdout[-200:], keep)
        bench_cpp = os.path.join(d, "bench.cpp")
        open(bench_cpp, "w").write(bench([(m[0], m[1], m[3]) for m in mods], 60 if thorough else 30, rng.randrange(1 << 30)))
        jobs = []
        for m in mods:
            md = os.path.join(d, "V_" + m[0])
            r = run([V, "--sc", "--pins-bv", "2", "-Wno-fatal", "-Wno-lint", "--top-module", m[0], "--Mdir", md, os.path.join(rtl, m[0] + ".sv")], timeout=120)
            if r.rc:
                raise HarnessError("verilator failed on %s: %s" % (m[0], r.out[-500:]))
            jobs += [(os.path.join(md, f), os.path.join(md, f + ".o"), ["-I" + md]) for f in sorted(os.listdir(md)) if f.endswith(".cpp")]
        all_md = ["-I" + os.path.join(d, "V_" + m[0]) for m in mods] + ["-I" + os.path.join(d, "modules")]
        jobs += [(os.path.join(d, "modules", m[0] + ".cpp"), os.path.join(d, m[0] + ".o"), all_md) for m in mods] + [(bench_cpp, os.path.join(d, "bench.o"), all_md)]
        for m in mods:
            for x in (".cpp", ".hpp"):
                keep[m[0] + x] = os.path.join(d, "modules", m[0] + x)
        errs = [(j, e) for j, e in zip(jobs, pmap(cxx, jobs, 4)) if e]
        for j, e in errs:
            ours = "/V_" in j[0]
            if ours:
                raise BuildError("bench: %s: %s" % (j[0], e[-1000:]))
        if errs:
            return ck.violation("wrapper_does_not_compile", "%s: %s" % (os.path.basename(errs[0][0][0]), next((l for l in errs[0][1].split("\n") if "error" in l), "")[-250:]), {**keep, "compiler.log": "\n" + errs[0][1][:4000]})
        exe = os.path.join(d, "bench")
        r = run(["g++", "-no-pie"] + [o for _, o, _ in jobs + common] + ["-o", exe, "-Wl,--unresolved-symbols=ignore-all", "-lsystemc", "-lpthread"], timeout=200)
        if r.rc:
            raise BuildError("bench does not link: " + r.out[-1500:])
        r = run([exe], timeout=120)
        keep["trace.log"] = "\n" + r.out[-8000:]
        L = r.out.split("\n")
        if r.rc or "E" not in L:
            return ck.violation("wrapper_fails", "the program with the wrappers %s ended with status %s: %s" % ([m[0] for m in mods], r.rc, r.out[-200:].replace("\n", " | ")), keep)
        ck.count("wrappers_built", len(mods))
        judge(b, mods, L, keep)
        rmtree(d)

    def judge(b, mods, L, keep):
        bad = []
        regs = {tuple(l.split()[1:3]): l.split()[3:] for l in L if l.startswith("R ")}
        names = sorted(l.split()[1] for l in L if l.startswith("M "))
        if names != sorted(m[3] for m in mods):
            bad.append("modules registered as %s" % names)
        for k, (m, ports, func, inst, dataw) in enumerate(mods):
            ifs = {(p.kind, p.iface, p.role) for p in ports if p.kind != "plain"}
            for kind, iface, role in ifs:
                ck.count("interfaces_registered")
                g = regs.get(("u%d" % k, "%s_%s" % (kind, iface)))
                if g != ["1", dataw or "1024", str(int(kind == "aximm"))]:
                    bad.append("%s: %s %s %s registered as (there, width, AXI-MM) %s, width %s due" % (m, kind, role, iface, g, dataw or 1024))
            want = "N u%d %d %d %d %d" % ((k,) + tuple(sum(1 for i in ifs if (i[0], i[2]) == x) for x in (("axis", "slave"), ("axis", "master"), ("aximm", "slave"), ("aximm", "master"))))
            if want not in L:
                bad.append("%s: interfaces registered %s, %s due" % (m, [l for l in L if l.startswith("N u%d " % k)], want))
        val, prev, cyc = {}, None, None

        def settle(cyc, phase, val, old):
            """old: the values before the clock edge."""
            for k, (m, ports, func, inst, dataw) in enumerate(mods):
                wd = {p.name: p.width for p in ports}
                for o, (s, c, registered) in func.items():
                    if registered and old is None:
                        continue
                    if registered and phase == "before":
                        want = held.get((k, o))
                        if want is None:
                            continue
                    else:
                        x = int((old if registered else val)["u%d.%s" % (k, s)], 2)
                        rep = -(-wd[o] // wd[s])
                        y = 0
                        for _ in range(rep):
                            y = y << wd[s] | x
                        want = (y & ((1 << wd[o]) - 1)) ^ c
                        if registered:
                            held[k, o] = want
                    ck.count("pin_values_compared")
                    got = val.get("u%d.%s" % (k, o))
                    if got is None or len(got) != wd[o] or int(got, 2) != want:
                        bad.append("%s.%s (%s the clock edge of cycle %d) is %s, %s due: a function of %s" % (m, o, phase, cyc, got, bin(want)[2:].zfill(wd[o]), s))
        held = {}
        old = None
        blocks = []
        for l in L:
            if l.startswith("C "):
                _, c, ph = l.split()
                blocks.append((int(c), ph, {}))
            elif l.startswith("u") and blocks:
                a, v = l.split()
                blocks[-1][2][a] = v
        for c, ph, val in blocks:
            settle(c, ph, val, old)
            if ph == "before":
                old = val
        if bad:
            ck.violation("pins", "; ".join(bad[:3]), keep)
        ck.case(("wrap", b), "w%d: %s, %d pins, %d cycles" % (b, " ".join(m[0] for m in mods), sum(len(m[1]) for m in mods), len(blocks) // 2))
    pmap(wrap, range(nb), 2)
