"""Random Verilog modules, what the RTL scripts should make of them, and a bench around the wrappers they make."""
import re, random
from rad import *

AXIS = dict(tvalid=0, tready=0, tdata="AXIS_MAX_DATAW", tstrb="AXIS_STRBW", tkeep="AXIS_KEEPW", tlast=0, tid="AXIS_IDW", tdest="AXIS_DESTW", tuser="AXIS_USERW")
AXIMM = {}
for _c in ("aw", "ar"):
    AXIMM.update({_c + k: v for k, v in dict(valid=0, ready=0, id="AXI4_IDW", addr="AXI4_ADDRW", len="AXI4_LENW", size="AXI4_SIZEW", burst="AXI4_BURSTW", user="AXI4_USERW").items()})
AXIMM.update(wvalid=0, wready=0, wid="AXI4_IDW", wdata="AXI4_MAX_DATAW", wlast=0, wuser="AXI4_USERW", bvalid=0, bready=0, bid="AXI4_IDW", bresp="AXI4_RESPW", buser="AXI4_USERW",
             rvalid=0, rready=0, rid="AXI4_IDW", rdata="AXI4_MAX_DATAW", rresp="AXI4_RESPW", rlast=0, ruser="AXI4_USERW")
BACK = {"tready", "awready", "wready", "arready", "bvalid", "bid", "bresp", "buser", "rvalid", "rid", "rdata", "rresp", "rlast", "ruser"}  # what a slave drives
WORDS = "data sum valid en sel addr count flag go busy level mode rate tap load acc ready_o start".split()
TRICKY = ["data_input", "my_output", "is_inout", "input_sel", "output_en", "reg_write", "logic_en", "wire_sel", "tri_state", "signed_mode", "wor_q", "the_parameter", "parameter_q", "endmodule_seen", "module_id", "tri0x", "subreg", "clk_en", "rst_n", "clk2", "axis_cfg_mode", "aximm_dbg_flag", "axis_mode", "my_axis_tdata", "integer_part", "real_part", "out", "inp"]


def widths(root):
    """The widths of the AXI fields as the configured tree defines them."""
    d = dict(re.findall(r"^#define\s+(\w+)\s+([^\n]+?)\s*(?://.*)?$", open(os.path.join(root, "sim/radsim_defines.hpp")).read(), re.M))

    def value(x):
        while re.search(r"[A-Za-z_]", x):
            x = re.sub(r"[A-Za-z_]\w*", lambda m: "(" + d[m.group(0)] + ")", x)
        return int(eval(x, {"__builtins__": {}}))
    return {f: value(w) if w else 1 for f, w in {**AXIS, **AXIMM}.items()}


class Port:
    def __init__(self, name, dir, width, kind="plain", iface=None, field=None, role=None):
        self.name, self.dir, self.width, self.kind, self.iface, self.field, self.role = name, dir, width, kind, iface, field, role
        self.decl_known = True  # the width can be read off the declaration

    def line(self, width=None):
        """Its line of the port map."""
        if self.kind == "plain":
            return "%s %s %s %s" % (self.dir, self.width if width is None else width, self.name, self.name)
        return "%s %s %s %s_%s %s" % (self.kind, self.role, self.name, self.kind, self.iface, self.field)

    def sig(self):
        return self.name if self.kind == "plain" else "%s_%s.%s" % (self.kind, self.iface, self.field)


def gen_module(rng, name, w, compiled):
    """A module with plain and AXI ports. compiled: one whose wrapper is to be built (every width as the simulator has it)."""
    taken, ports = set(), [Port("clk", "input", 1), Port("rst", "input", 1)]

    def fresh(tricky):
        while True:
            n = rng.choice(TRICKY) if rng.random() < tricky else rng.choice(WORDS) + rng.choice(["", "_%d" % rng.randrange(30), rng.choice("abxyz")])
            if n not in taken:
                taken.add(n)
                return n
    for _ in range(rng.randint(1 if compiled else 0, 6)):
        ports.append(Port(fresh(0.35), rng.choice(["input", "output"] if compiled else ["input", "output", "output", "input", "inout"]), rng.choice([1, 1, 2, 7, 8, 9, 31, 32, 33, 63, 64, 65, 100, 128, 200])))
    ifaces = []
    for kind, fields, most in (("axis", AXIS, 3), ("aximm", AXIMM, 2)):
        for _ in range(rng.randint(1 if compiled and kind == "axis" else 0, most)):
            while True:  # often a name that other modules, or the other kind of interface, use too
                iface = rng.choice(["s0", "rx", "io_data", "ctrl", "x_1"]) if rng.random() < 0.6 else "x" + fresh(0.1)
                if (kind, iface) not in ifaces:
                    break
            ifaces.append((kind, iface))
            role = rng.choice(["master", "slave"])
            fs = list(fields) if rng.random() < 0.5 else rng.sample(list(fields), rng.randint(2, len(fields)))
            if all(f in BACK for f in fs):
                fs.append(next(f for f in fields if f not in BACK))
            if rng.random() < 0.5:
                rng.shuffle(fs)
            for f in fs:
                ports.append(Port("%s_%s_%s" % (kind, iface, f), "input" if (role == "slave") != (f in BACK) else "output", w[f], kind, iface, f, role))
    if rng.random() < 0.3:  # interfaces need not be declared in one place
        rest = ports[2:]
        rng.shuffle(rest)
        ports[2:] = rest
    if not any(p.dir == "input" for p in ports[2:]):
        ports.append(Port(fresh(0), "input", 16))
    return ports


def verilog(rng, name, ports, compiled):
    """Its source, in one of many styles; (text, {output: (input, constant, registered)})."""
    params = []
    ansi = rng.random() < 0.6
    out, func = [], {}

    def note():
        w = lambda: " ".join(rng.choice(["the", "input", "output", "data", "of", "module", "a", "width", "reg", "(see", "b)", "x;"]) for _ in range(rng.randint(1, 4)))
        r = rng.random()
        return "" if r < 0.6 else " // %s" % w() if r < 0.85 else " /* %s */" % w()

    def decl(p, reg):
        net = "reg" if reg == "reg" else rng.choice(["", "", "", "wire", "logic"] if not (reg == "no" and p.dir == "output") else ["", "", "wire"])
        if compiled and net == "logic" and reg == "no":
            net = "wire"
        rangetext = ""
        if p.width > 1:
            r = rng.random()
            if r < 0.1:
                pn = "W%d" % len(params)
                params.append((pn, p.width))
                rangetext, p.decl_known = "[%s-1:0]" % pn, False
            elif r < 0.16:
                rangetext, p.decl_known = "[%d : 0]" % (p.width - 1), False
            elif r < 0.26 and not compiled:
                k = rng.randint(1, 9)
                rangetext = "[%d:%d]" % (p.width - 1 + k, k)
            elif r < 0.34 and not compiled:
                rangetext = "[0:%d]" % (p.width - 1)
            else:
                rangetext = "[%d:0]" % (p.width - 1)
        elif rng.random() < 0.08:
            rangetext = "[0:0]"
        sign = rng.random() < 0.08 and "signed" or ""
        if (net == "wire" and not rangetext) or (sign and (net or not rangetext)):
            p.decl_known = False
        p.style = (net, sign, rangetext)
        return " ".join(x for x in (p.dir, net, sign, rangetext) if x)

    ins = [p for p in ports if p.dir == "input" and p.name != "clk"]
    body = []
    for p in ports:
        if p.dir == "output":
            src = rng.choice(ins)
            k = rng.getrandbits(p.width)
            registered = rng.random() < 0.5
            func[p.name] = (src.name, k, registered)
    groups, i = [], 0
    while i < len(ports):  # runs of ports that share a declaration
        g = [ports[i]]
        share = rng.random() < 0.35
        while share and i + len(g) < len(ports) and len(g) < 4:
            q = ports[i + len(g)]
            if (q.dir, q.width) != (g[0].dir, g[0].width) or (q.name in func and func[q.name][2]) != (g[0].name in func and func[g[0].name][2]):
                break
            g.append(q)
        groups.append(g)
        i += len(g)
    decls = []
    for g in groups:
        reg = "reg" if g[0].name in func and func[g[0].name][2] else "no"
        d = decl(g[0], reg)
        for q in g[1:]:
            q.decl_known, q.style = g[0].decl_known, g[0].style
        decls.append((d, [q.name for q in g]))
    head = "module %s" % name
    extra = [("DEPTH", rng.randint(1, 99))] if rng.random() < 0.4 else []
    if params or extra:
        head += " #(" + rng.choice(["", "\n  "]) + (",%s  " % rng.choice(["", "\n"])).join("parameter %s%s = %d" % (rng.choice(["", "integer "]), n, v) for n, v in params + extra) + rng.choice(["", "\n"]) + ")"
    nl = rng.random() < 0.85
    if ansi:
        L = []
        for j, (d, names) in enumerate(decls):
            last = j == len(decls) - 1
            L.append("%s%s %s%s%s" % ("  " if nl else "", d, ", ".join(names), "" if last else ",", note() if nl else ""))
        text = head + rng.choice([" (", "("]) + ("\n" if nl else "") + ("\n" if nl else " ").join(L) + ("\n" if nl else "") + ");\n"
    else:
        names = [p.name for p in ports]
        text = head + " (" + rng.choice([", ", ","]).join(names) + ");\n"
        for d, ns in decls:
            text += "  %s %s;%s\n" % (d, ", ".join(ns), note())
    for p in ports:
        if p.dir == "output":
            s, k, registered = func[p.name]
            sw = next(q.width for q in ports if q.name == s)
            rep = -(-p.width // sw)
            e = "{%d{%s}}" % (rep, s)
            tmp = "t_%s" % p.name
            body.append("  wire [%d:0] %s = %s;%s" % (rep * sw - 1, tmp, e, note()))
            e = "%s[%d:0] ^ %d'h%x" % (tmp, p.width - 1, p.width, k)
            body.append("  always @(posedge clk) %s <= %s;" % (p.name, e) if registered else "  assign %s = %s;" % (p.name, e))
    if rng.random() < 0.5 and not compiled or rng.random() < 0.3:
        v = rng.choice([p for p in ports if p.dir == "input"]).name
        body.append("  wire my_input = ^%s;\n  wire any_output;\n  assign any_output = my_input & %s;" % (v, ins[0].name))
    if rng.random() < 0.3:
        body.append("  localparam LAST = 3;%s" % note())
    rng.random() < 0.3 and rng.shuffle(body) if False else None
    pre = rng.choice(["", "`timescale 1ns/1ps\n", "// module %s: takes input a (and more)\n" % name, "/* the module %s\n   output b */\n" % name])
    return pre + text + "\n".join(body) + "\nendmodule\n", func


def script(name, args, root, stdin=None, timeout=60):
    """Run one of the tree's RTL scripts."""
    p = subprocess.run(["/usr/bin/python3", os.path.join(REPO, "rad-sim/scripts", name)] + [str(a) for a in args], cwd=root, env=base_env(), timeout=timeout,
                       input=stdin, stdin=None if stdin is not None else subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return p


BENCH_TOP = r'''
#include <cstdio>
#include <map>
#include <random>
#include <string>
#include <vector>
#include <functional>
#include <systemc.h>
#include <design_context.hpp>
#include <radsim_module.hpp>
@INCLUDES@
static std::vector<std::string> registered;
void RADSimDesignContext::RegisterModule(std::string name, RADSimModule *) { registered.push_back(name); }
static std::mt19937_64 rnd(@SEED@);
struct Wire { std::string name; std::function<void()> drive; std::function<std::string()> read; };
static std::vector<Wire> wires;
static std::string bits(const bool &b) { return b ? "1" : "0"; }
template <int W> std::string bits(const sc_bv<W> &b) { return b.to_string(); }
static void draw(sc_signal<bool> &s) { s.write(rnd() & 1); }
template <int W> void draw(sc_signal<sc_bv<W>> &s) {
  sc_bv<W> v;
  for (int i = 0; i < W; i++) v[i] = bool((rnd() >> 17) & 1);
  s.write(v);
}
template <class T> sc_signal<T> *in(const std::string &n, sc_in<T> &p) {
  auto *s = new sc_signal<T>();
  p(*s);
  wires.push_back({n, [s] { draw(*s); }, [s] { return bits(s->read()); }});
  return s;
}
template <class T> sc_signal<T> *out(const std::string &n, sc_out<T> &p) {
  auto *s = new sc_signal<T>();
  p(*s);
  wires.push_back({n, nullptr, [s] { return bits(s->read()); }});
  return s;
}
template <class T> void free_in(sc_in<T> &p) { p(*new sc_signal<T>()); }
template <class T> void free_out(sc_out<T> &p) { p(*new sc_signal<T>()); }
template <class M, class P> void reg(const char *m, const char *n, M &map, P *p, RADSimModule *mod) {
  std::string key = mod->module_name + "." + n;
  bool there = map.count(key) && map[key] == p;
  printf("R %s %s %d %u %d\n", m, n, int(there), mod->_ports_dataw.count(key) ? mod->_ports_dataw[key] : 0u, int(mod->_ports_is_aximm.count(key) && mod->_ports_is_aximm[key]));
}
int sc_main(int, char **) {
  RADSimDesignContext *ctx = static_cast<RADSimDesignContext *>(calloc(1, sizeof(RADSimDesignContext)));
  sc_signal<bool> clk;
@BODY@
  for (auto &n : registered) printf("M %s\n", n.c_str());
  for (int c = 0; c < @CYCLES@; c++) {
    for (auto &w : wires) if (w.drive) w.drive();
    sc_start(1, SC_NS);
    printf("C %d before\n", c);
    for (auto &w : wires) printf("%s %s\n", w.name.c_str(), w.read().c_str());
    clk.write(true);
    sc_start(1, SC_NS);
    printf("C %d after\n", c);
    for (auto &w : wires) printf("%s %s\n", w.name.c_str(), w.read().c_str());
    clk.write(false);
    sc_start(1, SC_NS);
  }
@END@
  printf("E\n");
  fflush(stdout);
  return 0;
}
'''


def bench(mods, cycles, seed):
    """mods: [(module, ports, instance)]. The program around their wrappers."""
    inc, body, end = [], [], []
    for k, (m, ports, inst) in enumerate(mods):
        inc.append("#include <%s.hpp>" % m)
        body.append('  %s *u%d = new %s("%s", ctx);' % (m, k, m, inst))
        ifaces = {}
        for p in ports:
            if p.kind == "plain":
                body.append('  u%d->clk(clk);' % k if p.name == "clk" else '  %s("u%d.%s", u%d->%s);' % ("in" if p.dir == "input" else "out", k, p.name, k, p.name))
            else:
                ifaces.setdefault((p.kind, p.iface, p.role), {})[p.field] = p
        for (kind, iface, role), fs in ifaces.items():
            for f in AXIS if kind == "axis" else AXIMM:
                d = "in" if (role == "slave") != (f in BACK) else "out"
                a = "u%d->%s_%s.%s" % (k, kind, iface, f)
                body.append('  %s("u%d.%s", %s);' % (d, k, fs[f].name, a) if f in fs else "  free_%s(%s);" % (d, a))
            n = "%s_%s" % (kind, iface)
            body.append('  reg("u%d", "%s", u%d->_%s_%s_ports, &u%d->%s, u%d);' % (k, n, k, kind, role, k, n, k))
        body.append('  printf("N u%d %%d %%d %%d %%d\\n", u%d->_num_noc_axis_slave_ports, u%d->_num_noc_axis_master_ports, u%d->_num_noc_aximm_slave_ports, u%d->_num_noc_aximm_master_ports);' % (k, k, k, k, k))
        end.append("  delete u%d;" % k)
    t = BENCH_TOP
    for a, b in (("INCLUDES", "\n".join(inc)), ("BODY", "\n".join(body)), ("END", "\n".join(end)), ("CYCLES", str(cycles)), ("SEED", str(seed))):
        t = t.replace("@%s@" % a, b)
    return t
