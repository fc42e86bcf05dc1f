#include <memd_system.hpp>
#include <cstdarg>
#include <fstream>
#include <sstream>

static FILE *lg;
static long g_n = 0;  // events so far
static long g_seed = 1, g_maxcyc = 100000, g_drain = 200, g_rst = 2;
static std::map<int, memd_ctrl> g_ctrl;

struct rng_t {
  uint64_t s;
  uint64_t next() {
    uint64_t z = (s += 0x9e3779b97f4a7c15ULL);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
    return z ^ (z >> 31);
  }
  uint64_t below(uint64_t n) { return n ? next() % n : 0; }
  bool chance(int p) { return (int)below(256) < p; }
};

static void load() {
  std::ifstream f(getenv("MEMD_SCENARIO"));
  if (!f) exit(77);
  lg = fopen(getenv("MEMD_LOG"), "w");
  setvbuf(lg, nullptr, _IOFBF, 1 << 20);
  std::string line;
  while (std::getline(f, line)) {
    std::istringstream ss(line);
    std::string k;
    ss >> k;
    if (k == "seed") ss >> g_seed;
    else if (k == "maxcyc") ss >> g_maxcyc;
    else if (k == "drain") ss >> g_drain;
    else if (k == "rst") ss >> g_rst;
    else if (k == "ctrl") { int c; ss >> c; ss >> g_ctrl[c].period; ss >> g_ctrl[c].init; }
    else if (k == "chan") {
      int c, h; ss >> c >> h;
      std::string o;
      auto &x = g_ctrl[c].ch[h];
      while (ss >> o) { auto e = o.find('='); x.opt[o.substr(0, e)] = atol(o.c_str() + e + 1); }
    } else if (k == "phase") { int c, h; ss >> c >> h; g_ctrl[c].ch[h].phases.push_back({}); }
    else if (k == "op") {
      int c, h; memd_op op; ss >> c >> h >> op.kind >> op.addr >> op.len >> op.size;
      g_ctrl[c].ch[h].phases.back().push_back(op);
    }
  }
}
static unsigned long long now() { return (unsigned long long)sc_time_stamp().value(); }
template <int W> std::string hex(const sc_bv<W> &v) {
  std::string s;
  for (int i = (W + 3) / 4 - 1; i >= 0; i--) {
    int x = 0;
    for (int b = 0; b < 4; b++)
      if (4 * i + b < W && v[4 * i + b] == '1') x |= 1 << b;
    if (s.empty() && x == 0 && i > 0) continue;
    s.push_back("0123456789abcdef"[x]);
  }
  return s;
}

memd_requester::memd_requester(const sc_module_name &n, int c_, int ch_, int dw, const memd_chan &d_)
    : sc_module(n), c(c_), ch(ch_), dataw(dw), d(d_) {
  SC_CTHREAD(Tick, clk.pos());
  reset_signal_is(rst, true);
}

void memd_requester::Tick() {
  rng_t r{(uint64_t)(g_seed * 7919 + c * 131 + ch)};
  long gaw = d.o("gaw", 0), gw = d.o("gw", 0), gar = d.o("gar", 0), stall = d.o("stall", 0), mode = d.o("mode", 1),
       wlead = d.o("wlead", 0);
  mm.Reset();
  size_t ph = 0, wi = 0, ri = 0, di = 0; // next write address, read address, write data burst
  long beat = 0, naw = 0, nwb = 0, exp_b = 0, exp_r = 0, uid = 0, wseq = 0;
  std::vector<const memd_op *> W, R;
  std::vector<long> wu, ru;
  bool aw = false, w = false, ar = false, rv = false, rr = false, bv = false, br = false;
  long rh = 0, bh = 0;
  std::string pr, pb;
  auto enter = [&]() {
    W.clear(); R.clear(); wu.clear(); ru.clear();
    wi = ri = di = 0; beat = 0; naw = nwb = 0;
    for (auto &o : d.phases[ph])
      if (o.kind == 'W') { W.push_back(&o); wu.push_back(++uid); exp_b++; }
      else { R.push_back(&o); ru.push_back(++uid); exp_r += o.len + 1; }
  };
  auto user = [&](long id) { return (uint64_t)(((uint64_t)(c * 64 + ch + 1) << 48) | 0xa500000000ULL | (uint64_t)id); };
  wait();
  if (ph < d.phases.size()) enter();
  while (true) {
    if (aw && mm.awvalid.read() && mm.awready.read()) {
      g_n++, fprintf(lg, "AW %d %d %llu %lx %lx %d\n", c, ch, now(), (long)user(wu[wi]), (long)W[wi]->addr, W[wi]->len);
      wi++; naw++; aw = false;
    }
    if (w && mm.wvalid.read() && mm.wready.read()) {
      g_n++, fprintf(lg, "W %d %d %llu %lx %d %s\n", c, ch, now(), (long)user(wu[di]), beat == W[di]->len, hex<AXI4_MAX_DATAW>(mm.wdata.read()).c_str());
      w = false;
      if (++beat > W[di]->len) { beat = 0; di++; nwb++; }
    }
    if (ar && mm.arvalid.read() && mm.arready.read()) {
      g_n++, fprintf(lg, "AR %d %d %llu %lx %lx %d\n", c, ch, now(), (long)user(ru[ri]), (long)R[ri]->addr, R[ri]->len);
      ri++; ar = false;
    }
    {
      bool v = mm.rvalid.read(), rd = mm.rready.read();
      std::string t;
      if (v) t = hex<AXI4_USERW>(mm.ruser.read()) + (mm.rlast.read() ? " 1 " : " 0 ") + hex<AXI4_MAX_DATAW>(mm.rdata.read());
      if (rv && !rr && (!v || t != pr)) g_n++, fprintf(lg, "V %d %d %llu R %s\n", c, ch, now(), v ? "payload" : "valid");
      if (rv && !rr) g_n++, fprintf(lg, "H %d %d %llu\n", c, ch, now());
      if (v && rd) { g_n++, fprintf(lg, "R %d %d %llu %s\n", c, ch, now(), t.c_str()); exp_r--; }
      rv = v; rr = rd; pr = t;
      v = mm.bvalid.read(); rd = mm.bready.read();
      t = v ? hex<AXI4_USERW>(mm.buser.read()) : "";
      if (bv && !br && (!v || t != pb)) g_n++, fprintf(lg, "V %d %d %llu B %s\n", c, ch, now(), v ? "payload" : "valid");
      if (bv && !br) g_n++, fprintf(lg, "H %d %d %llu\n", c, ch, now());
      if (v && rd) { g_n++, fprintf(lg, "B %d %d %llu %s\n", c, ch, now(), t.c_str()); exp_b--; }
      bv = v; br = rd; pb = t;
    }
    if (ph < d.phases.size() && wi == W.size() && di == W.size() && ri == R.size() && exp_b <= 0 && exp_r <= 0) {
      ph++;
      if (ph < d.phases.size()) enter();
    }
    done = ph >= d.phases.size();
    if (!done) {
      if (!aw && wi < W.size() && !(gaw && r.chance(gaw))) {
        mm.awaddr.write(W[wi]->addr); mm.awlen.write(W[wi]->len); mm.awsize.write(W[wi]->size); mm.awburst.write(1);
        mm.awid.write(uid & 0xff); mm.awuser.write(user(wu[wi])); mm.awvalid.write(true);
        aw = true;
      } else if (!aw) mm.awvalid.write(false);
      // data of a burst may lead its address by wlead bursts
      if (!w && di < W.size() && (long)di < (long)wi + wlead && !(gw && r.chance(gw))) {
        sc_bv<AXI4_MAX_DATAW> x = 0;
        for (int lo = 0; lo < dataw; lo += 32) x.range(std::min(lo + 31, dataw - 1), lo) = (unsigned)(r.below(6) ? r.next() : 0);
        x.range(31, 0) = (unsigned)++wseq;
        x.range(dataw - 1, dataw - 8) = (unsigned)(c * 32 + ch + 1);
        mm.wdata.write(x); mm.wlast.write(beat == W[di]->len); mm.wuser.write(user(wu[di])); mm.wid.write(0); mm.wvalid.write(true);
        w = true;
      } else if (!w) mm.wvalid.write(false);
      if (!ar && ri < R.size() && !(gar && r.chance(gar))) {
        mm.araddr.write(R[ri]->addr); mm.arlen.write(R[ri]->len); mm.arsize.write(R[ri]->size); mm.arburst.write(1);
        mm.arid.write(uid & 0xff); mm.aruser.write(user(ru[ri])); mm.arvalid.write(true);
        ar = true;
      } else if (!ar) mm.arvalid.write(false);
    } else { mm.awvalid.write(false); mm.wvalid.write(false); mm.arvalid.write(false); }
    if (rh > 0) rh--; else if (stall && r.chance(stall)) rh = 1 + r.below(mode);
    if (bh > 0) bh--; else if (stall && r.chance(stall)) bh = 1 + r.below(mode);
    mm.rready.write(rh == 0);
    mm.bready.write(bh == 0);
    wait();
  }
}

memd_system::memd_system(const sc_module_name &n, sc_clock *drv, RADSimDesignContext *rad) : sc_module(n) {
  load();
  design_dut_inst = nullptr;
  for (auto &kv : g_ctrl) {
    std::string nm = "ctrl" + std::to_string(kv.first);
    auto *m = new mem_controller(nm.c_str(), kv.first, rad, kv.second.init);
    auto *ck = new sc_clock((nm + "_clk").c_str(), kv.second.period, SC_NS);
    m->clk(*ck);
    m->mem_clk(*ck);
    m->rst(rst);
    ctrls.push_back(m);
    g_n++, fprintf(lg, "C %d %u %u %u\n", kv.first, m->GetNumChannels(), m->GetMemCapacity(), m->GetAddressableWordSize());
    for (unsigned h = 0; h < m->GetNumChannels(); h++) {
      auto *q = new memd_requester((nm + "_req" + std::to_string(h)).c_str(), kv.first, h, m->GetAddressableWordSize() * 8, kv.second.ch[h]);
      q->clk(*ck);
      q->rst(rst);
      reqs.push_back(q);
      (new aximm_signal())->Connect(q->mm, m->mem_channels[h]);
    }
  }
  auto *d = new memd_driver("driver", rad, reqs);
  d->clk(*drv);
  d->rst(rst);
}
memd_system::~memd_system() { for (auto *m : ctrls) delete m; fclose(lg); }
memd_driver::memd_driver(const sc_module_name &n, RADSimDesignContext *r, const std::vector<memd_requester *> &q) : sc_module(n), rad(r), reqs(q) {
  SC_CTHREAD(Drive, clk.pos());
}
void memd_driver::Drive() {
  rst.write(true);
  for (long i = 0; i < g_rst; i++) wait();
  rst.write(false);
  wait();
  long quiet = 0, cyc = 0, seen = -1, idle = 0;
  while (quiet < g_drain && cyc < g_maxcyc) {
    cyc++;
    idle = g_n == seen ? idle + 1 : 0;
    seen = g_n;
    if (idle > 40000) break;  // nothing will come any more
    bool d = true;
    for (auto *q : reqs) d = d && q->done;
    if (d) quiet++;
    wait();
  }
  fprintf(lg, "E %llu %s\n", now(), quiet >= g_drain ? "done" : "timeout");
  fflush(lg);
  rad->set_rad_done();
  while (true) wait();
}
