#include <vt_modules.hpp>

vt_scenario &vt_scenario::get() {
  static vt_scenario sc;
  static bool loaded = false;
  if (loaded) return sc;
  loaded = true;
  const char *p = getenv("VT_SCENARIO");
  std::ifstream f(p ? p : "scenario.txt");
  if (!f) { fprintf(stderr, "vt: no scenario\n"); exit(77); }
  std::string line;
  while (std::getline(f, line)) {
    std::istringstream ss(line);
    std::string k;
    if (!(ss >> k)) continue;
    if (k == "seed") ss >> sc.seed;
    else if (k == "maxcyc") ss >> sc.maxcyc;
    else if (k == "drain") ss >> sc.drain;
    else if (k == "rstcyc") ss >> sc.rstcyc;
    else if (k == "idle") ss >> sc.idle;
    else if (k == "ender") ss >> sc.ender;
    else if (k == "fin") { // fin <rad> <cycle, -1: as the ender> [cycles of failures ...]
      int rad; long c; ss >> rad; ss >> sc.fins[rad].cycle;
      while (ss >> c) sc.fins[rad].fails.push_back(c);
    }
    else if (k == "module") { // module <rad> <kind> <name> [opt=val ...]
      vt_module m; ss >> m.rad >> m.kind >> m.name;
      std::string o;
      while (ss >> o) { auto e = o.find('='); m.opt[o.substr(0, e)] = o.substr(e + 1); }
      sc.modules.push_back(m);
    } else if (k == "port") { // port <rad> <module> m|s <name> <dataw> <type>
      int rad; std::string mod, dir; vt_port p; ss >> rad >> mod >> dir >> p.name >> p.dataw >> p.type;
      for (auto &m : sc.modules)
        if (m.rad == rad && m.name == mod) (dir == "m" ? m.masters : m.slaves).push_back(p);
    } else if (k == "flow") {
      vt_flow fl; ss >> fl.src_rad >> fl.src >> fl.dst_rad >> fl.dst >> fl.count;
      sc.flows.push_back(fl);
    } else if (k == "opt") { // opt <rad> <port> key=val ...
      int rad; std::string port, o; ss >> rad >> port;
      while (ss >> o) {
        auto e = o.find('=');
        sc.portopt[std::to_string(rad) + "/" + port][o.substr(0, e)] = atol(o.c_str() + e + 1);
      }
    } else if (k == "op") { // op <rad> <port> R|W <dst> <addr> <len> <size> <burst> <id>
      int rad; std::string port; vt_op op;
      ss >> rad >> port >> op.kind >> op.dst >> op.addr >> op.len >> op.size >> op.burst >> op.id;
      sc.ops[std::to_string(rad) + "/" + port].push_back(op);
    }
  }
  return sc;
}

vt_log &vt_log::get() {
  static vt_log l;
  if (!l.f) {
    const char *p = getenv("VT_LOG");
    l.f = fopen(p ? p : "events.log", "w");
    setvbuf(l.f, nullptr, _IOFBF, 1 << 20);
  }
  return l;
}
void vt_log::ev(const char *fmt, ...) {
  va_list ap;
  va_start(ap, fmt);
  vfprintf(f, fmt, ap);
  va_end(ap);
  fputc('\n', f);
}

// global placement of ports of every RAD (filled in by vt_top)
std::map<std::string, std::pair<unsigned, unsigned>> vt_placed;

static sc_bv<AXIS_DESTW> dest_bits(int rad, int my_rad, unsigned node) {
  sc_bv<AXIS_DESTW> d = 0;
  DEST_RAD(d) = (unsigned)rad;
  if (rad == my_rad) DEST_LOCAL_NODE(d) = node;
  DEST_REMOTE_NODE(d) = node;
  return d;
}

// ------------------------------------------------------------------ AXI-S
vt_axis::vt_axis(const sc_module_name &name, RADSimDesignContext *d, const vt_module &desc_)
    : RADSimModule(name, d), radsim_design(d), desc(desc_), rst("rst") {
  auto &sc = vt_scenario::get();
  for (auto &p : desc.masters) {
    m.push_back(new axis_master_port());
    mstate st;
    st.r = vt_rng(vt_hash(p.name, sc.seed * 131 + desc.rad));
    for (auto &f : sc.flows)
      if (f.src_rad == desc.rad && f.src == p.name) { st.flows.push_back({f, f.count}); st.left += f.count; }
    st.gap = sc.opt(desc.rad, p.name, "gap", 0);
    st.burst = sc.opt(desc.rad, p.name, "burst", 1);
    st.start = sc.opt(desc.rad, p.name, "start", 0);
    vt_log::get().expected += 2 * st.left;
    ms.push_back(st);
  }
  for (auto &p : desc.slaves) {
    s.push_back(new axis_slave_port());
    sstate st;
    st.r = vt_rng(vt_hash(p.name, sc.seed * 977 + desc.rad));
    st.stall = sc.opt(desc.rad, p.name, "stall", 0);
    st.mode = sc.opt(desc.rad, p.name, "mode", 0);
    ss.push_back(st);
  }
  SC_CTHREAD(Tick, clk.pos());
  reset_signal_is(rst, true);
  this->RegisterModuleInfo();
}

void vt_axis::RegisterModuleInfo() {
  for (unsigned i = 0; i < desc.masters.size(); i++)
    RegisterAxisMasterPort(desc.masters[i].name, m[i], desc.masters[i].dataw, desc.masters[i].type);
  for (unsigned i = 0; i < desc.slaves.size(); i++)
    RegisterAxisSlavePort(desc.slaves[i].name, s[i], desc.slaves[i].dataw, desc.slaves[i].type);
}

vt_axis::pkt vt_axis::make(unsigned p) {
  mstate &st = ms[p];
  pkt k;
  uint64_t pick = st.r.below(st.left);
  for (auto &f : st.flows) {
    if ((long)pick < f.second) {
      f.second--;
      st.left--;
      auto pl = vt_placed.at(std::to_string(f.first.dst_rad) + "/" + f.first.dst);
      k.dst = f.first.dst;
      k.dst_rad = f.first.dst_rad;
      k.dest = dest_bits(f.first.dst_rad, desc.rad, pl.first);
      k.id = pl.second;
      break;
    }
    pick -= f.second;
  }
  // Sparse, dense and random payloads
  switch (st.r.below(8)) {
  case 0: k.data = 0; k.user = 0; break;
  case 1:
    k.data = 0;
    k.data.range(desc.masters[p].dataw - 1, 0) = ~sc_bv<AXIS_MAX_DATAW>(0).range(desc.masters[p].dataw - 1, 0);
    k.user = ~sc_bv<AXIS_USERW>(0);
    break;
  default:
    k.data = vt_rand<AXIS_MAX_DATAW>(st.r, desc.masters[p].dataw);
    k.user = vt_rand<AXIS_USERW>(st.r, AXIS_USERW);
  }
  // the low user bits identify the packet: source number and sequence number
  uint64_t tag = ((uint64_t)desc.num("src" + std::to_string(p), 0) << 20) | (st.seq++ & 0xfffff);
  k.user.range(std::min(AXIS_USERW, 32) - 1, 0) = (unsigned)tag;
  k.last = st.r.chance(128);
  return k;
}

void vt_axis::Tick() {
  auto &log = vt_log::get();
  for (auto *p : m) p->Reset();
  for (auto *p : s) p->tready.write(false);
  for (auto &st : ms) st.busy = false;
  for (auto &st : ss) { st.wasv = st.wasr = false; }
  wait();
  long cyc = 0;
  while (true) {
    cyc++;
    for (unsigned p = 0; p < m.size(); p++) {
      mstate &st = ms[p];
      if (st.busy && m[p]->tvalid.read() && m[p]->tready.read()) {
        log.observed++;
        log.ev("S %d %llu %s %d %s %s %s %d %x %x", desc.rad, vt_now(), desc.masters[p].name.c_str(),
               st.cur.dst_rad, st.cur.dst.c_str(), vt_hex<AXIS_MAX_DATAW>(st.cur.data).c_str(),
               vt_hex<AXIS_USERW>(st.cur.user).c_str(), (int)st.cur.last, st.cur.dest.to_uint(), st.cur.id.to_uint());
        st.busy = false;
      }
      if (!st.busy) {
        bool go = st.left > 0 && cyc > st.start;
        if (go && st.burst > 0) st.burst--;
        else if (go && st.gap && st.r.chance(st.gap)) go = false;
        else if (go) st.burst = vt_scenario::get().opt(desc.rad, desc.masters[p].name, "burst", 1);
        if (go) {
          st.cur = make(p);
          st.busy = true;
          m[p]->tdata.write(st.cur.data);
          m[p]->tuser.write(st.cur.user);
          m[p]->tlast.write(st.cur.last);
          m[p]->tdest.write(st.cur.dest);
          m[p]->tid.write(st.cur.id);
          m[p]->tvalid.write(true);
        } else
          m[p]->tvalid.write(false);
      }
    }
    for (unsigned p = 0; p < s.size(); p++) {
      sstate &st = ss[p];
      bool v = s[p]->tvalid.read(), r = s[p]->tready.read();
      std::string now;
      if (v)
        now = vt_hex<AXIS_MAX_DATAW>(s[p]->tdata.read()) + " " + vt_hex<AXIS_USERW>(s[p]->tuser.read()) + " " +
              (s[p]->tlast.read() ? "1 " : "0 ") + vt_hex<AXIS_DESTW>(s[p]->tdest.read()) + " " +
              vt_hex<AXIS_IDW>(s[p]->tid.read());
      if (st.wasv && !st.wasr) { // offered and not taken: must still be offered, unchanged
        if (!v) log.ev("V %d %llu %s axis-valid-dropped", desc.rad, vt_now(), desc.slaves[p].name.c_str());
        else if (now != st.prev)
          log.ev("V %d %llu %s axis-payload-changed %s -> %s", desc.rad, vt_now(), desc.slaves[p].name.c_str(),
                 st.prev.c_str(), now.c_str());
        else
          log.ev("H %d %llu %s", desc.rad, vt_now(), desc.slaves[p].name.c_str());
      }
      if (v && r) {
        log.observed++;
        log.ev("R %d %llu %s %s", desc.rad, vt_now(), desc.slaves[p].name.c_str(), now.c_str());
        vt_telemetry(desc.rad, desc.slaves[p].name);
      }
      st.wasv = v;
      st.wasr = r;
      st.prev = now;
      if (st.hold > 0) st.hold--;
      else if (st.stall && st.r.chance(st.stall)) st.hold = 1 + st.r.below(st.mode ? st.mode : 1);
      s[p]->tready.write(st.hold == 0);
    }
    wait();
  }
}

// ------------------------------------------------------------ AXI-MM requester
vt_mmm::vt_mmm(const sc_module_name &name, RADSimDesignContext *d, const vt_module &desc_)
    : RADSimModule(name, d), radsim_design(d), desc(desc_), rst("rst") {
  auto &sc = vt_scenario::get();
  for (auto &o : sc.ops[std::to_string(desc.rad) + "/" + desc.masters[0].name]) {
    bool mem = o.dst.find("mem_channel") != std::string::npos;
    if (o.kind == 'R') vt_log::get().expected += (mem ? 0 : 1) + (o.len + 1);
    else vt_log::get().expected += (mem ? 0 : 1 + (o.len + 1)) + 1;
  }
  SC_CTHREAD(Tick, clk.pos());
  reset_signal_is(rst, true);
  this->RegisterModuleInfo();
}
void vt_mmm::RegisterModuleInfo() {
  RegisterAximmMasterPort(desc.masters[0].name, &mm, desc.masters[0].dataw);
}
void vt_mmm::Tick() {
  auto &log = vt_log::get();
  auto &sc = vt_scenario::get();
  const std::string &pn = desc.masters[0].name;
  const char *pc = pn.c_str();
  int dataw = desc.masters[0].dataw;
  std::deque<std::pair<long, vt_op>> rq, wq;
  {
    long i = 0;
    for (auto &o : sc.ops[std::to_string(desc.rad) + "/" + pn]) (o.kind == 'R' ? rq : wq).push_back({i, o}), i++;
  }
  vt_rng r(vt_hash(pn, sc.seed * 31 + desc.rad));
  long gap = sc.opt(desc.rad, pn, "gap", 0), stall = sc.opt(desc.rad, pn, "stall", 0),
       mode = sc.opt(desc.rad, pn, "mode", 1), serial = sc.opt(desc.rad, pn, "serial", 0),
       maxout = sc.opt(desc.rad, pn, "maxout", 1000000), rare = sc.opt(desc.rad, pn, "rawuser", 0);
  long outstanding = 0, next_op = 0, rhold = 0, bhold = 0;
  bool ar_busy = false, aw_busy = false, w_busy = false;
  vt_op cur_w;
  long cur_w_idx = -1, beats_left = 0, w_total = 0;
  std::string pr, pb;
  bool rwv = false, rwr = false, bwv = false, bwr = false;
  uint64_t mybase;
  {
    std::string n = pn;
    mybase = radsim_design->GetPortBaseAddress(n);
  }
  // one tag per operation; the requester's base address routes the response
  auto user_of = [&](long idx, int rad) {
    sc_bv<AXI4_USERW> u = 0;
    u = (uint64_t)(mybase | (((uint64_t)desc.num("src0", 0)) << 24) | (uint64_t)idx);
    (void)rad; (void)rare;
    return u;
  };
  mm.Reset();
  wait();
  while (true) {
    // AR
    if (ar_busy && mm.arvalid.read() && mm.arready.read()) {
      auto &o = rq.front();
      log.ev("SAR %d %llu %s %s %ld %s %x %d %d %d %s", desc.rad, vt_now(), pc, o.second.dst.c_str(), o.first,
             vt_hex<AXI4_ADDRW>(mm.araddr.read()).c_str(), o.second.id, o.second.len, o.second.size, o.second.burst,
             vt_hex<AXI4_USERW>(mm.aruser.read()).c_str());
      rq.pop_front();
      ar_busy = false;
      outstanding++;
      next_op++;
    }
    if (!ar_busy) {
      bool can = !rq.empty() && outstanding < maxout && (!serial || (rq.front().first == next_op && outstanding == 0));
      if (can && gap && r.chance(gap)) can = false;
      if (can) {
        auto &o = rq.front();
        std::string d = o.second.dst;
        mm.araddr.write(sc_bv<AXI4_ADDRW>((uint64_t)(radsim_design->GetPortBaseAddress(d) + o.second.addr)));
        mm.arid.write(o.second.id);
        mm.arlen.write(o.second.len);
        mm.arsize.write(o.second.size);
        mm.arburst.write(o.second.burst);
        mm.aruser.write(user_of(o.first, desc.rad));
        mm.arvalid.write(true);
        ar_busy = true;
      } else
        mm.arvalid.write(false);
    }
    // AW, then W beats
    if (aw_busy && mm.awvalid.read() && mm.awready.read()) {
      log.ev("SAW %d %llu %s %s %ld %s %x %d %d %d %s", desc.rad, vt_now(), pc, cur_w.dst.c_str(), cur_w_idx,
             vt_hex<AXI4_ADDRW>(mm.awaddr.read()).c_str(), cur_w.id, cur_w.len, cur_w.size, cur_w.burst,
             vt_hex<AXI4_USERW>(mm.awuser.read()).c_str());
      aw_busy = false;
      outstanding++;
      next_op++;
    }
    if (w_busy && mm.wvalid.read() && mm.wready.read()) {
      log.ev("SW %d %llu %s %s %ld %ld %x %s %d %s", desc.rad, vt_now(), pc, cur_w.dst.c_str(), cur_w_idx,
             w_total - beats_left, cur_w.id, vt_hex<AXI4_MAX_DATAW>(mm.wdata.read()).c_str(),
             (int)mm.wlast.read(), vt_hex<AXI4_USERW>(mm.wuser.read()).c_str());
      w_busy = false;
      beats_left--;
    }
    bool pipelined = sc.opt(desc.rad, pn, "awahead", 0); // next AW may go before the current burst's data is done
    if (!aw_busy) {
      bool can = !wq.empty() && beats_left == 0 && !w_busy && outstanding < maxout &&
                 (!serial || (wq.front().first == next_op && outstanding == 0));
      (void)pipelined;
      if (can && gap && r.chance(gap)) can = false;
      if (can) {
        cur_w_idx = wq.front().first;
        cur_w = wq.front().second;
        wq.pop_front();
        beats_left = w_total = cur_w.len + 1;
        std::string d = cur_w.dst;
        mm.awaddr.write(sc_bv<AXI4_ADDRW>((uint64_t)(radsim_design->GetPortBaseAddress(d) + cur_w.addr)));
        mm.awid.write(cur_w.id);
        mm.awlen.write(cur_w.len);
        mm.awsize.write(cur_w.size);
        mm.awburst.write(cur_w.burst);
        mm.awuser.write(user_of(cur_w_idx, desc.rad));
        mm.awvalid.write(true);
        aw_busy = true;
      } else
        mm.awvalid.write(false);
    }
    if (!w_busy) {
      bool early = sc.opt(desc.rad, pn, "wearly", 0); // offer data together with the address
      bool can = beats_left > 0 && (early || !aw_busy);
      if (can && gap && r.chance(gap)) can = false;
      if (can) {
        sc_bv<AXI4_MAX_DATAW> data = vt_rand<AXI4_MAX_DATAW>(r, dataw);
        if (r.below(8) == 0) data = 0;
        // make every written word distinct
        data.range(std::min(dataw, 32) - 1, 0) =
            (unsigned)((desc.num("src0", 0) << 24) | ((cur_w_idx & 0xffff) << 8) | ((w_total - beats_left) & 0xff));
        mm.wdata.write(data);
        mm.wid.write(cur_w.id);
        mm.wlast.write(beats_left == 1);
        mm.wuser.write(user_of(cur_w_idx, desc.rad));
        mm.wvalid.write(true);
        w_busy = true;
      } else
        mm.wvalid.write(false);
    }
    // R and B
    {
      bool v = mm.rvalid.read(), rd = mm.rready.read();
      std::string now;
      if (v)
        now = vt_hex<AXI4_IDW>(mm.rid.read()) + " " + vt_hex<AXI4_MAX_DATAW>(mm.rdata.read()) + " " +
              vt_hex<AXI4_RESPW>(mm.rresp.read()) + " " + (mm.rlast.read() ? "1 " : "0 ") +
              vt_hex<AXI4_USERW>(mm.ruser.read());
      if (rwv && !rwr) {
        if (!v) log.ev("V %d %llu %s r-valid-dropped", desc.rad, vt_now(), pc);
        else if (now != pr) log.ev("V %d %llu %s r-payload-changed %s -> %s", desc.rad, vt_now(), pc, pr.c_str(), now.c_str());
        else log.ev("H %d %llu %s", desc.rad, vt_now(), pc);
      }
      if (v && rd) {
        log.observed++;
        log.ev("RR %d %llu %s %s", desc.rad, vt_now(), pc, now.c_str());
        if (mm.rlast.read()) outstanding--;
      }
      rwv = v; rwr = rd; pr = now;
    }
    {
      bool v = mm.bvalid.read(), rd = mm.bready.read();
      std::string now;
      if (v)
        now = vt_hex<AXI4_IDW>(mm.bid.read()) + " " + vt_hex<AXI4_RESPW>(mm.bresp.read()) + " " +
              vt_hex<AXI4_USERW>(mm.buser.read());
      if (bwv && !bwr) {
        if (!v) log.ev("V %d %llu %s b-valid-dropped", desc.rad, vt_now(), pc);
        else if (now != pb) log.ev("V %d %llu %s b-payload-changed %s -> %s", desc.rad, vt_now(), pc, pb.c_str(), now.c_str());
        else log.ev("H %d %llu %s", desc.rad, vt_now(), pc);
      }
      if (v && rd) {
        log.observed++;
        log.ev("RB %d %llu %s %s", desc.rad, vt_now(), pc, now.c_str());
        outstanding--;
      }
      bwv = v; bwr = rd; pb = now;
    }
    if (rhold > 0) rhold--;
    else if (stall && r.chance(stall)) rhold = 1 + r.below(mode);
    if (bhold > 0) bhold--;
    else if (stall && r.chance(stall)) bhold = 1 + r.below(mode);
    mm.rready.write(rhold == 0);
    mm.bready.write(bhold == 0);
    wait();
  }
}

// ------------------------------------------------------------ AXI-MM responder
vt_mms::vt_mms(const sc_module_name &name, RADSimDesignContext *d, const vt_module &desc_)
    : RADSimModule(name, d), radsim_design(d), desc(desc_), rst("rst") {
  SC_CTHREAD(Tick, clk.pos());
  reset_signal_is(rst, true);
  this->RegisterModuleInfo();
}
void vt_mms::RegisterModuleInfo() {
  RegisterAximmSlavePort(desc.slaves[0].name, &mm, desc.slaves[0].dataw);
}
void vt_mms::Tick() {
  auto &log = vt_log::get();
  auto &sc = vt_scenario::get();
  const std::string &pn = desc.slaves[0].name;
  const char *pc = pn.c_str();
  int dataw = desc.slaves[0].dataw;
  vt_rng r(vt_hash(pn, sc.seed * 57 + desc.rad));
  long gap = sc.opt(desc.rad, pn, "gap", 0), stall = sc.opt(desc.rad, pn, "stall", 0), mode = sc.opt(desc.rad, pn, "mode", 1);
  struct rb { sc_bv<AXI4_IDW> id; sc_bv<AXI4_USERW> user; bool last; };
  struct aw { sc_bv<AXI4_IDW> id; sc_bv<AXI4_USERW> user; };
  std::deque<rb> rq, bq;
  std::map<std::string, std::deque<aw>> open; // by requester tag: data bursts of different requesters interleave
  bool r_busy = false, b_busy = false;
  long hold[3] = {0, 0, 0};
  bool wv[3] = {false, false, false}, wr[3] = {false, false, false};
  std::string prev[3];
  const char *chn[3] = {"ar", "aw", "w"};
  mm.Reset();
  wait();
  while (true) {
    // requests
    for (int c = 0; c < 3; c++) {
      bool v = c == 0 ? mm.arvalid.read() : c == 1 ? mm.awvalid.read() : mm.wvalid.read();
      bool rd = c == 0 ? mm.arready.read() : c == 1 ? mm.awready.read() : mm.wready.read();
      std::string now;
      if (v && c == 0)
        now = vt_hex<AXI4_ADDRW>(mm.araddr.read()) + " " + vt_hex<AXI4_IDW>(mm.arid.read()) + " " +
              std::to_string(mm.arlen.read().to_uint()) + " " + std::to_string(mm.arsize.read().to_uint()) + " " +
              std::to_string(mm.arburst.read().to_uint()) + " " + vt_hex<AXI4_USERW>(mm.aruser.read());
      if (v && c == 1)
        now = vt_hex<AXI4_ADDRW>(mm.awaddr.read()) + " " + vt_hex<AXI4_IDW>(mm.awid.read()) + " " +
              std::to_string(mm.awlen.read().to_uint()) + " " + std::to_string(mm.awsize.read().to_uint()) + " " +
              std::to_string(mm.awburst.read().to_uint()) + " " + vt_hex<AXI4_USERW>(mm.awuser.read());
      if (v && c == 2)
        now = vt_hex<AXI4_IDW>(mm.wid.read()) + " " + vt_hex<AXI4_MAX_DATAW>(mm.wdata.read()) + " " +
              (mm.wlast.read() ? "1 " : "0 ") + vt_hex<AXI4_USERW>(mm.wuser.read());
      if (wv[c] && !wr[c]) {
        if (!v) log.ev("V %d %llu %s %s-valid-dropped", desc.rad, vt_now(), pc, chn[c]);
        else if (now != prev[c])
          log.ev("V %d %llu %s %s-payload-changed %s -> %s", desc.rad, vt_now(), pc, chn[c], prev[c].c_str(), now.c_str());
        else log.ev("H %d %llu %s", desc.rad, vt_now(), pc);
      }
      if (v && rd) {
        log.observed++;
        log.ev("R%s %d %llu %s %s", c == 0 ? "AR" : c == 1 ? "AW" : "W", desc.rad, vt_now(), pc, now.c_str());
        if (c == 0) {
          int n = mm.arlen.read().to_uint() + 1;
          for (int i = 0; i < n; i++) rq.push_back({mm.arid.read(), mm.aruser.read(), i == n - 1});
        } else if (c == 1) {
          open[vt_hex<AXI4_USERW>(mm.awuser.read())].push_back({mm.awid.read(), mm.awuser.read()});
        } else if (mm.wlast.read()) {
          bq.push_back({mm.wid.read(), mm.wuser.read(), true});
        }
      }
      wv[c] = v; wr[c] = rd; prev[c] = now;
      if (hold[c] > 0) hold[c]--;
      else if (stall && r.chance(stall)) hold[c] = 1 + r.below(mode);
    }
    mm.arready.write(hold[0] == 0);
    mm.awready.write(hold[1] == 0);
    mm.wready.write(hold[2] == 0);
    // responses
    if (r_busy && mm.rvalid.read() && mm.rready.read()) {
      log.ev("SR %d %llu %s %s %s %s %d %s", desc.rad, vt_now(), pc, vt_hex<AXI4_IDW>(mm.rid.read()).c_str(),
             vt_hex<AXI4_MAX_DATAW>(mm.rdata.read()).c_str(), vt_hex<AXI4_RESPW>(mm.rresp.read()).c_str(),
             (int)mm.rlast.read(), vt_hex<AXI4_USERW>(mm.ruser.read()).c_str());
      rq.pop_front();
      r_busy = false;
    }
    if (!r_busy) {
      if (!rq.empty() && !(gap && r.chance(gap))) {
        mm.rid.write(rq.front().id);
        mm.rdata.write(vt_rand<AXI4_MAX_DATAW>(r, dataw));
        mm.rresp.write(vt_rand<AXI4_RESPW>(r, AXI4_RESPW));
        mm.rlast.write(rq.front().last);
        mm.ruser.write(rq.front().user);
        mm.rvalid.write(true);
        r_busy = true;
      } else
        mm.rvalid.write(false);
    }
    if (b_busy && mm.bvalid.read() && mm.bready.read()) {
      log.ev("SB %d %llu %s %s %s %s", desc.rad, vt_now(), pc, vt_hex<AXI4_IDW>(mm.bid.read()).c_str(),
             vt_hex<AXI4_RESPW>(mm.bresp.read()).c_str(), vt_hex<AXI4_USERW>(mm.buser.read()).c_str());
      bq.pop_front();
      b_busy = false;
    }
    if (!b_busy) {
      if (!bq.empty() && !(gap && r.chance(gap))) {
        mm.bid.write(bq.front().id);
        mm.bresp.write(vt_rand<AXI4_RESPW>(r, AXI4_RESPW));
        mm.buser.write(bq.front().user);
        mm.bvalid.write(true);
        b_busy = true;
      } else
        mm.bvalid.write(false);
    }
    wait();
  }
}
