#include <vt_system.hpp>
#ifdef VT_MEM
#include <mem_controller.hpp>
#endif

extern std::map<std::string, std::pair<unsigned, unsigned>> vt_placed;

vt_driver::vt_driver(const sc_module_name &name, RADSimDesignContext *d) : sc_module(name), radsim_design(d) {
  SC_CTHREAD(run, clk.pos());
#ifndef SINGLE_RAD
  SC_CTHREAD(tap, clk.pos());
#endif
}
#ifndef SINGLE_RAD
// What crosses the boundary between this RAD's portal and the inter-RAD network, every cycle.
void vt_driver::tap() {
  auto &log = vt_log::get();
  auto &o = top->design_top_portal_axis_master;
  auto &i = top->design_top_portal_axis_slave;
  int me = (int)radsim_design->rad_id;
  unsigned long long c = 0;
  while (true) {
    if (o.tvalid.read() && o.tready.read())
      log.ev("XO %d %llu %u %s %s %d", me, c, (unsigned)DEST_RAD(o.tdest.read()).to_uint(), vt_hex<AXIS_MAX_DATAW>(o.tdata.read()).c_str(),
             vt_hex<AXIS_USERW>(o.tuser.read()).c_str(), (int)o.tlast.read());
    else if (o.tvalid.read())
      log.ev("XH %d %llu", me, c);
    if (i.tvalid.read())
      log.ev("XI %d %llu %u %s %s %d", me, c, (unsigned)DEST_RAD(i.tdest.read()).to_uint(), vt_hex<AXIS_MAX_DATAW>(i.tdata.read()).c_str(),
             vt_hex<AXIS_USERW>(i.tuser.read()).c_str(), (int)i.tlast.read());
    c++;
    wait();
  }
}
#endif
void vt_driver::run() {
  auto &sc = vt_scenario::get();
  auto &log = vt_log::get();
  rst.write(true);
  for (long i = 0; i < sc.rstcyc; i++) wait();
  rst.write(false);
  wait();
  long cyc = 0, quiet = 0, seen = -1, same = 0;
  auto fin = sc.fins.count(radsim_design->rad_id) ? sc.fins[radsim_design->rad_id] : vt_scenario::fin();
  while (cyc < sc.maxcyc && quiet < sc.drain) {
    if (fin.cycle >= 0 && cyc >= fin.cycle) break;
    for (long c : fin.fails)
      if (c == cyc) radsim_design->ReportDesignFailure();
    cyc++;
    same = log.observed == seen ? same + 1 : 0;
    seen = log.observed;
    if (sc.idle && same > sc.idle) break;  // nothing will come any more
    if (log.observed >= log.expected) quiet++;
    wait();
  }
  for (long c : fin.fails)
    if (c >= cyc) radsim_design->ReportDesignFailure();
  if ((int)radsim_design->rad_id == sc.ender) {
    log.ev("E %llu %s %ld %ld", vt_now(), quiet >= sc.drain ? "done" : "timeout", log.observed, log.expected);
    fflush(log.f);
    if (getenv("VT_STATS")) NoCTransactionTelemetry::DumpStatsToFile("stats.csv");
  }
  if (getenv("VT_STATS")) {
    unsigned r = radsim_design->rad_id;
    unsigned cycles = (unsigned)GetSimulationCycle();
    auto bw = NoCTransactionTelemetry::DumpTrafficFlows("flows" + std::to_string(r), cycles, radsim_design->GetNodeModuleNames(), r);
    for (unsigned i = 0; i < bw.size(); i++) log.ev("F %u %u %u %.9g", r, i, cycles, bw[i]);
    fflush(log.f);
  }
  if (!sc.fins.empty()) {
    log.ev("D %u %llu %ld", radsim_design->rad_id, vt_now(), cyc);
    fflush(log.f);
  }
  radsim_design->set_rad_done();
  while (true) wait();
}

vt_top::vt_top(const sc_module_name &name, RADSimDesignContext *d) : RADSimDesignTop(d), rst("rst"), radsim_design(d) {
  (void)name;
  auto &sc = vt_scenario::get();
  for (auto &m : sc.modules) {
    if (m.rad != (int)d->rad_id) continue;
    if (m.kind == "axis") {
      auto *x = new vt_axis(m.name.c_str(), d, m);
      x->rst(rst);
      mods.push_back(x);
    } else if (m.kind == "mmm") {
      auto *x = new vt_mmm(m.name.c_str(), d, m);
      x->rst(rst);
      mods.push_back(x);
    } else if (m.kind == "mms") {
      auto *x = new vt_mms(m.name.c_str(), d, m);
      x->rst(rst);
      mods.push_back(x);
    }
#ifdef VT_MEM
    else if (m.kind == "mem") {
      auto it = m.opt.find("init");
      auto *x = new mem_controller(m.name.c_str(), m.num("dram", 0), d, it == m.opt.end() ? "" : it->second);
      x->rst(rst);
      sc_signal<bool> *unused = new sc_signal<bool>();
      x->mem_clk(*unused);
      mods.push_back(x);
    }
#endif
    else {
      fprintf(stderr, "vt: unknown module kind %s\n", m.kind.c_str());
      exit(77);
    }
  }
  this->connectPortalReset(&rst);
  std::string files = "vt" + std::to_string(d->rad_id);
  d->BuildDesignContext(files + ".place", files + ".clks");
  for (auto &m : sc.modules) {
    if (m.rad != (int)d->rad_id) continue;
    std::vector<std::string> ports;
    for (auto &p : m.slaves) ports.push_back(p.name);
    for (auto &p : m.masters) ports.push_back(p.name);
    for (auto &p : ports) {
      std::string n = p;
      vt_placed[std::to_string(m.rad) + "/" + p] = {d->GetPortDestinationID(n), d->GetPortInterfaceID(n)};
      auto pl = d->GetPortPlacement(n);
      vt_log::get().ev("P %d %s %u %u %u", m.rad, p.c_str(), std::get<0>(pl), std::get<1>(pl), std::get<2>(pl));
    }
  }
  d->CreateSystemNoCs(rst);
  d->ConnectModulesToNoC();
}

vt_system::vt_system(const sc_module_name &name, sc_clock *clk, RADSimDesignContext *d) : sc_module(name) {
  driver_inst = new vt_driver("driver", d);
  driver_inst->clk(*clk);
  driver_inst->rst(rst_sig);
  dut_inst = new vt_top("dut", d);
  driver_inst->top = dut_inst;
  dut_inst->rst(rst_sig);
  this->design_dut_inst = dut_inst;
}
