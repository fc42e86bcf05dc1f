// Memory controllers with a scripted AXI-MM requester wired straight to each channel.
#pragma once
#include <aximm_interface.hpp>
#include <deque>
#include <design_context.hpp>
#include <design_system.hpp>
#include <map>
#include <mem_controller.hpp>
#include <string>
#include <systemc.h>
#include <vector>

struct memd_op { char kind; uint64_t addr; int len, size; };
struct memd_chan {
  std::vector<std::vector<memd_op>> phases; // ops of a phase may overlap; phases do not
  std::map<std::string, long> opt;
  long o(const char *k, long d) const { auto i = opt.find(k); return i == opt.end() ? d : i->second; }
};
struct memd_ctrl { double period = 2; std::string init; std::map<int, memd_chan> ch; };

class memd_requester : public sc_module {
public:
  sc_in<bool> clk, rst;
  aximm_master_port mm;
  int c, ch, dataw;
  const memd_chan &d;
  bool done = false;
  memd_requester(const sc_module_name &, int c, int ch, int dataw, const memd_chan &);
  void Tick();
  SC_HAS_PROCESS(memd_requester);
};

class memd_driver : public sc_module {
public:
  RADSimDesignContext *rad;
  sc_in<bool> clk;
  sc_out<bool> rst;
  const std::vector<memd_requester *> &reqs;
  memd_driver(const sc_module_name &, RADSimDesignContext *, const std::vector<memd_requester *> &);
  void Drive();
  SC_HAS_PROCESS(memd_driver);
};

class memd_system : public RADSimDesignSystem {
public:
  sc_signal<bool> rst;
  std::vector<memd_requester *> reqs;
  std::vector<mem_controller *> ctrls;
  memd_system(const sc_module_name &, sc_clock *, RADSimDesignContext *);
  ~memd_system();
};
