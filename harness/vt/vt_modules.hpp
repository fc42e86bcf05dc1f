#pragma once
#include <axis_interface.hpp>
#include <aximm_interface.hpp>
#include <design_context.hpp>
#include <radsim_module.hpp>
#include <vt_common.hpp>

// AXI-S traffic source/sink with any number of ports.
class vt_axis : public RADSimModule {
public:
  RADSimDesignContext *radsim_design;
  vt_module desc;
  sc_in<bool> rst;
  std::vector<axis_master_port *> m;
  std::vector<axis_slave_port *> s;
  struct pkt {
    sc_bv<AXIS_MAX_DATAW> data; sc_bv<AXIS_USERW> user; bool last = false;
    sc_bv<AXIS_DESTW> dest; sc_bv<AXIS_IDW> id; std::string dst; int dst_rad = 0;
  };
  struct mstate {
    std::vector<std::pair<vt_flow, long>> flows; vt_rng r; bool busy = false; pkt cur;
    long gap = 0, burst = 1, left = 0, start = 0; uint64_t seq = 0;
  };
  struct sstate {
    vt_rng r; long stall = 0, hold = 0, mode = 0; bool wasv = false, wasr = false;
    std::string prev;
  };
  std::vector<mstate> ms;
  std::vector<sstate> ss;
  vt_axis(const sc_module_name &name, RADSimDesignContext *d, const vt_module &desc);
  void Tick();
  pkt make(unsigned p);
  SC_HAS_PROCESS(vt_axis);
  void RegisterModuleInfo();
};

// AXI-MM requester: issues scripted reads and writes, checks nothing, logs all.
class vt_mmm : public RADSimModule {
public:
  RADSimDesignContext *radsim_design;
  vt_module desc;
  sc_in<bool> rst;
  aximm_master_port mm;
  vt_mmm(const sc_module_name &name, RADSimDesignContext *d, const vt_module &desc);
  void Tick();
  SC_HAS_PROCESS(vt_mmm);
  void RegisterModuleInfo();
};

// AXI-MM responder: accepts everything, returns random data, logs all.
class vt_mms : public RADSimModule {
public:
  RADSimDesignContext *radsim_design;
  vt_module desc;
  sc_in<bool> rst;
  aximm_slave_port mm;
  vt_mms(const sc_module_name &name, RADSimDesignContext *d, const vt_module &desc);
  void Tick();
  SC_HAS_PROCESS(vt_mms);
  void RegisterModuleInfo();
};
