#pragma once
#include <design_context.hpp>
#include <design_system.hpp>
#include <design_top.hpp>
#include <vt_modules.hpp>

class vt_top;

class vt_driver : public sc_module {
public:
  RADSimDesignContext *radsim_design;
  vt_top *top = nullptr;
  sc_in<bool> clk;
  sc_out<bool> rst;
  vt_driver(const sc_module_name &name, RADSimDesignContext *d);
  void run();
  void tap();
  SC_HAS_PROCESS(vt_driver);
};

class vt_top : public RADSimDesignTop {
public:
  sc_in<bool> rst;
  RADSimDesignContext *radsim_design;
  std::vector<RADSimModule *> mods;
  vt_top(const sc_module_name &name, RADSimDesignContext *d);
};

class vt_system : public RADSimDesignSystem {
public:
  sc_signal<bool> rst_sig;
  vt_driver *driver_inst;
  vt_top *dut_inst;
  vt_system(const sc_module_name &name, sc_clock *driver_clk_sig, RADSimDesignContext *d);
};
