#pragma once
#include <design_context.hpp>
#include <design_system.hpp>
#include <systemc.h>
#ifndef CFG_LIVE
#define CFG_LIVE
inline int cfg_live = 0;
#endif
class DESIGN_system : public RADSimDesignSystem {
public:
  RADSimDesignContext *rad;
  sc_clock *ck;
  sc_signal<bool> rst;
  DESIGN_system(const sc_module_name &, sc_clock *, RADSimDesignContext *);
  ~DESIGN_system();
};
