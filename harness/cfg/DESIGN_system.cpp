// Prints what the configuration means to a design of this name. CFG_ROOTS: read and print the files of these trees instead.
#include <DESIGN_system.hpp>
#include <booksim_config.hpp>
#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <radsim_config.hpp>
#include <sstream>
#include <unistd.h>

static const char *S_INT[] = {"telemetry_log_verbosity", "telemetry_num_traces", "num_rads", "inter_rad_latency_cycles", "inter_rad_fifo_num_slots", "inter_rad_bw_accept_cycles", "inter_rad_bw_total_cycles"};
static const char *R_STR[] = {"design_name", "radsim_user_design_root_dir"};
static const char *R_INT[] = {"noc_num_nocs", "dram_num_controllers"};
static const char *R_IV[] = {"noc_payload_width", "noc_vcs", "noc_num_nodes", "noc_adapters_fifo_size", "noc_adapters_obuff_size", "dram_queue_sizes"};
static const char *R_DV[] = {"noc_clk_period", "noc_adapters_clk_period", "design_clk_periods", "dram_clk_periods"};
static const char *R_SV[] = {"design_noc_placement", "noc_adapters_in_arbiter", "noc_adapters_out_arbiter", "noc_adapters_vc_mapping", "dram_config_files"};
static const char *B_INT[] = {"k", "n", "c", "xr", "yr", "num_vcs", "vc_buf_size", "output_buffer_size", "alloc_iters", "wait_for_tail_credit", "credit_delay", "routing_delay", "vc_alloc_delay", "sw_alloc_delay",
  "read_request_begin_vc", "read_request_end_vc", "write_request_begin_vc", "write_request_end_vc", "write_data_begin_vc", "write_data_end_vc", "read_reply_begin_vc", "read_reply_end_vc", "write_reply_begin_vc", "write_reply_end_vc"};
static const char *B_STR[] = {"topology", "network_file", "routing_function", "router", "vc_allocator", "sw_allocator"};

static void dump_all(FILE *f, const std::string &root, unsigned rads) {
  for (auto k : S_INT) if (radsim_config.HasIntKnobShared(k)) fprintf(f, "s %s %d\n", k, radsim_config.GetIntKnobShared(k));
  if (radsim_config.HasDoubleKnobShared("sim_driver_period")) fprintf(f, "s sim_driver_period %.17g\n", radsim_config.GetDoubleKnobShared("sim_driver_period"));
  for (auto k : {"radsim_root_dir", "cluster_topology"}) if (radsim_config.HasStringKnobShared(k)) fprintf(f, "s %s %s\n", k, radsim_config.GetStringKnobShared(k).c_str());
  if (radsim_config.HasStringVectorKnobShared("telemetry_traces"))
    for (auto &t : radsim_config.GetStringVectorKnobShared("telemetry_traces")) fprintf(f, "s telemetry_traces %s\n", t.c_str());
  for (unsigned r = 0; r < rads; r++) {
    for (auto k : R_STR) if (radsim_config.HasStringKnobPerRad(k, r)) fprintf(f, "r%u %s %s\n", r, k, radsim_config.GetStringKnobPerRad(k, r).c_str());
    for (auto k : R_INT) if (radsim_config.HasIntKnobPerRad(k, r)) fprintf(f, "r%u %s %d\n", r, k, radsim_config.GetIntKnobPerRad(k, r));
    for (auto k : R_IV)
      if (radsim_config.HasIntVectorKnobPerRad(k, r)) {
        auto &v = radsim_config.GetIntVectorKnobPerRad(k, r);
        fprintf(f, "r%u %s", r, k);
        for (unsigned i = 0; i < v.size(); i++) fprintf(f, " %d", v[i] == radsim_config.GetIntVectorKnobPerRad(k, i, r) ? v[i] : -777);
        fprintf(f, "\n");
      }
    for (auto k : R_DV)
      if (radsim_config.HasDoubleVectorKnobPerRad(k, r)) {
        auto &v = radsim_config.GetDoubleVectorKnobPerRad(k, r);
        fprintf(f, "r%u %s", r, k);
        for (unsigned i = 0; i < v.size(); i++) fprintf(f, " %.17g", v[i] == radsim_config.GetDoubleVectorKnobPerRad(k, i, r) ? v[i] : -777);
        fprintf(f, "\n");
      }
    for (auto k : R_SV)
      if (radsim_config.HasStringVectorKnobPerRad(k, r)) {
        auto &v = radsim_config.GetStringVectorKnobPerRad(k, r);
        fprintf(f, "r%u %s", r, k);
        for (unsigned i = 0; i < v.size(); i++) fprintf(f, " %s", v[i] == radsim_config.GetStringVectorKnobPerRad(k, i, r) ? v[i].c_str() : "!!");
        fprintf(f, "\n");
      }
    int nocs = radsim_config.HasIntKnobPerRad("noc_num_nocs", r) ? radsim_config.GetIntKnobPerRad("noc_num_nocs", r) : 0;
    for (int n = 0; n < nocs; n++) {
      BookSimConfig c;
      std::string p = root + "/sim/noc/noc" + std::to_string(n) + "_rad" + std::to_string(r) + "_config";
      if (access(p.c_str(), R_OK)) { fprintf(f, "n%u.%d missing\n", r, n); continue; }
      c.ParseFile(p);
      for (auto k : B_INT) fprintf(f, "n%u.%d %s %d\n", r, n, k, c.GetInt(k));
      for (auto k : B_STR) fprintf(f, "n%u.%d %s %s\n", r, n, k, c.GetStr(k).c_str());
    }
  }
  fprintf(f, "end\n");
  fflush(f);
}

DESIGN_system::DESIGN_system(const sc_module_name &n, sc_clock *c, RADSimDesignContext *d) : sc_module(n), rad(d), ck(c) {
  if (const char *roots = getenv("CFG_ROOTS")) {
    std::istringstream ss(roots);
    std::string root;
    while (ss >> root) {
      unsigned rads = 0;
      ss >> rads;
      std::ifstream is(root + "/sim/radsim_knobs");
      FILE *f = fopen((root + "/dump").c_str(), "w");
      if (!is || !f) _exit(77);
      radsim_config = RADSimConfig();
      radsim_config.ResizeAll(rads);
      ParseRADSimKnobs(root + "/sim/radsim_knobs");
      dump_all(f, root, rads);
      fclose(f);
    }
    fflush(stdout);
    _exit(0);
  }
  printf("SYS DESIGN rad %u period %.17g same %d\n", d->rad_id, c->period().to_seconds() * 1e9, (int)(radsim_config.GetStringKnobPerRad("design_name", d->rad_id) == "DESIGN"));
  fflush(stdout);
  design_dut_inst = nullptr;
  if (++cfg_live == radsim_config.GetIntKnobShared("num_rads")) _exit(0); // every system of main.cpp was made
}
DESIGN_system::~DESIGN_system() {}
