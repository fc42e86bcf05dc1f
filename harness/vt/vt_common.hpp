// Traffic harness: scenario description, event log, random numbers.
#pragma once
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <deque>
#include <fstream>
#include <map>
#include <sstream>
#include <string>
#include <systemc.h>
#include <vector>
#include <radsim_defines.hpp>
#include <radsim_config.hpp>

struct vt_rng {
  uint64_t s;
  explicit vt_rng(uint64_t seed = 1) : s(seed) {}
  uint64_t next() {
    uint64_t z = (s += 0x9e3779b97f4a7c15ULL);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
    return z ^ (z >> 31);
  }
  uint64_t below(uint64_t n) { return n ? next() % n : 0; }
  bool chance(int per256) { return (int)below(256) < per256; }
};

inline uint64_t vt_hash(const std::string &s, uint64_t seed) {
  uint64_t h = 1469598103934665603ULL ^ (seed * 0x9e3779b97f4a7c15ULL);
  for (unsigned char c : s) { h ^= c; h *= 1099511628211ULL; }
  return h;
}

struct vt_flow { // one stream: source port -> destination port
  int src_rad; std::string src;
  int dst_rad; std::string dst;
  long count;
};
struct vt_port { std::string name; int dataw; int type; };
struct vt_module {
  int rad; std::string kind; std::string name;
  std::vector<vt_port> masters, slaves;
  std::map<std::string, std::string> opt;
  long num(const std::string &k, long d) const {
    auto it = opt.find(k);
    return it == opt.end() ? d : atol(it->second.c_str());
  }
};
struct vt_op { // scripted AXI-MM operation
  char kind;               // 'R' or 'W'
  std::string dst;         // destination slave port
  uint64_t addr;           // local address
  int len, size, burst;    // AXI encodings
  int id;
};

struct vt_scenario {
  uint64_t seed = 1;
  long maxcyc = 100000, drain = 200, rstcyc = 1, idle = 0;
  int ender = 0;                                      // the RAD that waits for the traffic and logs the end
  struct fin { long cycle = -1; std::vector<long> fails; };  // when another RAD is done; the cycles in which it reports a failure
  std::map<int, fin> fins;
  std::vector<vt_module> modules;
  std::vector<vt_flow> flows;
  std::map<std::string, std::map<std::string, long>> portopt; // "rad/port" -> options
  std::map<std::string, std::vector<vt_op>> ops;              // "rad/port"
  long opt(int rad, const std::string &port, const std::string &k, long d) const {
    auto it = portopt.find(std::to_string(rad) + "/" + port);
    if (it == portopt.end()) return d;
    auto jt = it->second.find(k);
    return jt == it->second.end() ? d : jt->second;
  }
  static vt_scenario &get();
};

struct vt_log {
  FILE *f = nullptr;
  long expected = 0, observed = 0;
  static vt_log &get();
  void ev(const char *fmt, ...) __attribute__((format(printf, 2, 3)));
};
inline unsigned long long vt_now() { return (unsigned long long)sc_time_stamp().value(); }


// Exercises the trace recorder and the simulation log (only with VT_STATS): what is asked of them goes to the event log.
inline void vt_telemetry(int rad, const std::string &port) {
  static const bool on = getenv("VT_STATS") != nullptr;
  static unsigned long n = 0;
  if (!on) return;
  auto &log = vt_log::get();
  unsigned traces = (unsigned)radsim_config.GetIntKnobShared("telemetry_num_traces");
  n++;
  if (traces && n % 3) {
    unsigned k = (unsigned)((n * 2654435761u) >> 7) % traces;
    sim_trace_probe.record_event(k);
    log.ev("T %u %llu %d", k, vt_now(), GetSimulationCycle());
  }
  if (n % 5 == 0) {
    unsigned lvl = (unsigned)(n / 5 % 5);
    std::string m = "vtmsg" + std::to_string(n) + "!";
    log.ev("L %u %lu %llu %d", lvl, n, vt_now(), rad);
    if (lvl == 0) sim_log.log(critical, m, port.c_str());
    else if (lvl == 1) sim_log.log(warning, m, port.c_str());
    else if (lvl == 2) sim_log.log(sim_trace, m, port.c_str());
    else if (lvl == 3) sim_log.log(info, m, port.c_str());
    else sim_log.log(debug, m, port.c_str());
  }
}

template <int W> std::string vt_hex(const sc_bv<W> &v) {
  static const char *d = "0123456789abcdef";
  std::string out;
  int n = (W + 3) / 4;
  for (int i = n - 1; i >= 0; i--) {
    int x = 0;
    for (int b = 0; b < 4; b++) {
      int k = 4 * i + b;
      if (k < W && v[k] == '1') x |= 1 << b;
    }
    if (out.empty() && x == 0 && i > 0) continue;
    out.push_back(d[x]);
  }
  return out;
}
template <int W> sc_bv<W> vt_rand(vt_rng &r, int bits) {
  sc_bv<W> v = 0;
  for (int lo = 0; lo < bits && lo < W; lo += 32) {
    int hi = std::min(std::min(bits, W) - 1, lo + 31);
    unsigned int mask = (hi - lo == 31) ? 0xffffffffu : ((1u << (hi - lo + 1)) - 1);
    v.range(hi, lo) = (unsigned int)(r.next() & mask);
  }
  return v;
}
