// Drives DRAMsim3 memory systems with generated requests and judges every command and callback.
// usage: dram <log> <seed> <cycles> <instance>...   instance: <ini>,<outdir>,<pattern>,<write %>,<rate 1/1000>,<idle every N cycles or 0>,<idle at the end>[,<requests outstanding at most>]
// With the last field, idle cycles, refusals and the order of row hits are judged too.
// The oracle reads the INI file itself and re-derives sizes, address mapping and timing; it shares no code with DRAMsim3.
// log lines: "V <kind> ..." violation, "C <name> <n>" counter, "T ..." totals per channel for the statistics check, "E" end.
#include <algorithm>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <unordered_map>
#include <vector>
#include "memory_system.h"

using std::map;
using std::string;
using std::vector;
typedef uint64_t u64;

static FILE *lg;
static map<string, int> nv;
static void viol(const char *k, const char *fmt, ...) {
  if (nv[k]++ < 5) {
    va_list ap;
    va_start(ap, fmt);
    fprintf(lg, "V %s ", k);
    vfprintf(lg, fmt, ap);
    fputc('\n', lg);
    va_end(ap);
  }
}
static map<string, long> counts;
struct Rng {
  u64 s;
  u64 operator()() {
    u64 z = (s += 0x9e3779b97f4a7c15ULL);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL; z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL; return z ^ (z >> 31);
  }
};

struct Ini {
  map<string, string> v;
  explicit Ini(const string &f) {
    std::ifstream in(f);
    string l, sec;
    while (std::getline(in, l)) {
      l = l.substr(0, l.find(';'));
      auto trim = [](string s) { size_t a = s.find_first_not_of(" \t\r"), b = s.find_last_not_of(" \t\r"); return a == string::npos ? string() : s.substr(a, b - a + 1); };
      l = trim(l);
      if (l.empty() || l[0] == '#') continue;
      if (l[0] == '[') { sec = trim(l.substr(1, l.find(']') - 1)); continue; }
      size_t e = l.find('=');
      if (e != string::npos) v[sec + "." + trim(l.substr(0, e))] = trim(l.substr(e + 1));
    }
  }
  string s(const string &k, const string &d) const { auto i = v.find(k); return i == v.end() ? d : i->second; }
  long i(const string &k, long d) const { auto it = v.find(k); if (it == v.end()) return d; char *e; long x = strtol(it->second.c_str(), &e, 0); return e == it->second.c_str() ? d : x; }
  bool b(const string &k, bool d) const { string x = s(k, d ? "true" : "false"); for (auto &c : x) c = tolower(c); return x == "true" || x == "yes" || x == "on" || x == "1"; }
};
static int lg2(long x) { int n = 0; while (x > 1) { x /= 2; n++; } return n; }

struct Spec {  // what the configuration file asks for
  string proto, map_, queue, page, refpol;
  int bg, bpg, banks, rows, cols, dw, bl, bc, ch, ranks, bus, tq, cq;
  bool gddr, hbm, hmc, dual, unified, sref;
  long srefth;
  int AL, CL, CWL, ccdl, ccds, rtrs, rtp, wtrl, wtrs, wr, rp, rrdl, rrds, ras, rcdr, rcdw, rfc, rc, ckesr, xs, rfcb, refi, refib, faw, ppd, aw32, RL, WL;
  int shift, pos[6], width[6];
  long mb;
  explicit Spec(const Ini &c) {
    proto = c.s("dram_structure.protocol", "DDR3");
    gddr = proto.compare(0, 4, "GDDR") == 0; hbm = proto.compare(0, 3, "HBM") == 0; hmc = proto == "HMC";
    bg = c.i("dram_structure.bankgroups", 2); bpg = c.i("dram_structure.banks_per_group", 2);
    if (!c.b("dram_structure.bankgroup_enable", true)) { bpg *= bg; bg = 1; }
    banks = bg * bpg;
    rows = c.i("dram_structure.rows", 65536); cols = c.i("dram_structure.columns", 1024); dw = c.i("dram_structure.device_width", 8); bl = c.i("dram_structure.BL", 8);
    if (hmc) bl = c.i("hmc.block_size", 64) * 8 / dw;
    bc = bl / (proto == "GDDR5" ? 4 : proto == "GDDR5X" ? 8 : proto == "GDDR6" ? 16 : 2);
    if (!bl) bl = hbm ? 4 : 8;
    if (gddr) cols *= bl;
    if (hbm) cols *= 2;
    dual = hbm && c.b("dram_structure.hbm_dual_cmd", true);
    ch = c.i("system.channels", 1); bus = c.i("system.bus_width", 64);
    long size = c.i("system.channel_size", 1024), per = (long)(cols * dw / 8) * (rows / 1024) / 1024 * banks * (bus / dw);
    ranks = per > size ? 1 : size / per;
    mb = ranks * per;
    map_ = c.s("system.address_mapping", "chrobabgraco"); queue = c.s("system.queue_structure", "PER_BANK"); page = c.s("system.row_buf_policy", "OPEN_PAGE");
    refpol = c.s("system.refresh_policy", "RANK_LEVEL_STAGGERED");
    tq = c.i("system.trans_queue_size", 32); cq = c.i("system.cmd_queue_size", 16);
    unified = c.b("system.unified_queue", false); sref = c.b("system.enable_self_refresh", false); srefth = c.i("system.sref_threshold", 1000);
    auto t = [&](const char *n, int d) { return (int)c.i(string("timing.") + n, d); };
    AL = t("AL", 0); CL = t("CL", 12); CWL = t("CWL", 12); ccdl = t("tCCD_L", 6); ccds = t("tCCD_S", 4); rtrs = t("tRTRS", 2); rtp = t("tRTP", 5);
    wtrl = t("tWTR_L", 5); wtrs = t("tWTR_S", 5); wr = t("tWR", 10); rp = t("tRP", 10); rrdl = t("tRRD_L", 4); rrds = t("tRRD_S", 4); ras = t("tRAS", 24);
    int rcd = t("tRCD", 10);
    rfc = t("tRFC", 74); rc = ras + rp; ckesr = t("tCKESR", 12); xs = t("tXS", 432); rfcb = t("tRFCb", 20); refi = t("tREFI", 7800); refib = t("tREFIb", 1950);
    faw = t("tFAW", 50); ppd = t("tPPD", 0); aw32 = t("t32AW", 330);
    rcdr = (gddr || hbm) ? t("tRCDRD", 24) : rcd - AL;
    rcdw = (gddr || hbm) ? t("tRCDWR", 20) : rcd - AL;
    RL = AL + CL; WL = AL + CWL;
    if (bg == 1) { ccdl = ccds; wtrl = wtrs; rrdl = rrds; }
    shift = lg2((long)bus / 8 * bl);
    int w[6] = {lg2(ch), lg2(ranks), lg2(bg), lg2(bpg), lg2(rows), lg2(cols) - lg2(bl)};
    const char *nm[6] = {"ch", "ra", "bg", "ba", "ro", "co"};
    int p = 0;
    for (int k = 5; k >= 0; k--)
      for (int f = 0; f < 6; f++)
        if (map_.substr(2 * k, 2) == nm[f]) { pos[f] = p; width[f] = w[f]; p += w[f]; }
  }
  void decode(u64 a, int *o) const { a >>= shift; for (int f = 0; f < 6; f++) o[f] = (a >> pos[f]) & ((1L << width[f]) - 1); }
  u64 encode(const int *o) const { u64 a = 0; for (int f = 0; f < 6; f++) a |= (u64)(o[f] & ((1L << width[f]) - 1)) << pos[f]; return a << shift; }
};

struct Ev { u64 clk; u64 addr; bool w; };  // a request accepted before tick `clk`, or a callback during tick `clk`

struct Inst {
  string ini, out, pattern;
  int wpct, rate, idle, tail, cap = 0;
  vector<Ev> ref;  // offers refused
  Spec *sp = nullptr;
  dramsim3::MemorySystem *mem = nullptr;
  vector<Ev> acc, done;
  u64 clk = 0, lastprog = 0;
  long outstanding = 0, refused = 0, maxout = 0;
  std::unordered_map<u64, long> pend[2];
  Rng r;
  u64 nexta = 0; bool have = false, nw = false;
  vector<u64> hot;
  int base[6];
  void pick() {
    int o[6];
    for (int f = 0; f < 6; f++) o[f] = r() & ((1L << sp->width[f]) - 1);
    string p = pattern == "mix" ? vector<string>{"random", "stream", "conflict", "hot", "bank", "rank"}[(clk / 3000 + r.s % 2) % 6] : pattern;
    if (p == "stream") { nexta = ((acc.size() ? acc.back().addr : 0) + (1ULL << sp->shift)); int q[6]; sp->decode(nexta, q); nexta = sp->encode(q); }
    else if (p == "conflict") { for (int f = 0; f < 4; f++) o[f] = base[f]; o[4] = base[4] + r() % 3; o[5] = r() % 4; nexta = sp->encode(o); }
    else if (p == "hot") { nexta = hot[r() % hot.size()]; }
    else if (p == "bank") { for (int f = 0; f < 3; f++) o[f] = base[f]; o[4] = base[4] + r() % 2; nexta = sp->encode(o); }
    else if (p == "half") { o[0] = base[0]; o[3] = base[3]; nexta = sp->encode(o); }  // many rows, but one bank of each group: the others are only refreshed
    else if (p == "rows") { o[0] = base[0]; o[1] = base[1]; o[4] = base[4] + r() % 2; nexta = sp->encode(o); }  // the same rows in all banks
    else if (p == "rank") { o[0] = base[0]; o[2] = base[2]; o[3] = base[3]; o[4] = base[4]; nexta = sp->encode(o); }
    else nexta = sp->encode(o);
    if (r() % 16 == 0 && !acc.empty()) nexta = acc[acc.size() - 1 - r() % std::min<size_t>(acc.size(), 20)].addr;  // touch a recent address again
    nw = (int)(r() % 100) < wpct;
    have = true;
  }
};

struct Cmd { u64 clk; string op; int ch, ra, bg, ba; long row, col; };

static void judge(Inst &in) {
  const Spec &s = *in.sp;
  const int RD = s.RL + s.bc;
  // callbacks by tick
  size_t di = 0;
  vector<Cmd> all;
  vector<vector<Cmd>> per(s.ch);
  for (int c = 0; c < s.ch; c++) {
    std::ifstream f(in.out + "/dramsim3_0ch_" + std::to_string(c) + "cmd.trace");
    if (!f) { viol("notrace", "channel %d", c); return; }
    string l;
    while (std::getline(f, l)) {
      std::istringstream q(l);
      Cmd m; string a, b;
      q >> m.clk >> m.op >> m.ch >> m.ra >> m.bg >> m.ba >> a >> b;
      m.row = strtoll(a.c_str(), nullptr, 16); m.col = strtoll(b.c_str(), nullptr, 16);
      m.ch = c;
      per[c].push_back(m);
    }
  }
  (void)di;
  const long NO = -1000000000;
  for (int c = 0; c < s.ch; c++) {
    struct Bank { bool open = false; long row = -1; long act, pre, rd, wr, rda, wra, refb; };
    struct Rank { long ref, srefe, srefx; bool sref = false; std::deque<long> acts; vector<long> refs; long srefcyc = 0; vector<std::pair<long, long>> off; };
    Bank b0; b0.act = b0.pre = b0.rd = b0.wr = b0.rda = b0.wra = b0.refb = NO;
    vector<vector<Bank>> B(s.ranks, vector<Bank>(s.banks, b0));
    vector<Rank> R;
    vector<long> lastuse(s.ranks, 0);  // last activate, read or write of the rank
    auto sleepy = [&](int ra, long t) {  // should the rank have gone to sleep before t?
      if (!s.sref || s.refpol == "BANK_LEVEL_STAGGERED") return;
      long bound = s.srefth + 3L * s.refi + 4L * s.rfc * s.ranks + 3000;
      counts["sleep_checks"]++;
      if (!R[ra].sref && t - std::max(lastuse[ra], R[ra].srefx) > bound) viol("self-refresh-missing", "channel %d: rank %d was idle from %ld to %ld and not put into self-refresh, threshold %ld (%s)", c, ra, std::max(lastuse[ra], R[ra].srefx), t, s.srefth, in.ini.c_str());
    };
    Rank r0; r0.ref = r0.srefe = r0.srefx = NO;
    R.assign(s.ranks, r0);
    map<vector<int>, vector<long>> refb;
    // per rank and bank group: last read / write; per rank last
    vector<vector<long>> lrd(s.ranks, vector<long>(s.bg, NO)), lwr = lrd, lact = lrd;
    vector<long> lpre(s.ranks, NO);
    // requests of this channel by arrival
    std::deque<Ev> acc;
    for (auto &e : in.acc) { int o[6]; s.decode(e.addr, o); if (o[0] == c) acc.push_back(e); }
    std::unordered_map<u64, long> pr;        // reads waiting for their READ
    std::unordered_map<u64, char> pw;        // writes not yet written
    map<std::pair<u64, u64>, long> exp[2];   // (tick, address) -> callbacks due
    long n[16] = {0}, nfwd = 0;
    double lat = 0; long nlat = 0, latmax = 0; map<long, long> hist, whist;
    std::unordered_map<u64, vector<u64>> when; std::unordered_map<u64, u64> wwhen;
    u64 lastclk = ~0ULL; int incycle = 0; bool cyc_rw = false, cyc_other = false;
    size_t ai = 0;
    std::set<u64> asked[2];
    auto accept_upto = [&](u64 clk) {
      for (; ai < acc.size() && acc[ai].clk <= clk; ai++) {
        auto &e = acc[ai];
        if (s.hmc) { asked[e.w].insert(e.addr); continue; }  // the links delay a request on its way to the vault
        if (e.w) {
          exp[1][{e.clk + 1, e.addr}]++;
          if (!pw.count(e.addr)) { pw[e.addr] = 1; wwhen[e.addr] = e.clk; } else counts["merged_writes"]++;
        } else if (pw.count(e.addr)) { exp[0][{e.clk + 1, e.addr}]++; hist[1]++; nfwd++; counts["forwarded_reads"]++; }
        else { if (pr[e.addr]++) counts["coalesced_reads"]++; when[e.addr].push_back(e.clk); }
      }
    };
#define NEED(name, from, gap) do { long f_ = (from), g_ = (gap); if (f_ > NO / 2 && t - f_ < g_) viol("timing-" name, "channel %d: %s at %ld to rank %d group %d bank %d, %ld cycles after %ld, needs %ld (%s)", c, m.op.c_str(), t, m.ra, m.bg, m.ba, t - f_, f_, g_, in.ini.c_str()); counts["timing_checks"]++; } while (0)
    for (auto &m : per[c]) {
      long t = m.clk;
      accept_upto(m.clk);
      bool rw = m.op.compare(0, 4, "read") == 0 || m.op.compare(0, 5, "write") == 0;
      if (m.clk == lastclk) {
        incycle++;
        if (!s.dual || incycle > 2 || (rw ? cyc_rw : cyc_other)) viol("command-bus", "channel %d: two commands at %ld (%s)", c, t, in.ini.c_str());
        counts["dual_commands"]++;
      } else { incycle = 1; cyc_rw = cyc_other = false; }
      if (lastclk != ~0ULL && m.clk < lastclk) viol("trace-order", "channel %d at %ld", c, t);
      (rw ? cyc_rw : cyc_other) = true;
      lastclk = m.clk;
      if (m.ra < 0 || m.ra >= s.ranks) { viol("range", "channel %d: %s to rank %d of %d (%s)", c, m.op.c_str(), m.ra, s.ranks, in.ini.c_str()); continue; }
      Rank &k = R[m.ra];
      if (k.sref && m.op != "self_refresh_exit") viol("state-sref", "channel %d: %s at %ld to rank %d in self-refresh", c, m.op.c_str(), t, m.ra);
      bool rankcmd = m.op == "refresh" || m.op.compare(0, 4, "self") == 0;
      if (!rankcmd && (m.bg < 0 || m.bg >= s.bg || m.ba < 0 || m.ba >= s.bpg)) { viol("range", "channel %d: %s to group %d bank %d", c, m.op.c_str(), m.bg, m.ba); continue; }
      counts[m.op]++;
      if (rw || m.op == "activate") { sleepy(m.ra, t); lastuse[m.ra] = t; }
      if (rw) {
        bool isr = m.op[0] == 'r', ap = m.op.size() > 2 && m.op.substr(m.op.size() - 2) == "_p";
        Bank &b = B[m.ra][m.bg * s.bpg + m.ba];
        if (ap != (s.page == "CLOSE_PAGE")) viol("page-policy", "channel %d: %s at %ld", c, m.op.c_str(), t);
        if (!b.open) viol("state-closed", "channel %d: %s at %ld to a closed bank (rank %d group %d bank %d)", c, m.op.c_str(), t, m.ra, m.bg, m.ba);
        else if (b.row != m.row) viol("state-row", "channel %d: %s at %ld to row %ld, open row %ld", c, m.op.c_str(), t, m.row, b.row);
        NEED("tRCD", b.act, isr ? s.rcdr : s.rcdw);
        for (int ra = 0; ra < s.ranks; ra++)
          for (int g = 0; g < s.bg; g++) {
            if (ra == m.ra) {
              bool same = g == m.bg;
              if (isr) { NEED("tCCD", lrd[ra][g], std::max(s.bc, same ? s.ccdl : s.ccds)); NEED("tWTR", lwr[ra][g], s.WL + s.bc + (same ? s.wtrl : s.wtrs)); }
              else { NEED("tCCD", lwr[ra][g], std::max(s.bc, same ? s.ccdl : s.ccds)); NEED("read-to-write", lrd[ra][g], s.RL + s.bc - s.WL + s.rtrs); }
            } else if (isr) { NEED("rank-switch", lrd[ra][g], s.bc + s.rtrs); NEED("rank-switch", lwr[ra][g], s.WL + s.bc + s.rtrs - s.RL); }
            else { NEED("rank-switch", lwr[ra][g], s.bc); NEED("rank-switch", lrd[ra][g], s.RL + s.bc + s.rtrs - s.WL); }
          }
        (isr ? lrd : lwr)[m.ra][m.bg] = t;
        if (ap) { b.open = false; (isr ? b.rda : b.wra) = t; } else (isr ? b.rd : b.wr) = t;
        int o[6] = {c, m.ra, m.bg, m.ba, (int)m.row, (int)m.col};
        u64 a = s.encode(o);
        int q[6];
        s.decode(a, q);
        if (q[4] != m.row || q[5] != m.col) viol("range", "channel %d: row %ld column %ld out of range", c, m.row, m.col);
        if (s.hmc) {
          n[isr ? 0 : 1]++;
          if (!asked[!isr].count(a)) viol(isr ? "read-unasked" : "write-unasked", "vault %d: %s at %ld of address %lx, which nobody asked for (%s)", c, m.op.c_str(), t, (long)a, in.ini.c_str());
        } else if (isr) {
          n[0]++;
          auto it = pr.find(a);
          if (it == pr.end() || !it->second) viol("read-unasked", "channel %d: %s at %ld of address %lx, which nobody waits for (%s)", c, m.op.c_str(), t, (long)a, in.ini.c_str());
          else {
            exp[0][{m.clk + RD, a}] += it->second;
            for (u64 w : when[a]) { long l = t + RD - (long)w; latmax = std::max(latmax, l); hist[l]++; }
            when.erase(a);
            pr.erase(it);
          }
        } else {
          n[1]++;
          if (!pw.count(a)) viol("write-unasked", "channel %d: %s at %ld of address %lx, which nobody writes (%s)", c, m.op.c_str(), t, (long)a, in.ini.c_str());
          else { whist[t - (long)wwhen[a] + s.WL + s.bc]++; wwhen.erase(a); }
          auto it = pr.find(a);
          if (it != pr.end() && it->second) viol("write-overtakes-read", "channel %d: %s at %ld of address %lx before an earlier read of it was served (%s)", c, m.op.c_str(), t, (long)a, in.ini.c_str());
          pw.erase(a);
        }
      } else if (m.op == "activate") {
        n[2]++;
        Bank &b = B[m.ra][m.bg * s.bpg + m.ba];
        if (b.open) viol("state-open", "channel %d: activate at %ld of an open bank", c, t);
        NEED("tRC", b.act, s.rc); NEED("tRP", b.pre, s.rp); NEED("tRTP+tRP", b.rda, s.AL + s.rtp + s.rp); NEED("tWR+tRP", b.wra, s.WL + s.bc + s.wr + s.rp);
        NEED("tRFC", k.ref, s.rfc); NEED("tRFCb", b.refb, s.rfcb); NEED("tXS", k.srefx, s.xs);
        for (int g = 0; g < s.bg; g++) NEED("tRRD", lact[m.ra][g], g == m.bg ? s.rrdl : s.rrds);
        if (k.acts.size() >= 4) NEED("tFAW", k.acts[k.acts.size() - 4], s.faw);
        if (s.gddr && k.acts.size() >= 32) NEED("t32AW", k.acts[k.acts.size() - 32], s.aw32);
        k.acts.push_back(t);
        if (k.acts.size() > 40) k.acts.pop_front();
        lact[m.ra][m.bg] = t;
        b.act = t; b.open = true; b.row = m.row;
      } else if (m.op == "precharge") {
        n[3]++;
        Bank &b = B[m.ra][m.bg * s.bpg + m.ba];
        if (!b.open) viol("state-precharge", "channel %d: precharge at %ld of a closed bank", c, t);
        NEED("tRAS", b.act, s.ras); NEED("tRTP", b.rd > b.act ? b.rd : NO, s.AL + s.rtp); NEED("tWR", b.wr > b.act ? b.wr : NO, s.WL + s.bc + s.wr);
        if (s.gddr || s.proto == "LPDDR4") NEED("tPPD", lpre[m.ra], s.ppd);
        lpre[m.ra] = t;
        b.open = false; b.pre = t;
      } else if (m.op == "refresh" || m.op == "self_refresh_enter") {
        (m.op == "refresh" ? n[4] : n[6])++;
        for (auto &b : B[m.ra]) {
          if (b.open) viol("state-refresh", "channel %d: %s at %ld of rank %d with an open bank", c, m.op.c_str(), t, m.ra);
          NEED("tRP-refresh", b.pre, s.rp); NEED("tRC-refresh", b.act, s.rc); NEED("tRTP+tRP-refresh", b.rda, s.AL + s.rtp + s.rp); NEED("tWR+tRP-refresh", b.wra, s.WL + s.bc + s.wr + s.rp);
          NEED("tRFCb-refresh", b.refb, s.rfcb);
        }
        NEED("tRFC-refresh", k.ref, s.rfc); NEED("tXS-refresh", k.srefx, s.xs);
        if (m.op == "refresh") { k.ref = t; k.refs.push_back(t); }
        else { k.sref = true; k.srefe = t; }
      } else if (m.op == "self_refresh_exit") {
        n[7]++;
        if (!k.sref) viol("state-sref", "channel %d: self-refresh exit at %ld of rank %d, which is not in self-refresh", c, t, m.ra);
        NEED("tCKESR", k.srefe, s.ckesr);
        k.sref = false; k.srefx = t; k.off.push_back({k.srefe, t});
      } else if (m.op == "refresh_bank") {
        n[5]++;
        Bank &b = B[m.ra][m.bg * s.bpg + m.ba];
        if (b.open) viol("state-refresh", "channel %d: bank refresh at %ld of an open bank", c, t);
        NEED("tRP-refresh", b.pre, s.rp); NEED("tRC-refresh", b.act, s.rc); NEED("tRTP+tRP-refresh", b.rda, s.AL + s.rtp + s.rp); NEED("tWR+tRP-refresh", b.wra, s.WL + s.bc + s.wr + s.rp);
        NEED("tRFCb-refresh", b.refb, s.rfcb); NEED("tRFC-refresh", k.ref, s.rfc); NEED("tXS-refresh", k.srefx, s.xs);
        for (int g = 0; g < s.bg; g++) NEED("tRRD-refresh", lact[m.ra][g], g == m.bg ? s.rrdl : s.rrds);
        b.refb = t;
        refb[{m.ra, m.bg, m.ba}].push_back(t);
      } else viol("unknown-command", "channel %d: %s", c, m.op.c_str());
    }
    accept_upto(in.clk);
    for (int ra = 0; ra < s.ranks; ra++) sleepy(ra, in.clk);
    // callbacks
    map<std::pair<u64, u64>, long> got[2];
    for (auto &e : in.done) { int o[6]; s.decode(e.addr, o); if (o[0] == c) got[e.w][{e.clk, e.addr}]++; }
    long reads = 0, writes = 0;
    for (int w = 0; w < 2; w++) {
      long exn = 0, gon = 0;
      for (auto &x : exp[w]) {
        if (x.first.first >= in.clk) continue;   // due after the end of the run
        exn += x.second;
        auto g = got[w].find(x.first);
        long have = g == got[w].end() ? 0 : g->second;
        if (have != x.second) viol(w ? "write-callback" : "read-callback", "channel %d: address %lx: %ld completions due at cycle %ld, %ld seen (%s)", c, (long)x.first.second, x.second, (long)x.first.first, have, in.ini.c_str());
      }
      for (auto &x : got[w]) { gon += x.second; if (!s.hmc && !exp[w].count(x.first)) viol(w ? "write-callback" : "read-callback", "channel %d: unexpected completion of address %lx at cycle %ld (%s)", c, (long)x.first.second, (long)x.first.first, in.ini.c_str()); }
      (w ? writes : reads) = gon;
    }
    long waiting = 0;
    for (auto &x : pr) waiting += x.second;
    if (s.hmc && c == 0) for (int w = 0; w < 2; w++) for (auto &x : in.pend[w]) if (x.second > 0) waiting += x.second;
    if (waiting) viol("read-lost", "channel %d: %ld reads were never served (%s)", c, waiting, in.ini.c_str());
    // refresh rate
    if (s.refpol == "BANK_LEVEL_STAGGERED") {
      // claimed where one bank refresh fits between two that are due: closing the bank, tRP, tRFCb
      if (!s.sref && s.refib / s.ranks > std::max(s.rc, s.AL + s.WL + s.bc + s.wr + s.rp + s.rtp) + s.rfcb + s.rp + 8) {
        long want = (long)in.clk / ((long)(s.refib / s.ranks) * s.banks * s.ranks) - 2;
        vector<long> every;
        for (auto &x : refb) every.insert(every.end(), x.second.begin(), x.second.end());
        std::sort(every.begin(), every.end());
        long gap = s.refib / s.ranks, due = ((long)in.clk - 1) / gap;
        if ((long)every.size() < due - 2 || (long)every.size() > due) viol("refresh-rate", "channel %d: %zu bank refreshes in %ld cycles, %ld were due (%s)", c, every.size(), (long)in.clk, due, in.ini.c_str());
        for (size_t k = 0; k < every.size(); k++) {  // the k-th is due at (k + 1) * gap and may find its bank or the one before it at work
          counts["refresh_delay_checks"]++;
          long late = every[k] - (long)(k + 1) * gap;
          if (late < 0 || late > 2 * gap) { viol("refresh-gap", "channel %d: bank refresh %zu, due at %ld, came at %ld (%s)", c, k, (long)(k + 1) * gap, every[k], in.ini.c_str()); break; }
        }
        for (int ra = 0; ra < s.ranks; ra++) for (int g = 0; g < s.bg; g++) for (int k = 0; k < s.bpg; k++) {
          auto &v = refb[{ra, g, k}];
          counts["refresh_checks"]++;
          if ((long)v.size() < want || (long)v.size() > want + 4) viol("refresh-rate", "channel %d: rank %d group %d bank %d was refreshed %zu times in %ld cycles, tREFIb %d for %d banks (%s)", c, ra, g, k, v.size(), (long)in.clk, s.refib, s.banks, in.ini.c_str());
        }
      }
    } else
      for (int ra = 0; ra < s.ranks; ra++) {
        auto &k = R[ra];
        long t0 = 0, awake = in.clk;
        if (k.sref) k.off.push_back({k.srefe, (long)in.clk});
        for (auto &o : k.off) awake -= o.second - o.first;
        long per_ = s.refi;
        long slack = 2 + 2 * (long)k.off.size();
        counts["refresh_checks"]++;
        if ((long)k.refs.size() < awake / per_ - slack || (long)k.refs.size() > awake / per_ + slack)
          viol("refresh-rate", "channel %d: rank %d was refreshed %zu times in %ld cycles outside self-refresh, tREFI %d (%s)", c, ra, k.refs.size(), awake, s.refi, in.ini.c_str());
        k.refs.push_back(in.clk);
        for (long x : k.refs) {
          long gap = x - t0;
          for (auto &o : k.off) if (o.first >= t0 && o.second <= x) gap -= o.second - o.first;
          if (gap > 2 * per_ + 2L * s.rfc * s.ranks + 2000 && k.off.empty()) viol("refresh-gap", "channel %d: rank %d got no refresh for %ld cycles, tREFI %d (%s)", c, ra, gap, s.refi, in.ini.c_str());
          t0 = x;
        }
      }
    counts["reads_done"] += reads; counts["writes_done"] += writes;
    if (latmax > counts["max_read_latency"]) counts["max_read_latency"] = latmax;
    // totals for the statistics check
    fprintf(lg, "T %s %d cycles %ld reads %ld writes %ld num_read_cmds %ld num_write_cmds %ld num_act_cmds %ld num_pre_cmds %ld num_ref_cmds %ld num_refb_cmds %ld num_srefe_cmds %ld num_srefx_cmds %ld forwarded %ld\n", in.out.c_str(), c, (long)in.clk, reads, writes, n[0], n[1], n[2], n[3], n[4], n[5], n[6], n[7], nfwd);
    fprintf(lg, "H %s %d r", in.out.c_str(), c);
    for (auto &x : hist) fprintf(lg, " %ld:%ld", x.first, x.second);
    fprintf(lg, "\nH %s %d w", in.out.c_str(), c);
    for (auto &x : whist) fprintf(lg, " %ld:%ld", x.first, x.second);
    fprintf(lg, "\nH %s %d i", in.out.c_str(), c);
    { map<long, long> ih; long last = 0; for (auto &e : acc) { ih[(long)e.clk - last]++; last = e.clk; } for (auto &x : ih) fprintf(lg, " %ld:%ld", x.first, x.second); }
    fprintf(lg, "\n");
    fprintf(lg, "G %s ranks %d banks %d bl %d bc %d reqbytes %d devices %d\n", in.out.c_str(), s.ranks, s.banks, s.bl, s.bc, s.bus / 8 * s.bl, s.bus / s.dw);
  }
  counts["requests"] += in.acc.size();
  counts["refused_offers"] += in.refused;
}

// A cycle without a command is only allowed when no waiting request's next command is legal; row hits of a bank go in the order of
// arrival; an offer is only refused when the queue holds as many requests as the configuration allows.
static void conserve(Inst &in) {
  const Spec &s = *in.sp;
  const long NO = -1000000000;
  for (int c = 0; c < s.ch; c++) {
    std::ifstream f(in.out + "/dramsim3_0ch_" + std::to_string(c) + "cmd.trace");
    vector<Cmd> cmds;
    string l;
    while (std::getline(f, l)) {
      std::istringstream q(l);
      Cmd m; string a, b;
      q >> m.clk >> m.op >> m.ch >> m.ra >> m.bg >> m.ba >> a >> b;
      m.row = strtoll(a.c_str(), nullptr, 16); m.col = strtoll(b.c_str(), nullptr, 16);
      cmds.push_back(m);
    }
    struct Req { u64 a, addr; bool w; int ra, bg, bk; long row; u64 elig; };
    struct Bank { bool open = false; long row = -1, hits = 0, act, pre, rd, wr, rda, wra; };
    Bank b0; b0.act = b0.pre = b0.rd = b0.wr = b0.rda = b0.wra = NO;
    vector<vector<Bank>> B(s.ranks, vector<Bank>(s.banks, b0));
    vector<vector<long>> lrd(s.ranks, vector<long>(s.bg, NO)), lwr = lrd, lact = lrd;
    vector<long> lpre(s.ranks, NO), lref(s.ranks, NO), lrefb(s.ranks, NO), lsx(s.ranks, NO), lse(s.ranks, NO);
    vector<std::deque<long>> acts(s.ranks);
    vector<char> sref(s.ranks, 0);
    // cycles in which a refresh may be waiting: closing every bank of every rank, and what is under way there
    long W = s.ranks * ((long)s.banks * (1 + s.ppd) + s.WL + s.bc + s.wr + s.ras + s.rp + s.rtp + s.AL + 20) + s.rfcb + s.rfc + s.xs;
    if (s.refpol == "BANK_LEVEL_STAGGERED") W = 2 * (s.WL + s.bc + s.wr + s.ras + s.rp + s.rtp + s.AL + 20) + s.rfcb + s.xs;
    vector<char> excl(in.clk + 1, 0);
    auto ex = [&](long t) { for (long k = std::max(0L, t - W); k <= t && k <= (long)in.clk; k++) excl[k] = 1; };
    for (auto &m : cmds) if (m.op.compare(0, 7, "refresh") == 0) ex(m.clk);
    ex(in.clk);
    vector<Ev> acc, ref;
    for (auto &e : in.acc) { int o[6]; s.decode(e.addr, o); if (o[0] == c) acc.push_back(e); }
    for (auto &e : in.ref) { int o[6]; s.decode(e.addr, o); if (o[0] == c) ref.push_back(e); }
    std::deque<Req> P;
    size_t ai = 0, ri = 0, ci = 0;
    u64 lastelig = 0;
    for (u64 tt = 0; tt < in.clk; tt++) {
      long t = tt;
      for (; ai < acc.size() && acc[ai].clk <= tt; ai++) {
        auto &e = acc[ai];
        bool known = false;
        for (auto &x : P) if (x.addr == e.addr && (x.w || !e.w)) known = true;
        if (known) continue;
        int o[6];
        s.decode(e.addr, o);
        lastelig = std::max(lastelig, tt) + 1;
        P.push_back({tt, e.addr, e.w, o[1], o[2], o[2] * s.bpg + o[3], o[4], e.w && !s.unified ? ~0ULL : lastelig});  // a write buffer holds writes back
      }
      for (; ri < ref.size() && ref[ri].clk <= tt; ri++) {
        long n = 0;
        for (auto &x : P) n += s.unified || x.w == ref[ri].w;
        counts["refusals_checked"]++;
        if (n < s.tq) viol("idle-refused", "channel %d: a %s was refused at cycle %ld with %ld waiting, the queue takes %d (%s)", c, ref[ri].w ? "write" : "read", t, n, s.tq, in.ini.c_str());
      }
      if ((long)P.size() >= s.cq) {
        for (auto &x : P) if (x.elig > tt) x.elig = std::max(x.elig, tt + s.cq + 1);
        lastelig = std::max(lastelig, tt + s.cq + 1);
      }
      if (ci >= cmds.size() || cmds[ci].clk > tt) {
        if (excl[tt] || P.empty()) continue;
        counts["idle_cycles"]++;
        for (size_t i = 0; i < P.size(); i++) {
          auto &x = P[i];
          if (x.elig > tt) continue;
          Bank &b = B[x.ra][x.bk];
          const char *what = nullptr;
          long from = NO;
          auto due = [&](long at, long gap) { if (at > NO / 2) from = std::max(from, at + gap); };
          if (sref[x.ra]) { what = "self-refresh exit"; due(lse[x.ra], s.ckesr); }
          else if (!b.open) {
            what = "activate";
            due(b.act, s.rc); due(b.pre, s.rp); due(b.rda, s.AL + s.bc + s.rtp + s.rp); due(b.wra, s.WL + s.bc + s.wr + s.rp);
            due(lref[x.ra], s.rfc); due(lrefb[x.ra], s.rfcb); due(lsx[x.ra], s.xs);
            for (int g = 0; g < s.bg; g++) due(lact[x.ra][g], g == x.bg ? s.rrdl : s.rrds);
            auto &A = acts[x.ra];
            if (A.size() >= 4) due(A[A.size() - 4], s.faw);
            if (s.gddr && A.size() >= 32) due(A[A.size() - 32], s.aw32);
          } else if (b.row != x.row) {
            bool wait = false;
            for (size_t j = 0; j < P.size(); j++) {
              auto &y = P[j];
              if (y.ra == x.ra && y.bk == x.bk && (j < i || (y.row == b.row && b.hits < 4))) wait = true;
            }
            if (wait) continue;
            what = "precharge";
            due(b.act, s.ras); due(b.rd, s.AL + s.rtp); due(b.wr, s.WL + s.bc + s.wr);
            if (s.gddr || s.proto == "LPDDR4") due(lpre[x.ra], s.ppd);
          } else {
            bool wait = false;
            for (size_t j = 0; j < i; j++) if (x.w && P[j].addr == x.addr) wait = true;
            if (wait) continue;
            what = x.w ? "write" : "read";
            due(b.act, x.w ? s.rcdw : s.rcdr);
            for (int ra = 0; ra < s.ranks; ra++)
              for (int g = 0; g < s.bg; g++) {
                bool same = g == x.bg;
                if (ra == x.ra) {
                  if (!x.w) { due(lrd[ra][g], std::max(s.bc, same ? s.ccdl : s.ccds)); due(lwr[ra][g], s.WL + s.bc + (same ? s.wtrl : s.wtrs)); }
                  else { due(lwr[ra][g], std::max(s.bc, same ? s.ccdl : s.ccds)); due(lrd[ra][g], s.RL + s.bc - s.WL + s.rtrs); }
                } else if (!x.w) { due(lrd[ra][g], s.bc + s.rtrs); due(lwr[ra][g], s.WL + s.bc + s.rtrs - s.RL); }
                else { due(lwr[ra][g], s.bc); due(lrd[ra][g], s.RL + s.bc + s.rtrs - s.WL); }
              }
          }
          counts["waiting_requests_judged"]++;
          if (from <= t) {
            viol((string("idle-") + what).c_str(), "channel %d: nothing was issued at %ld, a %s for the %s of rank %d group %d bank %d row %ld, waiting since %ld, was legal since %ld (%s)", c, t, what, x.w ? "write" : "read", x.ra, x.bg, x.bk % s.bpg, x.row, (long)x.a, std::max(from, (long)x.elig), in.ini.c_str());
            break;
          }
        }
        continue;
      }
      for (; ci < cmds.size() && cmds[ci].clk <= tt; ci++) {
        auto &m = cmds[ci];
        if (m.ra < 0 || m.ra >= s.ranks) return;
        if (m.op == "refresh") { lref[m.ra] = t; continue; }
        if (m.op == "self_refresh_enter") { sref[m.ra] = 1; lse[m.ra] = t; continue; }
        if (m.op == "self_refresh_exit") { sref[m.ra] = 0; lsx[m.ra] = t; continue; }
        if (m.bg < 0 || m.bg >= s.bg || m.ba < 0 || m.ba >= s.bpg) return;
        int bk = m.bg * s.bpg + m.ba;
        Bank &b = B[m.ra][bk];
        if (m.op == "refresh_bank") lrefb[m.ra] = t;
        else if (m.op == "precharge") { b.open = false; b.pre = lpre[m.ra] = t; b.hits = 0; }
        else if (m.op == "activate") { b.open = true; b.row = m.row; b.act = t; b.hits = 0; lact[m.ra][m.bg] = t; acts[m.ra].push_back(t); if (acts[m.ra].size() > 40) acts[m.ra].pop_front(); }
        else {
          bool isr = m.op[0] == 'r', ap = m.op.size() > 2 && m.op.substr(m.op.size() - 2) == "_p";
          (isr ? lrd : lwr)[m.ra][m.bg] = t;
          if (ap) { b.open = false; (isr ? b.rda : b.wra) = t; b.hits = 0; } else { (isr ? b.rd : b.wr) = t; b.hits++; }
          int o[6] = {c, m.ra, m.bg, m.ba, (int)m.row, (int)m.col};
          u64 a = s.encode(o);
          const Req *older = nullptr;
          long passed = 0;
          for (size_t i = 0; i < P.size(); i++) {
            auto &x = P[i];
            if (x.addr == a && x.w != isr) {
              counts["order_checks"]++;
              if (older) viol("idle-order", "channel %d: the %s of row %ld column %ld that came at %ld was served at %ld before one of the same row that came at %ld (%s)", c, isr ? "read" : "write", m.row, m.col, (long)x.a, t, (long)older->a, in.ini.c_str());
              P.erase(P.begin() + i);
              break;
            }
            if (x.ra == m.ra && x.bk == bk) { passed++;
              bool held = false;  // a write waits for earlier reads of its address
              for (size_t j = 0; j < i; j++) if (x.w && P[j].addr == x.addr) held = true;
              if (x.w != isr && x.row == m.row && !held) older = &P[i];
            }
          }
          if (passed > counts["max_overtaken"]) counts["max_overtaken"] = passed;
        }
      }
    }
  }
}

int main(int argc, char **argv) {
  if (argc < 5) return 77;
  lg = fopen(argv[1], "w");
  u64 seed = strtoull(argv[2], nullptr, 0), cycles = strtoull(argv[3], nullptr, 0);
  vector<Inst *> ins;
  for (int i = 4; i < argc; i++) {
    Inst *in = new Inst;
    std::istringstream q(argv[i]);
    string f[8];
    for (auto &x : f) std::getline(q, x, ',');
    in->ini = f[0]; in->out = f[1]; in->pattern = f[2]; in->wpct = atoi(f[3].c_str()); in->rate = atoi(f[4].c_str()); in->idle = atoi(f[5].c_str()); in->tail = atoi(f[6].c_str()); in->cap = atoi(f[7].c_str());
    in->sp = new Spec(Ini(in->ini));
    in->r.s = seed * 77 + i;
    for (int f2 = 0; f2 < 6; f2++) in->base[f2] = in->r() & ((1L << in->sp->width[f2]) - 1);
    for (int k = 0; k < 6; k++) { int o[6]; for (int f2 = 0; f2 < 6; f2++) o[f2] = in->r() & ((1L << in->sp->width[f2]) - 1); in->hot.push_back(in->sp->encode(o)); }
    auto cb = [in](bool w) { return [in, w](u64 a) {
      in->done.push_back({in->clk, a, w}); in->outstanding--; in->lastprog = in->clk;
      if (--in->pend[w][a] < 0) viol(w ? "write-callback" : "read-callback", "completion of address %lx that nobody waits for (%s)", (long)a, in->ini.c_str()); }; };
    in->mem = new dramsim3::MemorySystem(in->ini, in->out, cb(false), cb(true), 0);
    if (in->mem->GetRanks() != in->sp->ranks || in->mem->GetChannels() != in->sp->ch) viol("geometry", "%d ranks, %d channels; the configuration asks for %d, %d", in->mem->GetRanks(), in->mem->GetChannels(), in->sp->ranks, in->sp->ch);
    ins.push_back(in);
  }
  bool busy = true;
  for (u64 t = 0; t < cycles || busy; t++) {
    busy = false;
    for (Inst *in : ins) {
      if (t < cycles) {
        bool idle = in->idle && (t / in->idle) % 2;
        if (in->tail && t > cycles - in->tail) idle = true;
        int tries = in->sp->ch > 1 ? 4 : 2;
        for (int k = 0; k < tries && !idle; k++) {
          if (in->cap && in->outstanding >= in->cap) break;
          if (!in->have) { if ((int)(in->r() % 1000) >= in->rate) continue; in->pick(); }
          if (in->mem->WillAcceptTransaction(in->nexta, in->nw)) {
            in->acc.push_back({in->clk, in->nexta, in->nw});
            in->pend[in->nw][in->nexta]++; in->outstanding++;
            in->maxout = std::max(in->maxout, in->outstanding);
            in->mem->AddTransaction(in->nexta, in->nw);
            in->have = false;
          } else {
            in->refused++;
            if (in->cap) in->ref.push_back({in->clk, in->nexta, in->nw});
          }
        }
      }
      in->mem->ClockTick();
      in->clk++;
      if (in->outstanding) {
        if (in->clk - in->lastprog > 200000) { viol("stuck", "no completion for 200000 cycles with %ld requests outstanding (%s)", in->outstanding, in->ini.c_str()); in->outstanding = 0; t = cycles; }
        else busy = true;
      } else in->lastprog = in->clk;
    }
  }
  for (Inst *in : ins) in->mem->PrintStats();
  for (Inst *in : ins) delete in->mem;
  for (Inst *in : ins) { judge(*in); if (in->cap) conserve(*in); }
  for (auto &x : counts) fprintf(lg, "C %s %ld\n", x.first.c_str(), x.second);
  fprintf(lg, "E\n");
  fclose(lg);
  return 0;
}
