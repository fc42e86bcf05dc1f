// Drives a BookSim network directly, the way the NoC adapters do, and monitors every flit and credit at its boundary.
// usage: bs <config file> <workload file> <log file>
// workload lines: "opt <key> <value>", "pkt <id> <src> <dst> <type> <flits> <cycle> <vc offset>"
#include <cstdarg>
#include <cstdint>
#include <unistd.h>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <fstream>
#include <map>
#include <sstream>
#include <string>
#include <vector>
#include "booksim.hpp"
#include "booksim_config.hpp"
#include "buffer_state.hpp"
#include "network.hpp"
#include "random_utils.hpp"
#include "routefunc.hpp"

static long g_cycle = 0, g_scale = 1000, g_base = 0;
std::ostream *gWatchOut = &std::cerr;
int GetSimTime() { return (int)(g_base + g_cycle * g_scale); }

struct Pkt { int id, src, dst, type, n, vco; long t; int sent = 0, recv = 0; long inj = -1, hinj = -1, head = -1, tail = -1; int hops = -1, vc = -1, evc = -1; };

static FILE *lg;
static long nviol = 0;
static void viol(const char *k, const char *fmt, ...) {
  va_list ap;
  va_start(ap, fmt);
  if (nviol++ < 40) { fprintf(lg, "V %s cycle %ld ", k, g_cycle); vfprintf(lg, fmt, ap); fputc('\n', lg); }
  va_end(ap);
}
static uint64_t rs = 1;
static uint64_t rnd() {
  uint64_t z = (rs += 0x9e3779b97f4a7c15ULL);
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL; z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL; return z ^ (z >> 31);
}

int main(int argc, char **argv) {
  if (argc < 4) return 77;
  lg = fopen(argv[3], "w");
  setvbuf(lg, nullptr, _IOLBF, 1 << 16);
  std::map<std::string, long> opt;
  std::vector<Pkt> pk;
  {
    std::ifstream f(argv[2]);
    std::string l, k;
    while (std::getline(f, l)) {
      std::istringstream s(l);
      s >> k;
      if (k == "opt") { std::string n; long v; s >> n >> v; opt[n] = v; }
      if (k == "pkt") { Pkt p; s >> p.id >> p.src >> p.dst >> p.type >> p.n >> p.t >> p.vco; pk.push_back(p); }
    }
  }
  rs = opt["seed"];
  g_scale = opt.count("scale") ? opt["scale"] : 1000;
  g_base = opt["base"];
  BookSimConfig cfg;
  cfg.ParseFile(argv[1]);
  InitializeRoutingMap(cfg);
  RandomSeed(opt["seed"]);
  Network *net = Network::New(cfg, "noc");
  if (!net) { fprintf(lg, "X nonet\n"); return 77; }
  std::string rf = cfg.GetStr("routing_function") + "_" + cfg.GetStr("topology");
  auto it = gRoutingFunctionMap.find(rf);
  if (it == gRoutingFunctionMap.end()) { fprintf(lg, "X norf %s\n", rf.c_str()); return 77; }
  tRoutingFunction route = it->second;
  bool la = !cfg.GetInt("routing_delay");
  int N = net->NumNodes(), V = cfg.GetInt("num_vcs"), depth = cfg.GetInt("vc_buf_size");
  bool wft = cfg.GetInt("wait_for_tail_credit");
  const char *tn[5] = {"read_request", "write_request", "write_data", "read_reply", "write_reply"};
  int vb[5], ve[5], types = opt.count("types") ? opt["types"] : 5;
  for (int t = 0; t < 5; t++) {
    vb[t] = cfg.GetInt(std::string(tn[t]) + "_begin_vc");
    ve[t] = cfg.GetInt(std::string(tn[t]) + "_end_vc");
  }
  std::vector<BufferState *> bs(N);
  for (int n = 0; n < N; n++) {
    bs[n] = new BufferState(cfg, nullptr, "terminal" + std::to_string(n));
    int va = cfg.GetInt("vc_alloc_delay"), sa = cfg.GetInt("sw_alloc_delay");
    bs[n]->SetMinLatency(1 + net->GetInject(n)->GetLatency() + cfg.GetInt("routing_delay") + va + sa + net->GetInjectCred(n)->GetLatency());
  }
  fprintf(lg, "N nodes %d routers %d vcs %d depth %d\n", N, net->NumRouters(), V, depth);
  std::map<int, int> byid;
  for (size_t i = 0; i < pk.size(); i++) byid[pk[i].id] = i;
  // per (node, vc) source queues
  std::vector<std::vector<std::deque<int>>> q(N, std::vector<std::deque<int>>(V));
  for (size_t i = 0; i < pk.size(); i++) {
    Pkt &p = pk[i];
    if (p.src >= N || p.dst >= N || p.type >= types) return 77;
    p.vc = vb[p.type] + p.vco % (ve[p.type] - vb[p.type] + 1);
    q[p.src][p.vc].push_back(i);
  }
  std::vector<int> rr(N, 0);
  std::vector<std::vector<std::deque<Flit *>>> ej(N, std::vector<std::deque<Flit *>>(V));
  std::vector<std::vector<int>> open(N, std::vector<int>(V, -1));       // packet in progress per ejection VC
  std::vector<std::vector<long>> outst(N, std::vector<long>(V, 0));     // flits sent minus credits back, injection side
  std::vector<std::deque<int>> credits(N);                              // credits waiting at the ejection side
  std::map<std::vector<int>, int> lastseq;                              // (src, dst, type, vc) -> last packet id
  std::vector<long> hold(N, 0);
  long maxc = opt.count("maxcyc") ? opt["maxcyc"] : 100000, drain = opt["drain"], left = pk.size(), stall = opt["stall"],
       mode = opt.count("mode") ? opt["mode"] : 1, quiet = 0, held = 0, flits = 0, creds = 0, stalled = 0, maxej = 0, maxout = 0, inflight = 0, peakfl = 0;
  bool inorder = opt["inorder"];
  long lastej = 0;
  while (g_cycle < maxc && quiet < drain) {
    g_cycle++;
    if (inflight) { if (g_cycle - lastej > 20000) break; } else lastej = g_cycle;   // nothing left the network for 20000 cycles
    if (!left && !held) quiet++;
    held = 0;
    // sinks: take one flit per node and cycle
    for (int n = 0; n < N; n++) {
      Flit *f = net->ReadFlit(n);
      if (f) {
        if (f->vc < 0 || f->vc >= V) { viol("vc", "flit of packet %d ejected on VC %d", f->pid, f->vc); continue; }
        auto b = byid.find(f->pid);
        if (b == byid.end()) { viol("phantom", "flit of unknown packet %d ejected at node %d", f->pid, n); continue; }
        Pkt &p = pk[b->second];
        inflight--;
        lastej = g_cycle;
        if (p.dst != n) viol("misrouted", "packet %d for node %d ejected at node %d", p.id, p.dst, n);
        if (f->src != p.src || f->dest != p.dst || f->type != p.type) viol("corrupt", "packet %d: header fields changed", p.id);
        if ((size_t)f->data != (size_t)p.id * 4096 + p.recv) viol("flitorder", "packet %d: flit %d expected, payload %zu arrived", p.id, p.recv, (size_t)f->data);
        if (f->vc < vb[p.type] || f->vc > ve[p.type]) viol("vcrange", "packet %d of type %d on VC %d", p.id, p.type, f->vc);
        if (f->head != (p.recv == 0) || f->tail != (p.recv == p.n - 1)) viol("headtail", "packet %d: flit %d of %d with head %d tail %d", p.id, p.recv, p.n, f->head, f->tail);
        int &o = open[n][f->vc];
        if (f->head) {
          if (o >= 0) viol("interleave", "packet %d starts inside packet %d on VC %d of node %d", p.id, o, f->vc, n);
          o = p.id;
          p.head = g_cycle;
          p.evc = f->vc;
        } else if (o != p.id) viol("interleave", "flit of packet %d inside packet %d on VC %d of node %d", p.id, o, f->vc, n);
        p.recv++;
        p.hops = f->hops;
        if (f->tail) {
          o = -1;
          p.tail = g_cycle;
          left--;
          if (inorder) {
            auto &l = lastseq[{p.src, p.dst, p.vc}];
            if (l > p.id) viol("order", "packet %d of flow %d->%d arrived after packet %d", p.id, p.src, p.dst, l);
            l = p.id;
          }
        }
        ej[n][f->vc].push_back(f);
        if ((long)ej[n][f->vc].size() > maxej) maxej = ej[n][f->vc].size();
        if ((int)ej[n][f->vc].size() > depth) viol("credit-overrun", "node %d holds %zu flits on VC %d, its buffer has %d slots", n, ej[n][f->vc].size(), f->vc, depth);
      }
    }
    // the consumer frees slots
    for (int n = 0; n < N; n++) {
      if (hold[n] > 0) { hold[n]--; stalled++; continue; }
      if (stall && (long)(rnd() % 256) < stall) { hold[n] = 1 + rnd() % mode; continue; }
      int s = rnd() % V;
      for (int k = 0; k < V; k++) {
        int v = (s + k) % V;
        if (!ej[n][v].empty()) {
          ej[n][v].front()->Free();
          ej[n][v].pop_front();
          credits[n].push_back(v);
          break;
        }
      }
    }
    for (int n = 0; n < N; n++)
      for (int v = 0; v < V; v++) held += ej[n][v].size();
    for (int n = 0; n < N; n++) held += credits[n].size();
    // sources
    for (int n = 0; n < N; n++) {
      for (int k = 0; k < V; k++) {
        int v = (rr[n] + k) % V;
        if (q[n][v].empty()) continue;
        Pkt &p = pk[q[n][v].front()];
        if (p.t > g_cycle || bs[n]->IsFullFor(v)) continue;
        if (p.sent == 0 && wft && !bs[n]->IsAvailableFor(v)) continue;
        Flit *f = Flit::New();
        f->id = p.id; f->pid = p.id; f->src = p.src; f->dest = p.dst; f->subnetwork = 0; f->watch = false; f->cl = 0; f->pri = 0;
        f->ctime = f->itime = g_cycle;
        f->head = p.sent == 0; f->tail = p.sent == p.n - 1;
        f->type = (Flit::FlitType)p.type;
        f->vc = v;
        f->data = (void *)((size_t)p.id * 4096 + p.sent);
        if (la) {
          const FlitChannel *in = net->GetInject(n);
          route(in->GetSink(), f, in->GetSinkPort(), &f->la_route_set, false);
        }
        if (f->head) { p.hinj = g_cycle; bs[n]->TakeBuffer(v); }
        net->WriteFlit(f, n);
        bs[n]->SendingFlit(f);
        flits++; inflight++;
        if (inflight > peakfl) peakfl = inflight;
        if (++outst[n][v] > depth) viol("source-overrun", "node %d sent %ld uncredited flits on VC %d", n, outst[n][v], v);
        if (outst[n][v] > maxout) maxout = outst[n][v];
        p.sent++;
        if (p.sent == p.n) { p.inj = g_cycle; q[n][v].pop_front(); }
        rr[n] = (v + 1) % V;
        break;
      }
      Credit *c = net->ReadCredit(n);
      if (c) {
        for (int v : c->vc) {
          creds++;
          if (v < 0 || v >= V) viol("credit-vc", "node %d received a credit for VC %d", n, v);
          else if (--outst[n][v] < 0) viol("credit-forged", "node %d received more credits on VC %d than it sent flits", n, v);
        }
        if (nviol == 0) bs[n]->ProcessCredit(c);
        c->Free();
      }
    }
    // network
    net->ReadInputs();
    for (int n = 0; n < N; n++)
      if (!credits[n].empty()) {
        Credit *c = Credit::New();
        c->vc.insert(credits[n].front());
        credits[n].pop_front();
        net->WriteCredit(c, n);
      }
    net->Evaluate();
    net->WriteOutputs();
  }
  // conservation at quiescence
  if (left) {
    fprintf(lg, "L %ld\n", left);
  } else if (opt["quiesce"]) {
    for (int n = 0; n < N; n++)
      for (int v = 0; v < V; v++) {
        if (outst[n][v]) viol("credit-lost", "node %d never got back %ld credits of VC %d", n, outst[n][v], v);
        if (!bs[n]->IsEmptyFor(v)) viol("credit-lost", "buffer state of node %d VC %d not empty", n, v);
      }
    for (int r = 0; r < net->NumRouters(); r++) {
      int s = 0;
      for (int c : net->GetRouter(r)->UsedCredits()) s += c;
      if (s) viol("credit-leak", "router %d still counts %d used credits downstream", r, s);
    }
  }
  for (auto &p : pk)
    fprintf(lg, "K %d %d %d %d %d %ld %ld %ld %ld %ld %d %d %d\n", p.id, p.src, p.dst, p.type, p.n, p.t, p.hinj, p.inj, p.head, p.tail, p.hops, p.recv, p.evc);
  fprintf(lg, "E cycles %ld flits %ld credits %ld stalled %ld peak_in_flight %ld peak_eject_fifo %ld peak_uncredited %ld left %ld\n", g_cycle, flits, creds, stalled, peakfl, maxej, maxout, left);
  fclose(lg);
  _exit(0);
}
