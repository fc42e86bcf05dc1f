// Walks the routing function of a BookSim network from every source to every destination, on every VC and along every alternative it offers.
// usage: route <config file> <log file> <types> <trials> <minimal 0|1|2|3|4>
// minimal: every hop gets nearer 1: in routers, 2: in link latency, 3: in grid steps; 4: no more hops than grid steps; 0: not checked <acyclic 0|1>
#include <cstdarg>
#include <cstdint>
#include <unistd.h>
#include <algorithm>
#include <cstdio>
#include <cstdlib>
#include <functional>
#include <map>
#include <queue>
#include <set>
#include <string>
#include <tuple>
#include <vector>
#include "booksim.hpp"
#include "booksim_config.hpp"
#include "network.hpp"
#include "outputset.hpp"
#include "random_utils.hpp"
#include "routefunc.hpp"
#include "router.hpp"

std::ostream *gWatchOut = &std::cerr;
int GetSimTime() { return 0; }
static FILE *lg;
static long nviol = 0;
static void viol(const char *k, const char *fmt, ...) {
  va_list ap;
  va_start(ap, fmt);
  if (nviol++ < 20) { fprintf(lg, "V %s ", k); vfprintf(lg, fmt, ap); fputc('\n', lg); }
  va_end(ap);
}

// Stands in for a router when a routing function asks how full its outputs are: answers at random, so both sides of every adaptive choice are taken.
struct Probe : public Router {
  static uint64_t s;
  static unsigned rnd() { s ^= s << 13; s ^= s >> 7; s ^= s << 17; return s >> 11; }
  Probe(const Configuration &c, const std::string &n, int id, int i, int o) : Router(c, nullptr, n, id, i, o) { _channel_faults.resize(o, false); }
  void _InternalStep() override {}
  void ReadInputs() override {}
  void WriteOutputs() override {}
  int GetUsedCredit(int) const override { return rnd() % 3 ? rnd() % 12 : 0; }
  int GetBufferOccupancy(int) const override { return rnd() % 8; }
  std::vector<int> UsedCredits() const override { return {}; }
  std::vector<int> FreeCredits() const override { return {}; }
  std::vector<int> MaxCredits() const override { return {}; }
};
uint64_t Probe::s = 88172645463325252ULL;

int main(int argc, char **argv) {
  if (argc < 7) return 77;
  lg = fopen(argv[2], "w");
  setvbuf(lg, nullptr, _IOLBF, 1 << 16);
  int types = atoi(argv[3]), trials = atoi(argv[4]), minimal = atoi(argv[5]), acyclic = atoi(argv[6]);
  BookSimConfig cfg;
  cfg.ParseFile(argv[1]);
  InitializeRoutingMap(cfg);
  RandomSeed(cfg.GetInt("seed"));
  Network *net = Network::New(cfg, "noc");
  auto it = gRoutingFunctionMap.find(cfg.GetStr("routing_function") + "_" + cfg.GetStr("topology"));
  if (!net || it == gRoutingFunctionMap.end()) { fprintf(lg, "X\n"); return 77; }
  tRoutingFunction route = it->second;
  int N = net->NumNodes(), R = net->NumRouters(), V = cfg.GetInt("num_vcs");
  const char *tn[5] = {"read_request", "write_request", "write_data", "read_reply", "write_reply"};
  int K = cfg.GetInt("k"), D = cfg.GetInt("n");
  auto grid = [&](int a, int b) { int s = 0; for (int i = 0; i < D; i++, a /= K, b /= K) s += abs(a % K - b % K); return s; };
  std::vector<Probe *> probe;
  for (int r = 0; r < R; r++) probe.push_back(new Probe(cfg, "probe", net->GetRouter(r)->GetID(), net->GetRouter(r)->NumInputs(), net->GetRouter(r)->NumOutputs()));
  std::map<const Router *, int> rid;
  for (int r = 0; r < R; r++) rid[net->GetRouter(r)] = r;
  std::map<const FlitChannel *, int> chid, ejnode;
  std::vector<int> inch(N);
  auto cid = [&](const FlitChannel *c) { auto p = chid.emplace(c, (int)chid.size()); return p.first->second; };
  for (int n = 0; n < N; n++) { ejnode[net->GetEject(n)] = n; cid(net->GetInject(n)); }
  // distances towards every router, over the channels as they are wired
  std::vector<std::vector<std::pair<int, int>>> radj(R);   // reverse adjacency: (from, weight)
  std::vector<std::vector<std::tuple<int, int>>> adj(R);
  for (int r = 0; r < R; r++) {
    Router *ro = net->GetRouter(r);
    for (int o = 0; o < ro->NumOutputs(); o++) {
      FlitChannel *c = ro->GetOutputChannel(o);
      if (!c) continue;
      if (c->GetSource() != ro) viol("wiring", "output %d of router %d is driven by another router", o, r);
      if (!c->GetSink()) { if (!ejnode.count(c) && cfg.GetStr("topology") != "cmesh") viol("wiring", "output %d of router %d leads nowhere", o, r); continue; }
      if (c->GetSink()->GetInputChannel(c->GetSinkPort()) != c) viol("wiring", "channel from output %d of router %d names a wrong sink port", o, r);
      radj[rid[c->GetSink()]].push_back({r, minimal == 2 ? c->GetLatency() : 1});
    }
  }
  std::vector<std::vector<int>> dist(R, std::vector<int>(R, 1 << 29));   // dist[d][r]: from r to d
  for (int d = 0; d < R; d++) {
    std::priority_queue<std::pair<int, int>, std::vector<std::pair<int, int>>, std::greater<>> q;
    dist[d][d] = 0;
    q.push({0, d});
    while (!q.empty()) {
      auto [w, x] = q.top(); q.pop();
      if (w > dist[d][x]) continue;
      for (auto &e : radj[x])
        if (w + e.second < dist[d][e.first]) { dist[d][e.first] = w + e.second; q.push({w + e.second, e.first}); }
    }
  }
  if (minimal == 3)
    for (int d = 0; d < R; d++) for (int r = 0; r < R; r++) dist[d][r] = grid(d, r);
  std::map<int, std::set<int>> dep;   // (channel, vc) waits for (channel, vc)
  long steps = 0, paths = 0, ejects = 0, maxhops = 0, multi = 0;
  typedef std::tuple<int, int, int, int, int> St;   // router, in port, vc, ph, intm
  for (int t = 0; t < types; t++) {
    int vb = cfg.GetInt(std::string(tn[t]) + "_begin_vc"), ve = cfg.GetInt(std::string(tn[t]) + "_end_vc");
    for (int s = 0; s < N; s++)
      for (int d = 0; d < N; d++) {
        const FlitChannel *in = net->GetInject(s);
        int drt = rid[net->GetEject(d)->GetSource()];
        std::map<St, int> color;
        long reached = 0;
        std::function<int(St, int)> walk = [&](St st, int hops) -> int {
          auto [r, p, v, ph, im] = st;
          auto c = color.find(st);
          if (c != color.end()) {
            if (c->second == 1) viol("livelock", "a packet %d->%d of type %d can come back to router %d port %d VC %d in the same state", s, d, t, r, p, v);
            return 0;
          }
          color[st] = 1;
          if (hops > maxhops) maxhops = hops;
          if (hops > 8 * R + 8) { viol("livelock", "a packet %d->%d is still under way after %d hops", s, d, hops); return 0; }
          const Router *ro = net->GetRouter(r);
          Flit *f = Flit::New();
          f->id = f->pid = 1; f->src = s; f->dest = d; f->vc = v; f->ph = ph; f->intm = im; f->type = (Flit::FlitType)t;
          f->head = f->tail = true; f->watch = false; f->subnetwork = 0; f->hops = hops; f->cl = 0;
          OutputSet os;
          steps++;
          route(probe[r], f, p, &os, false);
          int nph = f->ph, nim = f->intm;
          f->Free();
          auto set = os.GetSet();
          if (set.empty()) viol("deadend", "no output for packet %d->%d of type %d at router %d port %d VC %d", s, d, t, r, p, v);
          if (set.size() > 1) multi++;
          for (auto &e : set) {
            if (e.output_port < 0 || e.output_port >= ro->NumOutputs()) { viol("port", "packet %d->%d at router %d routed to output %d", s, d, r, e.output_port); continue; }
            if (e.vc_start > e.vc_end || e.vc_start < vb || e.vc_end > ve) { viol("vcrange", "packet %d->%d of type %d at router %d allowed VCs %d..%d, its type has %d..%d", s, d, t, r, e.vc_start, e.vc_end, vb, ve); continue; }
            const FlitChannel *oc = ro->GetOutputChannel(e.output_port);
            const Router *sk = oc->GetSink();
            if (!sk) {
              auto n = ejnode.find(oc);
              if (n == ejnode.end()) viol("unconnected", "packet %d->%d at router %d routed to unconnected output %d", s, d, r, e.output_port);
              else if (n->second != d) viol("misroute", "packet %d->%d of type %d leaves the network at node %d", s, d, t, n->second);
              else {
                reached++; ejects++;
                if (minimal == 4 && hops > grid(rid[in->GetSink()], r)) viol("detour", "packet %d->%d took %d hops over %d grid steps", s, d, hops, grid(rid[in->GetSink()], r));
              }
              continue;
            }
            int k = rid[sk];
            int w = minimal == 2 ? oc->GetLatency() : 1;
            if (minimal && minimal < 4 && dist[drt][k] + w != dist[drt][r]) viol("detour", "packet %d->%d at router %d (distance %d) sent to router %d (distance %d)", s, d, r, dist[drt][r], k, dist[drt][k]);
            int ich = cid(ro->GetInputChannel(p));
            for (int ov = e.vc_start; ov <= e.vc_end; ov++) {
              dep[ich * V + v].insert(cid(oc) * V + ov);
              walk(St(k, oc->GetSinkPort(), ov, nph, nim), hops + 1);
            }
          }
          color[st] = 2;
          return 0;
        };
        for (int v = vb; v <= ve; v++)
          for (int x = 0; x < trials; x++) {
            color.clear();
            long before = reached;
            paths++;
            walk(St(rid[in->GetSink()], in->GetSinkPort(), v, -1, -1), 0);
            if (reached == before) viol("unreached", "packet %d->%d of type %d injected on VC %d never reaches its destination", s, d, t, v);
          }
      }
  }
  // cycles of the channel dependency graph
  std::map<int, int> col;
  long edges = 0, cyc = 0;
  for (auto &e : dep) edges += e.second.size();
  for (auto &e0 : dep) {
    if (col[e0.first]) continue;
    std::vector<std::pair<int, std::set<int>::iterator>> stk;
    auto open = [&](int x) { col[x] = 1; stk.push_back({x, dep[x].begin()}); };
    open(e0.first);
    while (!stk.empty()) {
      auto &top = stk.back();
      if (top.second == dep[top.first].end()) { col[top.first] = 2; stk.pop_back(); continue; }
      int y = *top.second++;
      if (col[y] == 1) { if (!cyc++ && acyclic) viol("cycle", "channel %d VC %d waits for itself through %zu channels", y / V, y % V, stk.size()); }
      else if (!col[y]) open(y);
    }
  }
  fprintf(lg, "E nodes %d routers %d paths %ld steps %ld ejects %ld maxhops %ld choices %ld dependencies %ld cycles %ld\n", N, R, paths, steps, ejects, maxhops, multi, edges, cyc);
  fclose(lg);
  _exit(0);
}
