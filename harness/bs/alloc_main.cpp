// Drives BookSim's allocators and arbiters directly, with request sets drawn at random, and judges every grant.
// usage: alloc <log file> <seed> <cases> <rounds>
#include <cstdarg>
#include <cstdint>
#include <unistd.h>
#include <algorithm>
#include <cstdio>
#include <cstdlib>
#include <functional>
#include <list>
#include <map>
#include <set>
#include <string>
#include <vector>
#include "allocator.hpp"
#include "arbiter.hpp"
#include "booksim.hpp"
#include "booksim_config.hpp"
#include "random_utils.hpp"
#include "routefunc.hpp"

std::ostream *gWatchOut = &std::cerr;
int GetSimTime() { return 0; }
static FILE *lg;
static std::map<std::string, long> seen;
static void viol(const std::string &k, const char *fmt, ...) {
  va_list ap;
  va_start(ap, fmt);
  if (seen[k]++ < 3) { fprintf(lg, "V %s ", k.c_str()); vfprintf(lg, fmt, ap); fputc('\n', lg); }
  va_end(ap);
}
static uint64_t rs = 1;
static uint64_t rnd() {
  uint64_t z = (rs += 0x9e3779b97f4a7c15ULL);
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL; z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL; return z ^ (z >> 31);
}
static int in(int a, int b) { return a + rnd() % (b - a + 1); }
static std::map<std::string, long> cnt;

static void arbiter_case(int rounds) {
  const char *base[] = {"round_robin", "matrix"};
  std::string t = base[rnd() % 2], type = t;
  int n = in(1, 12), groups = 0;
  if (rnd() % 3 == 0) {
    groups = in(1, 4);
    n = groups * in(1, 5);
    type = "tree(" + std::to_string(groups) + "," + t + ")";
  }
  Arbiter *a = Arbiter::NewArbiter(nullptr, "a", type, n);
  int ptr = 0, prange = rnd() % 2 ? 0 : in(1, 5), dens = in(1, 4), upd = in(0, 2);
  std::list<int> lru;   // front: next to be served
  for (int i = n - 1; i >= 0; i--) lru.push_back(i);
  std::string tag = groups ? "tree-" + t : t;
  for (int r = 0; r < rounds; r++) {
    std::map<int, std::pair<int, int>> req;
    std::vector<int> order(n);
    for (int i = 0; i < n; i++) order[i] = i;
    for (int i = n - 1; i > 0; i--) std::swap(order[i], order[rnd() % (i + 1)]);
    for (int i : order)
      if ((int)(rnd() % 4) < dens) {
        int pri = prange ? in(-prange, prange) : 0, id = in(0, 1000);
        req[i] = {id, pri};
        a->AddRequest(i, id, pri);
      }
    if (a->_num_reqs != (int)req.size()) viol("arbiter-" + tag + "-count", "%d requests counted as %d", (int)req.size(), a->_num_reqs);
    int id = -7, pri = -7, w = a->Arbitrate(&id, &pri);
    cnt["arbitrations"]++;
    if (req.empty()) {
      if (w != -1) viol("arbiter-" + tag + "-phantom", "input %d of %d won without any request", w, n);
    } else if (!req.count(w)) {
      viol("arbiter-" + tag + "-invalid", "winner %d of %d made no request", w, n);
    } else {
      int best = -1000;
      for (auto &q : req) best = std::max(best, q.second.second);
      if (req[w].second != best) viol("arbiter-" + tag + "-priority", "input %d with priority %d won, the highest was %d", w, req[w].second, best);
      if (id != req[w].first || pri != req[w].second) viol("arbiter-" + tag + "-label", "winner %d reported as request %d priority %d instead of %d, %d", w, id, pri, req[w].first, req[w].second);
      if (!groups) {
        int want = -1;
        if (t == "round_robin") {
          for (int k = 0; k < n && want < 0; k++) { int i = (ptr + k) % n; if (req.count(i) && req[i].second == best) want = i; }
        } else {
          for (int i : lru) if (req.count(i) && req[i].second == best) { want = i; break; }
        }
        if (w != want) viol("arbiter-" + tag + "-fairness", "input %d of %d won, it was %d's turn", w, n, want);
        if (req.size() > 1) cnt["contested_arbitrations"]++;
      }
      if (upd < 2 || rnd() % 2) {
        a->UpdateState();
        ptr = (w + 1) % n;
        lru.remove(w);
        lru.push_back(w);
      }
    }
    a->Clear();
  }
  // everybody asks, nobody starves
  std::vector<int> last(n, 0);
  int bound = n * 3 + 3;
  for (int r = 1; r <= 6 * n; r++) {
    for (int i = 0; i < n; i++) a->AddRequest(i, i, 0);
    int w = a->Arbitrate();
    if (w < 0 || w >= n) { viol("arbiter-" + tag + "-invalid", "winner %d of %d", w, n); break; }
    a->UpdateState();
    a->Clear();
    last[w] = r;
    for (int i = 0; i < n; i++)
      if (r - last[i] > bound) { viol("arbiter-" + tag + "-starvation", "input %d of %d waited %d rounds", i, n, r - last[i]); last[i] = r; }
  }
  cnt["arbiters_" + tag]++;
  delete a;
}

static int maximum(const std::vector<std::vector<int>> &q, int I, int O) {
  std::vector<int> mo(O, -1);
  int m = 0;
  for (int i = 0; i < I; i++) {
    std::vector<char> vis(O, 0);
    std::function<bool(int)> aug = [&](int x) {
      for (int o = 0; o < O; o++)
        if (q[x][o] >= 0 && !vis[o]) { vis[o] = 1; if (mo[o] < 0 || aug(mo[o])) { mo[o] = x; return true; } }
      return false;
    };
    m += aug(i);
  }
  return m;
}

static void allocator_case(int rounds) {
  const char *types[] = {"islip", "separable_input_first", "separable_output_first", "wavefront", "pim", "loa", "select", "max_size"};
  std::string t = types[rnd() % 8];
  int I = in(1, 9), O = in(1, 9);
  bool conv = rnd() % 2;
  int iters = conv ? std::max(I, O) + 1 : in(1, 2);
  BookSimConfig cfg;
  cfg.Assign("alloc_iters", iters);
  bool matrix = rnd() % 2 == 0;
  cfg.Assign("arb_type", std::string(matrix ? "matrix" : "round_robin"));
  Allocator *a = Allocator::NewAllocator(nullptr, "alloc", t, I, O, &cfg);
  if (!a) { viol("allocator-" + t + "-none", "no such allocator"); return; }
  int dens = in(1, 10), prange = rnd() % 2 ? 0 : in(1, 3);
  for (int r = 0; r < rounds; r++) {
    std::vector<std::vector<int>> q(I, std::vector<int>(O, -1)), pi(q), po(q);
    std::vector<std::pair<int, int>> todo;
    for (int i = 0; i < I; i++) for (int o = 0; o < O; o++) if ((int)(rnd() % 10) < dens) todo.push_back({i, o});
    for (int k = (int)todo.size() - 1; k > 0; k--) std::swap(todo[k], todo[rnd() % (k + 1)]);
    for (auto &p : todo) {
      int l = in(0, 50), x = prange ? in(-prange, prange) : 0, y = prange ? in(-prange, prange) : 0;
      a->AddRequest(p.first, p.second, l, x, y);
      q[p.first][p.second] = l; pi[p.first][p.second] = x; po[p.first][p.second] = y;
    }
    if (rnd() % 4 == 0 && !todo.empty()) {
      auto p = todo[rnd() % todo.size()];   // replaced by another request between the same two, as the router does
      a->RemoveRequest(p.first, p.second, q[p.first][p.second]);
      int l = in(0, 50), x = prange ? in(-prange, prange) : 0, y = prange ? in(-prange, prange) : 0;
      a->AddRequest(p.first, p.second, l, x, y);
      q[p.first][p.second] = l; pi[p.first][p.second] = x; po[p.first][p.second] = y;
      cnt["replaced_requests"]++;
    }
    int total = 0;
    for (int i = 0; i < I; i++) {
      int c = 0;
      for (int o = 0; o < O; o++) {
        if (q[i][o] >= 0) c++;
        Allocator::sRequest s;
        bool has = a->ReadRequest(s, i, o);
        if (has != (q[i][o] >= 0) || (has && (s.label != q[i][o] || a->ReadRequest(i, o) != q[i][o]))) viol("allocator-" + t + "-request", "request %d->%d read back as %d label %d, made with label %d", i, o, has, has ? s.label : -1, q[i][o]);
      }
      total += c;
      if (a->InputHasRequests(i) != (c > 0)) viol("allocator-" + t + "-request", "input %d with %d requests is said to have %s", i, c, c ? "none" : "some");
    }
    for (int o = 0; o < O; o++) {
      int c = 0;
      for (int i = 0; i < I; i++) c += q[i][o] >= 0;
      if (a->OutputHasRequests(o) != (c > 0)) viol("allocator-" + t + "-request", "output %d with %d requests is said to have %s", o, c, c ? "none" : "some");
    }
    a->Allocate();
    cnt["allocations"]++;
    int grants = 0;
    std::vector<int> mi(I, -1), mo(O, -1);
    for (int i = 0; i < I; i++) mi[i] = a->OutputAssigned(i);
    for (int o = 0; o < O; o++) mo[o] = a->InputAssigned(o);
    for (int i = 0; i < I; i++)
      if (mi[i] >= 0) {
        grants++;
        if (mi[i] >= O || mo[mi[i]] != i) viol("allocator-" + t + "-matching", "input %d holds output %d, which is held by input %d", i, mi[i], mi[i] < O ? mo[mi[i]] : -9);
        else if (q[i][mi[i]] < 0) viol("allocator-" + t + "-unrequested", "input %d was granted output %d it did not ask for", i, mi[i]);
      }
    for (int o = 0; o < O; o++)
      if (mo[o] >= 0 && (mo[o] >= I || mi[mo[o]] != o)) viol("allocator-" + t + "-matching", "output %d holds input %d, which holds another output", o, mo[o]);
    if (total && !grants) viol("allocator-" + t + "-idle", "%d requests, no grant (%dx%d)", total, I, O);
    cnt["grants"] += grants;
    if (grants < total) cnt["contested_allocations"]++;
    bool maximal = t == "wavefront" || t == "max_size" || (conv && (t == "islip" || t == "pim" || t == "select"));
    if (maximal)
      for (int i = 0; i < I; i++)
        for (int o = 0; o < O; o++)
          if (q[i][o] >= 0 && mi[i] < 0 && mo[o] < 0) viol("allocator-" + t + "-maximal", "request %d->%d refused although both were free (%dx%d, %d iterations)", i, o, I, O, iters);
    if (t == "max_size") {
      int m = maximum(q, I, O);
      if (grants != m) viol("allocator-max_size-maximum", "%d grants where %d are possible", grants, m);
    }
    if (prange) {
      // one contender per input, all for the same output: the highest output priority wins where the allocator looks at it
      if (t == "separable_output_first" || t == "separable_input_first") {
        for (int o = 0; o < O; o++) {
          if (mo[o] < 0) continue;
          for (int i = 0; i < I; i++) {
            bool only = q[i][o] >= 0;
            for (int x = 0; x < O && only; x++) only = x == o || q[i][x] < 0;
            if (only && t == "separable_input_first" && po[i][o] > po[mo[o]][o]) viol("allocator-" + t + "-priority", "output %d went to input %d with priority %d, input %d asked only for it with priority %d", o, mo[o], po[mo[o]][o], i, po[i][o]);
          }
        }
        for (int i = 0; i < I; i++) {
          if (mi[i] < 0) continue;
          for (int o = 0; o < O; o++) {
            bool only = q[i][o] >= 0;
            for (int x = 0; x < I && only; x++) only = x == i || q[x][o] < 0;
            if (only && t == "separable_output_first" && pi[i][o] > pi[i][mi[i]]) viol("allocator-" + t + "-priority", "input %d took output %d with priority %d, output %d was its own with priority %d", i, mi[i], pi[i][mi[i]], o, pi[i][o]);
          }
        }
      }
      if (t == "wavefront")
        for (int i = 0; i < I; i++)
          for (int o = 0; o < O; o++) {
            if (q[i][o] < 0 || mi[i] == o) continue;
            auto k = std::make_pair(po[i][o], pi[i][o]);
            bool by_in = mi[i] >= 0 && std::make_pair(po[i][mi[i]], pi[i][mi[i]]) >= k, by_out = mo[o] >= 0 && std::make_pair(po[mo[o]][o], pi[mo[o]][o]) >= k;
            if (!by_in && !by_out) viol("allocator-wavefront-priority", "request %d->%d of priority %d/%d lost to lower priorities only", i, o, k.first, k.second);
          }
      cnt["prioritised_allocations"]++;
    }
    a->Clear();
    for (int i = 0; i < I; i++) if (a->OutputAssigned(i) != -1) viol("allocator-" + t + "-clear", "grant of input %d survives Clear", i);
  }
  // persistent equal requests: every requesting input is served again and again
  if (t != "max_size") {
    std::vector<std::vector<int>> q(I, std::vector<int>(O, 0));
    for (auto &x : q) for (auto &y : x) y = rnd() % 3 > 0;
    std::vector<int> last(I, 0), lasto(O, 0);
    int bound = t == "pim" ? 60 * (I + O) : 4 * (I + O) + 8, worst = 0;
    for (int r = 1; r <= 3 * bound; r++) {
      for (int i = 0; i < I; i++) for (int o = 0; o < O; o++) if (q[i][o]) a->AddRequest(i, o, 1, 0, 0);
      a->Allocate();
      for (int i = 0; i < I; i++) {
        bool any = false;
        for (int o = 0; o < O; o++) any |= q[i][o];
        if (!any || a->OutputAssigned(i) >= 0) last[i] = r;
        worst = std::max(worst, r - last[i]);
        if (r - last[i] > bound) { viol("allocator-" + t + "-starvation", "input %d of %d waited %d rounds (%dx%d)", i, I, r - last[i], I, O); last[i] = r; }
      }
      a->Clear();
    }
    cnt["longest_wait_" + t] = std::max(cnt["longest_wait_" + t], (long)worst);
    cnt["persistent_workloads"]++;
  }
  // everybody asks for everything, all the time: pointers that move with accepted grants only drift apart until no grant is wasted
  bool rr = t == "islip" || t == "select" || t == "wavefront" || t == "separable_input_first" || t == "separable_output_first";
  if (rr) {
    std::vector<std::vector<int>> last(I, std::vector<int>(O, 0));
    int settle = 12 * I * O + 50, turns = 4 * std::max(I, O), full = std::min(I, O), least = full, worst = 0;
    for (int r = 1; r <= settle + turns; r++) {
      for (int i = 0; i < I; i++) for (int o = 0; o < O; o++) a->AddRequest(i, o, 1, 0, 0);
      a->Allocate();
      int g = 0;
      for (int i = 0; i < I; i++) { int o = a->OutputAssigned(i); if (o >= 0) { g++; last[i][o] = r; } }
      if (r > settle) least = std::min(least, g);
      a->Clear();
    }
    for (int i = 0; i < I; i++) for (int o = 0; o < O; o++) worst = std::max(worst, settle + turns - last[i][o]);
    if (least < full && (!matrix || t == "wavefront")) viol("allocator-" + t + "-synchronised", "all %d inputs keep asking for all %d outputs, but rounds with %d grants go on", I, O, least);
    if (worst > turns) viol("allocator-" + t + "-pair", "an input of %d keeps asking for an output of %d, without a grant in %d rounds", I, O, worst);
    cnt["saturated_workloads"]++;
  }
  cnt["allocators_" + t]++;
  delete a;
}

int main(int argc, char **argv) {
  if (argc < 5) return 77;
  lg = fopen(argv[1], "w");
  setvbuf(lg, nullptr, _IOLBF, 1 << 16);
  long cases = atol(argv[3]);
  for (long c = 0; c < cases; c++) {
    rs = atol(argv[2]) * 1000003 + c * 7919;
    RandomSeed(rnd() % 100000);
    if (rnd() % 3 == 0) arbiter_case(atoi(argv[4]));
    else allocator_case(atoi(argv[4]));
  }
  for (auto &k : cnt) fprintf(lg, "C %s %ld\n", k.first.c_str(), k.second);
  fprintf(lg, "E\n");
  fclose(lg);
  _exit(0);
}
