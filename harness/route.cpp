// one packet through a real network topology with the real routing function; random numbers, router load, VC and output choices are symbolic
#include <map>
#include <set>
#include <queue>
#include <string>
#include <vector>
#include <iostream>
#include "booksim.hpp"
#include "booksim_config.hpp"
#include "network.hpp"
#include "router.hpp"
#include "routefunc.hpp"
#include "outputset.hpp"
#include "flit.hpp"
#include "flitchannel.hpp"
#include "credit.hpp"
#include "sx.h"
#define STR_(x) #x
#define STR(x) std::string(STR_(x))
int GetSimTime() { return 0; }
std::ostream *gWatchOut = &std::cout;
static int g_ran;
// the generator: any value at all (routing takes it modulo a small number)
long ran_next() { g_ran++; return (long)sx_in("ran", RT_RBITS); }
double ranf_next() { return sx_in("ranf", 4) / 16.0; }
void ran_start(long) {} void ranf_start(long) {}
void SaveRandomState(std::vector<long> &, std::vector<double> &) {} void RestoreRandomState(const std::vector<long> &, const std::vector<double> &) {}
static std::map<std::pair<int, int>, int> g_load;
static int load(int r, int o) { auto k = std::make_pair(r, o); auto it = g_load.find(k); if (it == g_load.end()) it = g_load.insert({k, (int)sx_range("load", 4, 0, 9)}).first; return it->second; }
struct LoadRouter : Router { // stands in for the router microarchitecture: holds the links and reports an arbitrary load
  LoadRouter(const Configuration &c, Module *p, const string &n, int id, int i, int o) : Router(c, p, n, id, i, o) {}
  void _InternalStep() override {} void ReadInputs() override {} void WriteOutputs() override {}
  int GetUsedCredit(int o) const override { return load(_id, o); } int GetBufferOccupancy(int i) const override { return load(_id, 1000 + i); }
  vector<int> UsedCredits() const override { return {}; } vector<int> FreeCredits() const override { return {}; } vector<int> MaxCredits() const override { return {}; }
};
Router *Router::NewRouter(const Configuration &c, Module *p, const string &n, int id, int i, int o) { return new LoadRouter(c, p, n, id, i, o); }
#ifdef RT_CYCLE // second phase: the pairs that make up a circle
static const int g_cycle[][2] = {RT_CYCLE};
#endif
#ifdef RT_CYCLE
#define HOLDS(v) sx_fork(f->vc == (v))
#else
#define HOLDS(v) sx_may(f->vc == (v))
#endif
static void wait_edge(int a, int b) {
#ifdef RT_CYCLE
  for (auto &e : g_cycle) if (e[0] == a && e[1] == b) sx_fail("packets never wait for each other in a circle");
#else
  sx_edge(a, b);
#endif
}
extern "C" void harness() {
  BookSimConfig cfg; cfg.Assign("topology", STR(RT_TOPO)); cfg.Assign("k", RT_KK); cfg.Assign("n", RT_NN); cfg.Assign("c", RT_CC); cfg.Assign("num_vcs", RT_VCS); cfg.Assign("x", RT_XX); cfg.Assign("y", RT_YY); cfg.Assign("xr", RT_XR); cfg.Assign("yr", RT_YR); cfg.Assign("use_noc_latency", 0); cfg.Assign("routing_function", STR(RT_RF));
  if (RT_TYPES == 5) { const char *nm[] = {"read_request", "write_request", "write_data", "read_reply", "write_reply"}; for (int t = 0; t < 5; t++) { cfg.Assign(std::string(nm[t]) + "_begin_vc", t * (RT_VCS / 5)); cfg.Assign(std::string(nm[t]) + "_end_vc", (t + 1) * (RT_VCS / 5) - 1); } }
#ifdef ANYFILE
  cfg.Assign("network_file", std::string(ANYFILE));
#endif
  InitializeRoutingMap(cfg); Network *net = Network::New(cfg, "net"); int R = net->NumRouters(), N = net->NumNodes();
  tRoutingFunction rf = 0; { auto it = gRoutingFunctionMap.find(STR(RT_RF) + "_" + STR(RT_TOPO)); if (it == gRoutingFunctionMap.end()) { sx_fail("the routing function is registered"); return; } rf = it->second; }
  // wiring: every link ends where it says, with its credit link running the other way; every node hangs on one router port
  std::map<const Router *, int> idx; std::set<int> ids; for (int i = 0; i < R; i++) { idx[net->GetRouter(i)] = i; sx_check(ids.insert(net->GetRouter(i)->GetID()).second, "router ids are distinct"); }
  std::map<const FlitChannel *, int> eject; for (int n = 0; n < N; n++) eject[net->GetEject(n)] = n;
  std::map<const FlitChannel *, int> link; int nl = 0; std::map<const void *, int> used;
  for (int i = 0; i < R; i++) { Router *r = net->GetRouter(i); sx_check((int)r->_input_channels.size() == r->NumInputs() && (int)r->_output_channels.size() == r->NumOutputs(), "every router port is connected");
    for (int o = 0; o < (int)r->_output_channels.size(); o++) { FlitChannel *c = r->GetOutputChannel(o); link[c] = nl++; sx_check(++used[c] == 1 && c->GetSource() == r && c->GetSourcePort() == o, "each link leaves one router port"); sx_check(++used[r->_output_credits[o]] == 1, "each credit link ends at one router port"); Router *s = (Router *)c->GetSink();
      if (!s) { sx_check(eject.count(c), "a link that ends at no router ends at a node"); if (eject.count(c)) sx_check(r->_output_credits[o] == net->GetEjectCred()[eject[c]], "a node returns credits to the router that feeds it"); continue; }
      sx_check(c->GetSinkPort() >= 0 && c->GetSinkPort() < s->NumInputs() && s->GetInputChannel(c->GetSinkPort()) == c, "each link enters one router port"); sx_check(s->_input_credits[c->GetSinkPort()] == r->_output_credits[o], "each link's credits return to its sender"); sx_check(c->GetLatency() >= 1, "links take at least a cycle"); } }
  for (int n = 0; n < N; n++) { FlitChannel *c = net->GetInject(n); Router *s = (Router *)c->GetSink(); sx_check(s && s->GetInputChannel(c->GetSinkPort()) == c, "every node injects into one router port"); if (s) sx_check(s->_input_credits[c->GetSinkPort()] == net->GetInjectCred()[n], "a router returns credits to the node that feeds it"); sx_check(net->GetEject(n)->GetSource() != 0, "every node is fed by a router"); }
  sx_check(N == RT_NODES, "the network has the configured number of nodes");
  int src = RT_SRCS < RT_NODES ? (int)sx_pick("src", 8, 0, RT_SRCS - 1) * (RT_NODES / RT_SRCS) : (int)sx_pick("src", 8, 0, RT_NODES - 1), dst = (int)sx_pick("dst", 8, 0, RT_DSTS - 1) * (RT_NODES / RT_DSTS) + (RT_DSTS < RT_NODES ? RT_NODES / RT_DSTS - 1 : 0);
  int type = RT_TYPES == 5 ? (int)sx_pick("type", 4, 0, 4) : (int)Flit::ANY_TYPE, lo = RT_TYPES == 5 ? type * (RT_VCS / 5) : 0, hi = RT_TYPES == 5 ? lo + RT_VCS / 5 - 1 : RT_VCS - 1;
  // shortest distance in links between routers
  const Router *dr = net->GetEject(dst)->GetSource(); std::vector<int> dist(R, -1); { std::queue<int> q; q.push(idx[dr]); dist[idx[dr]] = 0; while (!q.empty()) { int i = q.front(); q.pop(); Router *r = net->GetRouter(i); for (auto *c : r->_input_channels) if (c->GetSource()) { int j = idx[c->GetSource()]; if (dist[j] < 0) { dist[j] = dist[i] + 1; q.push(j); } } } }
  Flit *f = Flit::New(); f->head = f->tail = true; f->src = src; f->dest = dst; f->type = (Flit::FlitType)type; f->vc = -1; f->intm = -1; f->ph = -1; f->watch = false; f->cl = 0; f->hops = 0; f->pri = 0;
  OutputSet os; FlitChannel *c = net->GetInject(src); const Router *r0 = c->GetSink(); int at = -1; 
  int pc = -1, plo = 0, phi = 0; // the link the packet holds and the virtual channels it may hold there
  rf(0, f, -1, &os, true); f->intm = (int)sx_fork(f->intm);
  for (int hop = 0;; hop++) {
    auto &set = os.GetSet(); if (set.empty()) { sx_fail("a routing function always offers an output"); return; }
#if RT_DL == 1 // every offered channel counts as waited for
    if (pc >= 0) for (int v = plo; v <= phi; v++) if (HOLDS(v)) for (auto &e : set) { int o = (int)sx_fork(e.output_port); if (o < 0 || o >= net->GetRouter(at)->NumOutputs()) continue; FlitChannel *nc = net->GetRouter(at)->GetOutputChannel(o); for (int w = (int)sx_fork(e.vc_start), we_ = (int)sx_fork(e.vc_end); nc->GetSink() && w <= we_; w++) wait_edge(pc * RT_VCS + v, link[nc] * RT_VCS + w); }
#elif RT_DL == 2 // escape channels: always offered, only left for escape channels, waited for in order
    if (pc >= 0) for (int v = plo; v <= phi; v++) if (HOLDS(v)) { bool esc = false; for (auto &e : set) { int o = (int)sx_fork(e.output_port); FlitChannel *nc = net->GetRouter(at)->GetOutputChannel(o); if (!nc->GetSink()) esc = true; for (int w = (int)sx_fork(e.vc_start), we_ = (int)sx_fork(e.vc_end); nc->GetSink() && w <= we_; w++) { bool we = w < lo + RT_ESC; esc |= we; if (v < lo + RT_ESC) { if (!we) sx_fail("a packet in an escape channel is offered escape channels only"); wait_edge(pc * RT_VCS + v, link[nc] * RT_VCS + w); } } } if (!esc) sx_fail("an adaptive packet is always offered an escape channel"); }
#endif
    int k = set.size() > 1 ? (int)sx_pick("out", 6, 0, set.size() - 1) : 0; auto it = set.begin(); while (k--) ++it;
    sx_check(it->vc_start >= lo && it->vc_end <= hi && it->vc_start <= it->vc_end, "an offered virtual channel is one of the packet type's own");
    if (hop == 0) sx_check(it->output_port == -1, "injection offers no router output"); int vs = (int)sx_fork(it->vc_start), ve = (int)sx_fork(it->vc_end), port = (int)sx_fork(it->output_port);
    if (hop > 0) { Router *r = net->GetRouter(at); if (port < 0 || port >= r->NumOutputs()) { sx_fail("an offered output exists"); return; } c = r->GetOutputChannel(port); sx_check(!r->IsFaultyOutput(port), "a working output is offered"); }
    const Router *nx = c->GetSink();
    if (!nx) { sx_check(eject.count(c) && eject[c] == dst, "a packet leaves the network only at its destination"); sx_reach("arrived"); sx_check(hop - 1 <= RT_MAXHOPS, "a packet arrives within the hop bound"); int md = dist[idx[r0]]; if (RT_MIN == 2) { md = 0; for (int d = 0, a = src, b = dst; d < RT_NN; d++, a /= RT_KK, b /= RT_KK) md += abs(a % RT_KK - b % RT_KK); } // a mesh does not use the wraparound links its network object has
      if (RT_MIN) sx_check(hop - 1 == md, "a minimal route is a shortest one"); break; }
    if (hop > RT_MAXHOPS + 1) { sx_fail("a packet arrives within the hop bound"); return; }
    f->vc = vs == ve ? vs : (int)sx_range("vc", 6, vs, ve); pc = hop ? link[c] : -1; plo = vs; phi = ve; at = idx[nx]; f->hops++; os.Clear(); rf(nx, f, c->GetSinkPort(), &os, false); f->intm = (int)sx_fork(f->intm); }
  sx_reach("end");
}
