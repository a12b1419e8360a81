// one real router between channels: packets with symbolic input, virtual channel, output, length, start and downstream stalls
#include <map>
#include <set>
#include <deque>
#include <string>
#include <vector>
#include <iostream>
#include "booksim.hpp"
#include "booksim_config.hpp"
#include "router.hpp"
#include "routefunc.hpp"
#include "outputset.hpp"
#include "flit.hpp"
#include "flitchannel.hpp"
#include "credit.hpp"
#include "sx.h"
#define STR_(...) #__VA_ARGS__
#define STR(...) std::string(STR_(__VA_ARGS__))
static int g_t;
int GetSimTime() { return g_t; }
std::ostream *gWatchOut = &std::cout; std::map<std::string, tRoutingFunction> gRoutingFunctionMap; bool gPrintActivity = false, gTrace = false;
long ran_next() { return (long)sx_in("ran", 2); }
double ranf_next() { return sx_in("ranf", 4) / 16.0; }
void ran_start(long) {} void ranf_start(long) {}
static const int I = RO_IN, O = RO_OUT, V = RO_VCS, B = RO_BUF, P = RO_PACKETS;
struct Pkt { int in, vc, out, len, start, sent = 0, got = 0, ovc = -1, at = -1, headat = -1; bool closed = false; std::vector<Flit *> f; };
static std::vector<Pkt> pk; static int g_rt;
static void route(const Router *, const Flit *f, int, OutputSet *o, bool) { o->Clear(); g_rt++; if (RO_RF == 0) o->AddRange(f->dest, 0, V - 1); else if (RO_RF == 1) o->AddRange(f->dest, f->pid % V, f->pid % V); else if (RO_RF == 3) o->Add(f->dest, f->pid % V); else { o->AddRange(f->dest, 0, 0, 0); if (V > 1) o->AddRange(f->dest, 1, V - 1, 1); } }
static bool allowed(int pid, int v) { return v >= 0 && v < V && ((RO_RF != 1 && RO_RF != 3) || v == pid % V); }
extern "C" void harness() {
  gRoutingFunctionMap["own_bench"] = route;
  BookSimConfig cfg; cfg.Assign("topology", std::string("bench")); cfg.Assign("routing_function", std::string("own")); cfg.Assign("num_vcs", V); cfg.Assign("vc_buf_size", B);
  { std::string s = STR(RO_OPTS), k; size_t p = 0; while (p < s.size()) { size_t e = s.find(';', p); if (e == std::string::npos) e = s.size(); std::string kv = s.substr(p, e - p); size_t q = kv.find('='); if (q != std::string::npos) { std::string key = kv.substr(0, q), v = kv.substr(q + 1); while (key.size() && key[0] == ' ') key = key.substr(1); if (v.size() && v[0] >= '0' && v[0] <= '9') { if (v.find('.') != std::string::npos) cfg.Assign(key, (double)(v[0] - '0') + (v.size() > 2 ? (v[2] - '0') / 10.0 : 0)); else { int n = 0; for (char c : v) n = n * 10 + c - '0'; cfg.Assign(key, n); } } else cfg.Assign(key, v); } p = e + 1; } }
  Module *root = new Module(0, "root"); Router *r = Router::NewRouter(cfg, root, "router", 0, I, O); if (!r) { sx_fail("the router exists"); return; }
  std::vector<FlitChannel *> fi, fo; std::vector<CreditChannel *> ci, co;
  for (int i = 0; i < I; i++) { fi.push_back(new FlitChannel(root, "fi", 1)); ci.push_back(new CreditChannel(root, "ci")); r->AddInputChannel(fi[i], ci[i]); }
  for (int o = 0; o < O; o++) { fo.push_back(new FlitChannel(root, "fo", 1)); co.push_back(new CreditChannel(root, "co")); fo[o]->SetLatency(RO_CHLAT); r->AddOutputChannel(fo[o], co[o]); }
  int id = 100;
  for (int p = 0; p < P; p++) { Pkt k; k.in = p ? (int)sx_pick("in", 2, 0, I - 1) : 0; k.vc = (int)sx_pick("vc", 2, 0, V - 1); k.out = (int)sx_pick("out", 2, 0, p ? O - 1 : RO_OUT0); { static const int lens[] = {RO_LENS}; k.len = lens[sx_pick("len", 2, 0, RO_NLEN - 1)]; } k.start = p ? (int)sx_pick("start", 3, 0, RO_GAP) : 0;
    for (int j = 0; j < k.len; j++) { Flit *f = Flit::New(); f->id = id++; f->pid = p; f->vc = k.vc; f->cl = 0; f->head = j == 0; f->tail = j == k.len - 1; f->dest = k.out; f->src = k.in; f->type = Flit::READ_REQUEST; f->pri = RO_PRI ? (int)sx_in("pri", 2) : 0; f->data = (void *)&cfg; f->watch = false; if (f->head && RO_LOOK) route(0, f, 0, &f->la_route_set, true); k.f.push_back(f); }
    pk.push_back(k); }
  int stall[O]; for (int o = 0; o < O; o++) stall[o] = RO_STALL ? (int)sx_pick("stall", 4, 0, RO_NSTALL) * RO_STALL : 0; // no credit comes back before this cycle
  std::vector<std::vector<int>> cred(I, std::vector<int>(V, B)), open(I, std::vector<int>(V, -1)), oopen(O, std::vector<int>(V, -1)), back(I, std::vector<int>(V, 0)), occ(O, std::vector<int>(V, 0)); std::vector<std::deque<int>> held(O); std::vector<std::vector<std::deque<int>>> order(I, std::vector<std::deque<int>>(V));
  int total = 0, out = 0, last = 0; for (auto &k : pk) total += k.len; int rr[I] = {};
  for (g_t = 0; g_t < RO_TIME; g_t++) {
    for (int i = 0; i < I; i++) { Credit *c = ci[i]->Receive(); if (!c) continue; for (int v : c->vc) { if (v < 0 || v >= V) { sx_fail("a returned credit names a virtual channel"); return; } cred[i][v]++; back[i][v]++; if (cred[i][v] > B) { sx_fail("no more credits come back than flits were sent"); return; } } c->Free(); }
    for (int o = 0; o < O; o++) { Flit *f = fo[o]->Receive(); if (!f) continue;
      int p = f->pid; if (p < 0 || p >= P || pk[p].got >= pk[p].sent || pk[p].f[pk[p].got] != f) { sx_fail("every flit leaves once and the flits of a packet in order"); return; } Pkt &k = pk[p]; int v = (int)sx_fork(f->vc), j = k.got++;
      sx_check(o == k.out && f->dest == k.out, "a flit leaves at the output it was routed to"); sx_check(f->head == (j == 0) && f->tail == (j == k.len - 1) && f->data == (void *)&cfg && f->src == k.in && f->cl == 0, "a flit leaves as it came"); sx_check(f->hops == 1, "the hop is counted once");
      if (!allowed(p, v)) { sx_fail("a packet leaves on a virtual channel the routing function offered"); return; }
      if (j == 0) { sx_check(oopen[o][v] < 0, "packets on one virtual channel do not interleave"); if (RO_TAILCRED) sx_check(occ[o][v] == 0, "a virtual channel is not taken again before its tail's credit is back"); k.ovc = v; k.headat = g_t; } else sx_check(oopen[o][v] == p && k.ovc == v, "a packet stays on its virtual channel");
      oopen[o][v] = f->tail ? -1 : p; occ[o][v]++; int all = 0; for (int w = 0; w < V; w++) all += occ[o][w];
      if (RO_SHARED) sx_check(all <= B * V, "the downstream buffer never overflows"); else sx_check(occ[o][v] <= B, "the downstream buffer never overflows");
      if (occ[o][v] == B) sx_reach("full"); auto &q = order[k.in][k.vc]; sx_check(q.size() && q.front() == p, "packets of one input virtual channel leave in order"); if (f->tail && q.size()) q.pop_front();
      held[o].push_back(v); out++; last = g_t; if (p && pk[0].got < pk[0].len) sx_reach("overtaken"); }
    for (auto *c : fi) c->ReadInputs(); for (auto *c : fo) c->ReadInputs(); for (auto *c : ci) c->ReadInputs(); for (auto *c : co) c->ReadInputs(); r->ReadInputs();
    r->Evaluate(); r->WriteOutputs();
    for (auto *c : fi) c->WriteOutputs(); for (auto *c : fo) c->WriteOutputs(); for (auto *c : ci) c->WriteOutputs(); for (auto *c : co) c->WriteOutputs();
    for (int i = 0; i < I; i++) { // one flit per input and cycle; a virtual channel carries one packet at a time
      for (int n = 0; n < P; n++) { int p = (rr[i] + n) % P; Pkt &k = pk[p]; if (k.in != i || k.sent == k.len || g_t < k.start || cred[i][k.vc] == 0) continue; if (open[i][k.vc] >= 0 && open[i][k.vc] != p) continue; bool older = false; for (int q = 0; q < p; q++) older |= pk[q].in == i && pk[q].vc == k.vc && pk[q].sent == 0; if (older && k.sent == 0) continue;
        Flit *f = k.f[k.sent++]; if (f->head) { order[i][k.vc].push_back(p); k.at = g_t; } cred[i][k.vc]--; open[i][k.vc] = f->tail ? -1 : p; fi[i]->Send(f); if (RO_MIX) rr[i] = (p + 1) % P; break; } }
    if (RO_VSTALL && g_t == RO_STALL - 1) for (int p = 0; p < P; p++) if (p % V && !(pk[p].in == pk[0].in && pk[p].vc == pk[0].vc)) { sx_check(pk[p].got == pk[p].len, "a packet is not held up by another virtual channel without credits"); if (pk[0].got < pk[0].len) sx_reach("passed"); }
    for (int o = 0; o < O; o++) { auto h = held[o].begin(); while (h != held[o].end() && g_t < stall[o] && !(RO_VSTALL && *h)) ++h; if (h == held[o].end()) continue; Credit *c = Credit::New(); int v = *h; held[o].erase(h); occ[o][v]--; c->vc.insert(v); co[o]->Send(c); }
  }
  sx_check(out == total, "every flit leaves in the end"); for (auto &k : pk) sx_check(k.got == k.len, "every flit of each packet leaves");
  for (int i = 0; i < I; i++) { for (int v = 0; v < V; v++) sx_check(cred[i][v] == B, "one credit comes back for every flit"); sx_check(r->GetBufferOccupancy(i) == 0, "the router is empty afterwards"); }
  for (int o = 0; o < O; o++) sx_check(r->GetUsedCredit(o) == 0, "no credit is lost");
  const bool spec = cfg.GetInt("speculative") > 0; const int va = cfg.GetInt("vc_alloc_delay"), sa = cfg.GetInt("sw_alloc_delay"), LAT_ = 2 + cfg.GetInt("routing_delay") + (spec ? std::max(va, sa) : va + sa) + cfg.GetInt("st_prepare_delay") + cfg.GetInt("st_final_delay") + RO_CHLAT;
  bool lone = true; for (int p = 1; p < P; p++) lone &= (pk[p].in != pk[0].in && pk[p].out != pk[0].out) || pk[p].start > LAT_ + 4; 
  if (RO_LATENCY) for (auto &k : pk) if (k.headat >= 0 && k.at >= 0) sx_check(k.headat - k.at >= LAT_, "no flit is faster than the pipeline"); if (RO_LATENCY && lone && pk[0].headat >= 0) { sx_check(pk[0].headat - pk[0].at == LAT_, "an unhindered packet takes the configured number of cycles"); sx_reach("lone"); }
  sx_reach("end");
}
