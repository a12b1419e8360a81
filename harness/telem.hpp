// oracle for the NoC telemetry: what one record per beat must say
#pragma once
#include <cmath>
#include <fstream>
#include <sstream>
#include <unistd.h>
#ifndef TORUS
#define TORUS 0
#endif
#ifndef TSLACK
#define TSLACK 0 // how much earlier than the receiver takes the beat its receipt may be recorded (ns)
#endif
struct TRec { int src, dst, dw, type; double ti, tr; bool seen; };
static std::vector<TRec> t_recs;
static inline double t_edge() { return (sc_time_stamp().to_double() + 50) / 1000; } // the coming clock edge, in ns
static inline bool t_eq(double a, double b) { return std::fabs(a - b) < 1e-3; }
static inline int t_hops(int a, int b) { int n = 1; for (int d = 0; d < 2; d++) { int x = abs(a % TELEM - b % TELEM); if (TORUS) x = std::min(x, TELEM - x); n += x; a /= TELEM; b /= TELEM; } return n; }
static inline void t_sent(int &at, int src, int dst, int dw, int type) { at = t_recs.size(); t_recs.push_back({src, dst, dw, type, t_edge(), -1, false}); }
static inline void t_got(int at) { t_recs[at].tr = t_edge(); }
static inline bool t_has(const std::string &s, const std::string &sub) { return s.find(sub) != std::string::npos; }
static inline void t_end(RADSimDesignContext *ctx) {
  auto &bk = NoCTransactionTelemetry::trace_bookkeeping; sx_check(bk.size() == t_recs.size(), "there is exactly one telemetry record per accepted beat");
  std::map<std::pair<int, int>, double> bits; std::map<std::pair<int, int>, int> hops;
  for (auto &e : bk) { auto &r = e.second; TRec *m = 0; for (auto &x : t_recs) if (!x.seen && x.src == r.src_node && x.dst == r.dest_node && x.type == r.transaction_type && t_eq(x.ti, r.t_init)) { if (!m || t_eq(x.tr, r.t_recieve)) m = &x; }
    if (!m) { sx_fail("a record's source, destination, type and initiation time are those of an accepted beat"); return; } m->seen = true; sx_reach("record");
    sx_check(r.dataw == m->dw, "a record's data width is the sending port's"); sx_check(r.network_id == 0, "a record names its NoC");
    sx_check(r.t_recieve <= m->tr + 1e-3 && r.t_recieve >= m->tr - TSLACK - 1e-3, "a record's receipt time is when the receiver took the beat"); sx_check(t_eq(r.total_latency_ns, r.t_recieve - r.t_init), "a record's latency is receipt minus initiation");
    sx_check(r.t_init <= r.t_packet && r.t_init <= r.t_inject && r.t_inject <= r.t_eject && r.t_packet <= r.t_eject && r.t_eject <= r.t_depacket && r.t_depacket <= r.t_recieve, "a record's time stamps follow the beat's way");
    sx_check(r.num_hops == t_hops(m->src, m->dst), "a record counts the routers of the shortest route"); bits[{m->src, m->dst}] += m->dw; hops[{m->src, m->dst}] = t_hops(m->src, m->dst) - 1; }
  // the dumps; paths run in parallel, so each uses its own files
  std::string id = "t" + std::to_string(getpid()), fx = id + "_noc0.xml", cs = id + ".csv";
  const unsigned CYC = 1000; double period = radsim_config.GetDoubleKnobShared("sim_driver_period") * 1e-9, want = 0; for (auto &f : bits) want += f.second / (CYC * period) * hops[f.first];
  auto names = ctx->GetNodeModuleNames(); std::vector<double> bw = NoCTransactionTelemetry::DumpTrafficFlows(id, CYC, names, 0);
  sx_check(bw.size() == 1 && std::fabs(bw[0] - want) <= 1e-9 * want, "the aggregate bandwidth is the sum over all flows of bits times links over the simulated time");
  std::ifstream f(fx); std::string l; unsigned n = 0; 
  while (std::getline(f, l)) if (t_has(l, "<single_flow")) { n++; bool ok = false; for (auto &b : bits) { std::string a = *names[0][b.first.first].begin(), c = *names[0][b.first.second].begin(); size_t p = l.find("bandwidth=\""); if (p == std::string::npos) continue; double v = atof(l.c_str() + p + 11), w = b.second / (CYC * period); ok |= t_has(l, "src=\".*noc_router_" + a + ".*\"") && t_has(l, "dst=\".*noc_router_" + c + ".*\"") && std::fabs(v - w) <= 1e-4 * w; } sx_check(ok, "each dumped flow names its routers and its bandwidth"); }
  sx_check(n == bits.size(), "every flow is dumped once");
  NoCTransactionTelemetry::DumpStatsToFile(cs); std::ifstream g(cs); n = 0; std::getline(g, l);
  while (std::getline(g, l)) { std::vector<double> v; std::stringstream ss(l); std::string c; while (std::getline(ss, c, ',')) v.push_back(atof(c.c_str())); if (v.size() < 13) { sx_fail("a dumped record has every field"); return; } n++; auto it = bk.find((int)v[0]); if (it == bk.end()) { sx_fail("a dumped row is a record"); return; } auto &r = it->second; double w[] = {v[0], (double)r.network_id, (double)r.src_node, (double)r.dest_node, (double)r.dataw, (double)r.num_hops, r.t_init, r.t_packet, r.t_inject, r.t_eject, r.t_depacket, r.t_recieve, r.total_latency_ns}; for (int i = 0; i < 13; i++) sx_check(std::fabs(v[i] - w[i]) <= 1e-4 * std::fabs(w[i]), "a dumped row shows its record's fields"); }
  sx_check(n == bk.size(), "every record is dumped once"); f.close(); g.close(); unlink(fx.c_str()); unlink(cs.c_str());
}
#define TELEM_NODE ((int)ctx->GetPortDestinationID(*new std::string(m->module_name + ".m" + std::to_string(i))))
#define TELEM_SENT t_sent(src[i].b.at, src[i].node, dst[src[i].dst].node, src[i].w, i / NM % TYPES)
#define TELEM_GOT t_got(e.at)
#define TELEM_END t_end(ctx)
