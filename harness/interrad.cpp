// the network between RADs: NR RADs, every RAD may send each cycle
#include "axiskit.hpp"
#include <radsim_inter_rad.hpp>
#ifndef NR
#define NR 2
#endif
#ifndef STEPS
#define STEPS 5
#endif
#ifndef LAT
#define LAT 3
#endif
#ifndef BWA
#define BWA 1
#endif
#ifndef BWT
#define BWT 1
#endif
RADSimCluster::RADSimCluster(int n) { num_rads = n; } RADSimCluster::~RADSimCluster() {}
struct Top : sc_module { axis_master_port mp[NR]; axis_slave_port sp[NR]; Top(const sc_module_name &n) : sc_module(n) {} };
extern "C" void harness() {
  radsim_config.AddDoubleKnobShared("sim_driver_period", 1.0); radsim_config.AddIntKnobShared("inter_rad_fifo_num_slots", 1000); radsim_config.AddIntKnobShared("inter_rad_latency_cycles", LAT); radsim_config.AddIntKnobShared("inter_rad_bw_accept_cycles", BWA); radsim_config.AddIntKnobShared("inter_rad_bw_total_cycles", BWT);
  sc_clock &clk = simkit_clock(); RADSimCluster *cl = new RADSimCluster(NR); RADSimInterRad n("inter_rad", &clk, cl);
  Top top("top"); auto &mp = top.mp; auto &sp = top.sp; // the portals' ends
  for (int i = 0; i < NR; i++) { n.all_axis_master_signals[i]->Connect(*n.all_axis_master_ports[i], sp[i]); n.all_axis_slave_signals[i]->Connect(mp[i], *n.all_axis_slave_ports[i]); }
  auto in = [&](int i) -> axis_signal & { return *n.all_axis_slave_signals[i]; }; auto out = [&](int i) -> axis_signal & { return *n.all_axis_master_signals[i]; };
  for (int i = 0; i < NR; i++) out(i).tready.write(true);
  sk_begin();
  struct E { AxBeat b; int src; }; std::vector<E> fly[NR]; int sent = 0, got = 0; int last[NR]; for (int &l : last) l = -9; std::vector<bool> acc[NR]; 
  const int drain = LAT + STEPS * NR + 4;
  for (int s = 0; s < STEPS + drain; s++) {
    for (int i = 0; i < NR; i++) {
      bool v = s < STEPS && sx_in("valid", 1); AxBeat b; if (s < STEPS) b = ax_sym(); int dest = 0;
      if (s < STEPS && v) { dest = sx_pick("dest", AXIS_DEST_FIELDW, 0, NR - 1); DEST_RAD(b.dest) = (uint64_t)dest; }
      ax_put(in(i), b, v); bool rdy = in(i).tready.read(); acc[i].push_back(rdy);
      if (v && rdy) { b.at = s; fly[dest].push_back({b, i}); sent++; }
    }
    for (int i = 0; i < NR; i++) if (out(i).tvalid.read()) {
      AxBeat o = ax_get(out(i)); bool ok = false; unsigned hit = 0; std::set<int> seen; // the oldest beat in flight from some source
      for (unsigned k = 0; k < fly[i].size() && !ok; k++) { E &e = fly[i][k]; if (seen.count(e.src)) continue; seen.insert(e.src); sc_bv<AXIS_DESTW> d = e.b.dest; DEST_LOCAL_NODE(d) = DEST_REMOTE_NODE(e.b.dest); DEST_REMOTE_NODE(d) = 0;
        if (sx_fork((uint64_t)(o.data == e.b.data && o.user == e.b.user && o.last == e.b.last && o.dest == d))) { ok = true; hit = k; } }
      if (!ok) sx_fail("a RAD receives exactly the oldest undelivered beat of some sender, with its destination made local");
      else { int lat = s - fly[i][hit].b.at, at = s; // one cycle for the network itself; it delivers one beat per RAD and cycle
        sx_check(at <= std::max(fly[i][hit].b.at + std::max(LAT + 1, 2), last[i] + 1), "a beat is not delayed beyond the latency and the beats ahead of it"); last[i] = s; sx_check(lat >= LAT, "no beat arrives sooner than the configured latency"); if (NR == 1 || fly[i].size() == 1) sx_reach("single"); fly[i].erase(fly[i].begin() + hit); got++; sx_reach("arrived"); }
    }
    sk_step();
  }
  sx_check(got == sent, "every accepted beat arrives, exactly once");
  for (int i = 0; i < NR; i++) { // bandwidth: in every period the network is ready in BWA of BWT cycles, once started
    for (int s = 1; s + BWT <= (int)acc[i].size(); s++) { int c = 0; for (int k = 0; k < BWT; k++) c += acc[i][s + k]; if (s > 1) sx_check(c == BWA, "a RAD may send in exactly the configured share of cycles"); } }
  sx_reach("end");
}
