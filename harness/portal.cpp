// both directions of a RAD's portal between its NoC and the inter-RAD network
#include "axiskit.hpp"
#include <portal.hpp>
#ifndef STEPS
#define STEPS 6
#endif
extern "C" void harness() {
  radsim_config.AddDoubleKnobShared("sim_driver_period", 5.0);
  sc_clock &clk = simkit_clock(); sc_signal<bool> rst("rst"); RADSimDesignContext *ctx = new RADSimDesignContext(0);
  axis_signal im, is, ns, nm; portal p("portal_inst", ctx); p.clk(clk); p.rst(rst);
  ax_bind(p.portal_axis_master, im); ax_bind(p.portal_axis_slave, is); ax_bind(p.axis_portal_slave_interface, ns); ax_bind(p.axis_portal_master_interface, nm);
  rst.write(true); sk_begin(); sk_step(); rst.write(false); sk_step();
  // DIR 0: from the NoC to the other RADs, DIR 1: from the other RADs to the NoC
  axis_signal *in[2] = {&ns, &is}, *out[2] = {&im, &nm}; std::deque<AxBeat> q[2]; int idle[2] = {0, 0}, got = 0;
  for (int s = 0; s < STEPS + 6; s++) {
    bool v[2], r[2]; AxBeat b[2];
    for (int d = 0; d < 2; d++) {
      bool use = DIR == 2 || DIR == d; bool tail = s >= STEPS;
      v[d] = use && !tail ? (bool)sx_in("valid", 1) : false; r[d] = use && !tail ? (bool)sx_in("ready", 1) : true; if (use && !tail) b[d] = ax_sym();
      ax_put(*in[d], b[d], v[d]); out[d]->tready.write(r[d]);
    }
    // what the two sides see at the coming edge
    for (int d = 0; d < 2; d++) {
      sx_check(in[d]->tready.read(), "the portal is always ready to take a beat");
      if (out[d]->tvalid.read()) {
        if (q[d].empty()) { sx_fail("the portal offers no beat it was not given"); }
        AxBeat o = ax_get(*out[d]); AxBeat &e = q[d].front();
        sx_check(o.data == e.data, "the portal passes data unchanged and in order"); sx_check(o.dest == e.dest, "the portal passes the destination unchanged"); sx_check(o.user == e.user, "the portal passes the user field unchanged"); sx_check(o.last == e.last, "the portal passes the last flag unchanged");
        if (r[d]) { q[d].pop_front(); got++; sx_reach("beat"); if (!q[d].empty()) sx_reach("queued"); } idle[d] = 0;
      } else { idle[d]++; if (!q[d].empty()) sx_check(idle[d] <= 2, "a buffered beat is offered without delay"); else idle[d] = 0; }
    }
    for (int d = 0; d < 2; d++) if (v[d]) q[d].push_back(b[d]);
    sk_step();
  }
  if (STEPS <= 6) for (int d = 0; d < 2; d++) sx_check(q[d].empty(), "every beat given to the portal comes out");
  sx_reach("end");
}
