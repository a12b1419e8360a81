// the add and mult designs: the client's queue towards the NoC, and the unit that folds what arrives
#include "axiskit.hpp"
#if AD_KIND == 0
#include <client.hpp>
#elif AD_KIND == 1
#include <adder.hpp>
typedef adder Unit;
#define AD_PORT axis_adder_interface
#else
#include <mult.hpp>
typedef mult Unit;
#define AD_PORT axis_mult_interface
#endif
unsigned int RADSimDesignContext::GetPortDestinationID(std::string &n) { if (n == "adder_inst.axis_adder_interface" || n == "mult_inst.axis_mult_interface") return 2; if (n == "client_inst.axis_client_interface") return 1; return 0; }
extern "C" void harness() {
  sim_log.SetLogSettings(0, "sim.log"); radsim_config.ResizeAll(2); radsim_config.AddDoubleKnobShared("sim_driver_period", 1.0); sc_clock &clk = simkit_clock(); sc_signal<bool> rst("rst"); RADSimDesignContext *ctx = new RADSimDesignContext(AD_RAD); int nst = 0;
  auto stall = [&](const char *n) { if (nst >= AD_STALL) return false; nst++; return sx_in(n, 1) == 1; }; typedef sc_bv<DATAW> D; axis_signal x;
#if AD_KIND == 0
  client u("client_inst", ctx); u.clk(clk); u.rst(rst); sc_signal<D> data; sc_signal<bool> last, valid, ready; u.client_tdata(data); u.client_tlast(last); u.client_valid(valid); u.client_ready(ready); ax_bind(u.axis_client_interface, x); x.tready.write(false); valid.write(false);
  rst.write(true); sk_begin(); sk_step(); sk_step(); rst.write(false); sk_step(); struct It { D d; bool l; }; std::deque<It> want; It cur; int sent = 0, got = 0; bool pend = false, held = false; D hd;
  for (int t = 0; t < AD_TIME; t++) {
    if (!pend && sent < AD_N && !stall("gap")) { pend = true; bool sym = sent < AD_NSYM; if (sym) { cur.d = sk_bv<DATAW>("tdata"); cur.l = sx_in("tlast", 1); } else { cur.d = sent * 3; cur.l = sent % 3 == 2; } } valid.write(pend); if (pend) { data.write(cur.d); last.write(cur.l); }
    x.tready.write(t >= AD_HOLD && !(x.tvalid.read() && stall("tready"))); sc_start(0.5, SC_NS);
    bool tv = x.tvalid.read(), tr = x.tready.read(); D d; d = x.tdata.read().range(DATAW - 1, 0); if (held) sx_check(tv && d == hd, "an item waits unchanged until it is taken"); held = tv && !tr; hd = d;
    if (tv && tr) { if (want.empty()) { sx_fail("no item comes out that did not go in"); return; } sx_check(d == want.front().d, "items come out unchanged and in order"); sx_check(x.tlast.read() == want.front().l, "each item keeps its last mark"); sc_bv<AXIS_DESTW> dst = x.tdest.read(); sx_check(DEST_LOCAL_NODE(dst).to_uint64() == 2 && DEST_RAD(dst).to_uint64() == AD_RAD, "items go to the unit of their own device"); want.pop_front(); got++; sx_reach("out"); }
    if (pend && ready.read()) { want.push_back(cur); pend = false; sent++; } sc_start(0.5, SC_NS); }
  sx_check(sent == AD_N && got == AD_N, "every item gets through");
#else
  Unit u("unit_inst", ctx); u.clk(clk); u.rst(rst); sc_signal<bool> rv; sc_signal<D> resp; u.response_valid(rv); u.response(resp); ax_bind(u.AD_PORT, x); x.tvalid.write(false); sk_begin();
  for (int run = 0; run < AD_RUNS; run++) { // each run starts with a reset
    rst.write(true); x.tvalid.write(false); for (int k = 0; k < (run ? 1 + sx_pick("rstlen", 1, 0, 1) : 2); k++) sk_step(); rst.write(false); uint64_t sum = AD_KIND == 1 ? 0 : 1; int sent = 0, done = -1; bool pend = false; uint64_t v = 0;
    int n = sx_pick("n", 3, 1, AD_N);
    for (int t = 0; t < AD_TIME; t++) { if (!pend && sent < n && !stall("gap")) { pend = true; v = sent < AD_NSYM ? sx_in("operand", AD_BITS) : 3 + 2 * sent; } x.tvalid.write(pend); x.tlast.write(pend && sent == n - 1); sc_bv<AXIS_MAX_DATAW> d; d = v; x.tdata.write(d); sc_start(0.5, SC_NS);
      if (done < 0 || t == done) sx_check(!rv.read(), "no result before the last operand"); if (done >= 0 && t > done + 1) { sx_check(rv.read(), "the result comes after the last operand"); } if (done >= 0 && rv.read()) { sx_check(resp.read().range(63, 0).to_uint64() == sum, "the result folds every operand exactly once"); sx_reach("out"); }
      if (pend && x.tready.read()) { sum = AD_KIND == 1 ? sum + v : sum * v; pend = false; sent++; if (sent == n) done = t + 1; } sc_start(0.5, SC_NS); }
    sx_check(done >= 0, "every operand is taken"); }
#endif
  sx_reach("end");
}
