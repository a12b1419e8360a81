// the memory controller on a real DRAM model: NCH channels, beats offered the way the NoC adapters do (one cycle, after a cycle with ready) or held until ready (HELD)
#include "axiskit.hpp"
#include <mem_controller.hpp>
typedef sc_bv<AXI4_USERW> User; typedef sc_bv<AXI4_MAX_DATAW> Data;
struct Top : sc_module { std::vector<aximm_master_port *> p; Top(const sc_module_name &n) : sc_module(n) { for (int i = 0; i < NCH; i++) p.push_back(new aximm_master_port()); } };
struct Rd { uint64_t a; User user; int n, len, left; int at; };
struct Wr { uint64_t a; int n, len; };
struct Wb { User user; Data d; };
struct Ver { uint64_t w; int from, done, burst; }; // a version of word w: visible from..; done: its B was seen
struct Ch { aximm_signal s; std::deque<Rd> ar, rq; std::deque<std::pair<Wr, int>> aw; std::deque<Wb> w; std::vector<Wb> acc; std::vector<Ver> ver; bool arr = false, awr = false, wr = false, arv = false, awv = false, wv = false, rpend = false, bpend = false; int nr = 0, nw = 0, awacc = 0, wacc = 0, nstall = 0, nstallb = 0; };
static int lg(uint64_t x) { int r = 0; while ((1ull << r) < x) r++; return r; }
static uint64_t pickaddr(mem_controller &m, int word) { // a channel-local word address: same word, same row, other bank, other row
  static const int K[] = {0, 1, 2, 3}; int k = NADDR > 1 ? sx_pick("addr", 4, 0, NADDR - 1) : 0; (void)K; int bl = lg(word), co = 8, ba = 1;
  uint64_t w = k == 0 ? 0 : k == 1 ? 1ull << (co + ba) : k == 2 ? 1ull << co : 1; return w << bl; }
extern "C" void harness() {
  radsim_config.ResizeAll(1); std::string root = "root", cfg = "dram"; radsim_config.AddStringKnobShared("radsim_root_dir", root); std::vector<std::string> cf{cfg}; radsim_config.AddStringVectorKnobPerRad("dram_config_files", cf, 0);
  std::vector<double> per{PERIOD}; radsim_config.AddDoubleVectorKnobPerRad("dram_clk_periods", per, 0); std::vector<int> qs{QSIZE}; radsim_config.AddIntVectorKnobPerRad("dram_queue_sizes", qs, 0);
  RADSimDesignContext *ctx = new RADSimDesignContext(0); sc_clock clk("clk", PERIOD, SC_NS); sc_signal<bool> rst("rst");
  sim_log.SetLogSettings(0, "sim.log");
  mem_controller m("mem", 0, ctx); m.clk(clk); m.mem_clk(clk); m.rst(rst); const int word = m.GetAddressableWordSize(); const int nch = m.GetNumChannels(); sx_check(nch == NCH, "the controller has the channels of its memory");
  Top top("top"); std::vector<Ch *> C; for (int i = 0; i < nch; i++) { C.push_back(new Ch()); C[i]->s.Connect(*top.p[i], m.mem_channels[i]); C[i]->s.Reset(); }
  rst.write(true); sc_start(0.05, SC_NS); sc_start(2 * PERIOD, SC_NS); rst.write(false); sc_start(PERIOD, SC_NS);
  int rgap = RGAPS ? sx_pick("rgap", 8, 0, RGAPS) : 0; // cycles the second read is held back
  int hold = HOLDV ? sx_pick("hold", 8, HOLD - HOLDV, HOLD) : HOLD;
  for (int t = 0; t < STEPS + DRAIN; t++) {
    for (int i = 0; i < nch; i++) { Ch &c = *C[i]; bool on = t < STEPS && i < USED;
      auto len = [&]() { return LEN0 + (LENS > 1 ? sx_pick("len", 4, 0, LENS - 1) : 0); };
      auto node = [&]() { return (uint64_t)sx_in("node", 12) << 52; };
      if (on && t >= RSTART + (c.nr ? rgap : 0) && c.nr < NRD && (c.nr < BURST || sx_in("ar", 1))) { c.nr++; Rd q; q.a = pickaddr(m, word); q.user = sk_bv<AXI4_USERW>("ruser"); q.len = len(); q.n = ((q.len + 1) << XSIZE) - 1; c.ar.push_back(q); }
      if (on && c.nw < NWR && (c.nw < BURST || sx_in("aw", 1))) { c.nw++; Wr q; q.a = pickaddr(m, word); q.len = len(); q.n = ((q.len + 1) << XSIZE) - 1; c.aw.push_back({q, 0}); for (int b = 0; b <= q.n; b++) { Wb d; d.d = sk_bv<AXI4_MAX_DATAW>("wdata"); d.user = sk_bv<AXI4_USERW>("wuser"); c.w.push_back(d); } }
      // beats: adapters offer one for one cycle after a cycle in which the receiver was ready; HELD: until it is taken
      auto offer = [&](bool have, bool ready, bool held, bool gate) { return HELD ? have && (held || gate) : have && ready && gate; };
      c.arv = offer(!c.ar.empty(), c.arr, c.arv, true); c.awv = offer(!c.aw.empty(), c.awr, c.awv, !AWGATE || t >= STEPS + GATES || sx_in("awgate", 1)); c.wv = offer(!c.w.empty() && (!WAFTER || c.wacc < c.awacc), c.wr, c.wv, !WGATE || t >= STEPS + GATES || sx_in("wgate", 1));
      c.s.arvalid.write(c.arv); if (c.arv) { Rd &q = c.ar.front(); uint64_t a = q.a | node(); c.s.araddr.write(a); c.s.arlen.write(q.len); c.s.arsize.write(lg(word) + XSIZE); c.s.aruser.write(q.user); }
      c.s.awvalid.write(c.awv); if (c.awv) { Wr &q = c.aw.front().first; uint64_t a = q.a | node(); c.s.awaddr.write(a); c.s.awlen.write(q.len); c.s.awsize.write(lg(word) + XSIZE); }
      c.s.wvalid.write(c.wv); if (c.wv) { c.s.wdata.write(c.w.front().d); c.s.wuser.write(c.w.front().user); }
      bool rr = t >= hold, br = rr; if (c.nstall < STALL && c.s.rvalid.read()) { c.nstall++; rr = rr && sx_in("rready", 1); } if (c.nstallb < STALL && c.s.bvalid.read()) { c.nstallb++; br = br && sx_in("bready", 1); } c.s.rready.write(rr); c.s.bready.write(br); }
    sc_start(PERIOD - 0.1, SC_NS);
    for (int i = 0; i < nch; i++) { Ch &c = *C[i];
      // what is handed over at this edge
      if (c.arv && (!HELD || c.s.arready.read())) { Rd q = c.ar.front(); c.ar.pop_front(); q.left = q.n + 1; q.at = t; c.rq.push_back(q); c.arv = false; }
      if (c.awv && (!HELD || c.s.awready.read())) { Wr q = c.aw.front().first; c.aw.pop_front(); c.awv = false; for (int b = 0; b <= q.n; b++) { Ver v; v.w = q.a / word + b; v.from = t; v.done = -1; v.burst = b == q.n; c.ver.push_back(v); c.awacc++; } }
      if (c.wv && (!HELD || c.s.wready.read())) { c.acc.push_back(c.w.front()); c.w.pop_front(); c.wv = false; c.wacc++; }
      c.arr = c.s.arready.read(); c.awr = c.s.awready.read(); c.wr = c.s.wready.read();
      if (c.s.rvalid.read() && c.s.rready.read()) { sx_reach("r"); if (c.rq.empty()) { sx_fail("read data answers a read request"); return; } Rd &q = c.rq.front(); int b = q.n + 1 - q.left; uint64_t w = q.a / word + b;
        Data got = c.s.rdata.read(), zero; zero = 0; bool init = true, ok = false; for (auto &v : c.ver) if (v.w == w && v.done >= 0 && v.done < q.at) init = false; if (init) ok |= got == zero;
        for (unsigned k = 0; k < c.ver.size() && (int)k < c.wacc; k++) { Ver &v = c.ver[k]; if (v.w != w) continue; bool over = false; for (unsigned l = k + 1; l < c.ver.size(); l++) if (c.ver[l].w == w && c.ver[l].done >= 0 && c.ver[l].done < q.at) over = true; if (!over) ok |= got == c.acc[k].d; }
        sx_check(ok, "a read returns the latest value written to its address"); sx_check(c.s.ruser.read() == q.user, "read data carries its request's user field"); sx_check(c.s.rlast.read() == (q.left == 1), "the last beat of a burst is marked last"); if (--q.left == 0) c.rq.pop_front(); }
      if (c.s.bvalid.read() && c.s.bready.read()) { sx_reach("b"); int k = -1; for (unsigned j = 0; j < c.ver.size(); j++) if (c.ver[j].burst && c.ver[j].done < 0) { k = j; break; } if (k < 0 || k >= c.wacc) { sx_fail("a write response answers a completed write burst"); return; } sx_check(c.s.buser.read() == c.acc[k].user, "a write response carries its write's user field"); for (int j = k; j >= 0 && c.ver[j].done < 0; j--) c.ver[j].done = t; }
    }
    sc_start(0.1, SC_NS);
  }
  bool left = false; for (auto *c : C) left |= !c->ar.empty() || !c->aw.empty() || !c->w.empty() || !c->rq.empty(); sx_check(!left, "every request is accepted and every read answered"); for (auto *c : C) for (auto &v : c->ver) sx_check(v.done >= 0, "every write burst is answered");
  sx_reach("end");
}
