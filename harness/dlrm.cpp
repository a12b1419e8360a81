// the example designs' data movers: embedding lookup, feature interaction (both kinds), collector, dispatcher
#include "axiskit.hpp"
#if DL_KIND == 0
#include <embedding_lookup.hpp>
#elif DL_KIND == 1
#include <feature_interaction.hpp>
typedef feature_interaction Fi;
#elif DL_KIND == 2
#include <custom_feature_interaction.hpp>
typedef custom_feature_interaction Fi;
#elif DL_KIND == 3
#include <collector.hpp>
#else
#include <dispatcher.hpp>
#endif
#include <aximm_interface.hpp>
#include <unistd.h>
#include <fstream>
static void mm_bind(aximm_master_port &p, aximm_signal &s) { p.awvalid(s.awvalid); p.awready(s.awready); p.awid(s.awid); p.awaddr(s.awaddr); p.awlen(s.awlen); p.awsize(s.awsize); p.awburst(s.awburst); p.awuser(s.awuser); p.wvalid(s.wvalid); p.wready(s.wready); p.wid(s.wid); p.wdata(s.wdata); p.wlast(s.wlast); p.wuser(s.wuser); p.bvalid(s.bvalid); p.bready(s.bready); p.bid(s.bid); p.bresp(s.bresp); p.buser(s.buser); p.arvalid(s.arvalid); p.arready(s.arready); p.arid(s.arid); p.araddr(s.araddr); p.arlen(s.arlen); p.arsize(s.arsize); p.arburst(s.arburst); p.aruser(s.aruser); p.rvalid(s.rvalid); p.rready(s.rready); p.rid(s.rid); p.rdata(s.rdata); p.rresp(s.rresp); p.rlast(s.rlast); p.ruser(s.ruser); }
unsigned int RADSimDesignContext::GetPortDestinationID(std::string &n) { unsigned m; if (sscanf(n.c_str(), "layer0_mvm%u.", &m) == 1 && m < 8) return 2 + m; return 0; }
uint64_t RADSimDesignContext::GetPortBaseAddress(std::string &n) { unsigned a, b; if (sscanf(n.c_str(), "ext_mem_%u.mem_channel_%u", &a, &b) == 2) return (uint64_t)(16 * a + b + 1) << 40; if (sscanf(n.c_str(), "feature_interaction_inst.aximm_interface_%u", &a) == 1) return (uint64_t)(a + 100) << 40; return 0; }
void RADSimDesignContext::set_rad_done() {}
static void knobs() { sim_log.SetLogSettings(0, "sim.log"); radsim_config.ResizeAll(2); std::string key = "radsim_user_design_root_dir", dir = "design"; for (int r = 0; r < 2; r++) radsim_config.AddStringKnobPerRad(key, dir, r); radsim_config.AddDoubleKnobShared("sim_driver_period", 1.0); }
template <class M> static void start(M &m, sc_signal<bool> &rst) { rst.write(true); sk_begin(); sk_step(); sk_step(); rst.write(false); sk_step(); }
extern "C" void harness() {
  knobs(); sc_clock &clk = simkit_clock(); sc_signal<bool> rst("rst"); RADSimDesignContext *ctx = new RADSimDesignContext(DL_RAD); int nst = 0;
  auto stall = [&](const char *n) { if (nst >= DL_STALL) return false; nst++; return sx_in(n, 1) == 1; };
#if DL_KIND == 0
  std::vector<unsigned> per; int nch = 0; for (int c = 0; c < DL_CTRLS; c++) { per.push_back(DL_CH); nch += DL_CH; }
  embedding_lookup u("embedding_lookup_inst", 512, per, DL_DEPTH, ctx); u.clk(clk); u.rst(rst);
  sc_signal<data_vector<uint64_t>> idx, base; sc_signal<data_vector<unsigned int>> tgt; sc_signal<bool> v, r; u.lookup_indecies_data(idx); u.lookup_indecies_target_channels(tgt); u.lookup_indecies_base_addresses(base); u.lookup_indecies_valid(v); u.lookup_indecies_ready(r);
  std::vector<aximm_signal *> s; for (int c = 0; c < nch; c++) { auto *q = new aximm_signal(); s.push_back(q); mm_bind(u.aximm_req_interface[c], *q); }
  for (auto *q : s) { q->arready.write(false); q->awready.write(false); q->wready.write(false); q->rvalid.write(false); q->bvalid.write(false); } v.write(false); start(u, rst);
  struct Req { uint64_t a; }; std::vector<std::deque<uint64_t>> want(nch); int sent = 0, got = 0; std::vector<uint64_t> I, B; std::vector<unsigned> T; std::vector<bool> held(nch); std::vector<uint64_t> ha(nch); std::vector<int> pulse(nch), num(nch);
  auto next = [&]() { I.clear(); B.clear(); T.clear(); for (int k = 0; k < DL_VEC; k++) { int n = sent * DL_VEC + k; bool sym = n < DL_NSYM; I.push_back(sym ? sx_in("index", 20) : n * 3); T.push_back(sym ? sx_pick("channel", 3, 0, nch - 1) : DL_SAME ? 0 : n % nch); B.push_back(sym ? (uint64_t)sx_in("table", 16) << 16 : (uint64_t)(n & 3) << 16); } }; next(); bool pend = false;
  for (int t = 0; t < DL_TIME; t++) {
    bool on = sent < DL_N && (pend || !stall("gap")); pend = on; v.write(on); if (on) { idx.write(data_vector<uint64_t>(I)); base.write(data_vector<uint64_t>(B)); tgt.write(data_vector<unsigned int>(T)); }
    for (int c = 0; c < nch; c++) { bool rd = t >= DL_HOLD && (DL_PULSE ? pulse[c] == 0 : true) && !(s[c]->arvalid.read() && stall("arready")); if (DL_PULSE) rd = rd && s[c]->arvalid.read(); s[c]->arready.write(rd); }
    sc_start(0.5, SC_NS);
    if (v.read() && r.read()) { for (int k = 0; k < DL_VEC; k++) { int c = T[k], f = c / DL_CH; want[c].push_back(((uint64_t)(16 * f + c % DL_CH + 1) << 40) + B[k] + I[k]); } sent++; next(); pend = false; }
    for (int c = 0; c < nch; c++) { bool av = s[c]->arvalid.read(), ar = s[c]->arready.read(); uint64_t a = s[c]->araddr.read().to_uint64(); sx_check(!s[c]->awvalid.read() && !s[c]->wvalid.read(), "a lookup unit never writes");
      if (held[c]) sx_check(av && a == ha[c], "a request waits unchanged until it is taken"); held[c] = av && !ar; ha[c] = a; uint64_t id = s[c]->arid.read().to_uint64(); if (av) sx_check(id == (uint64_t)num[c] % (1 << AXI4_IDW), "a channel's requests are numbered in order"); if (DL_PULSE) pulse[c] = av && ar ? DL_PULSE : pulse[c] ? pulse[c] - 1 : 0;
      if (av && ar) { if (want[c].empty()) { sx_fail("every lookup is requested exactly once"); return; } sx_check(a == want[c].front(), "a lookup is requested from its channel's memory, at its table's base plus its index, in order"); want[c].pop_front(); sx_check(s[c]->aruser.read().to_uint64() == (uint64_t)(c + 100) << 40, "a lookup's data returns to its channel's feature port"); sx_check(s[c]->arlen.read().to_uint64() == 0, "a lookup reads one beat"); got++; num[c]++; sx_reach("out"); } }
    sc_start(0.5, SC_NS);
  }
  sx_check(sent == DL_N, "everything offered is taken"); sx_check(got == DL_N * DL_VEC, "every lookup is requested");
#elif DL_KIND == 1 || DL_KIND == 2
  const int nch = DL_CH, EW = 32, nout = DL_OUT; typedef std::vector<uint16_t> V;
  // the program, written to the file the unit reads; model: inputs queued per channel, instructions executed in order
  struct In { int ch, from, to; bool pop; }; std::vector<std::vector<In>> prog; std::string f, file;
  { std::ofstream o("design/compiler/embedding_indecies.in"); o << DL_N * nch << " 1\n"; }
#if DL_KIND == 1
  { for (int k = 0; k < DL_NI; k++) { int mux = k < DL_SYMI ? sx_pick("mux", 3, 1, nch + 1) : k % 3 == 2 ? nch + 1 : k % nch + 1; std::vector<In> in; std::string s; in.push_back({mux, 0, 0, false}); for (int c = 0; c < nch; c++) { int p = k < DL_SYMI ? sx_pick("pop", 1, 0, 1) : DL_NOPOP ? (c + 1 == mux && k % 2) : (c + 1 == mux || k % 2 == c % 2); s += p ? '1' : '0'; if (p) in.push_back({c + 1, 0, 0, true}); } f += std::to_string(mux) + " " + s + "\n"; prog.push_back(in); } }
#else
  { for (int k = 0; k < DL_NI; k++) { std::vector<In> in; int left = EW; std::set<int> popped; for (int j = 0; j < 2; j++) { bool sym = k < DL_SYMI; int ch = sym ? sx_pick("fifo", 3, 0, nch) : (k + j) % (nch + 1); if (popped.count(ch)) ch = 0; int from = sym ? sx_pick("from", 1, 0, 1) * 8 : 4 * j, len = sym ? (j ? left : 8 + 8 * sx_pick("len", 1, 0, 1)) : 16; if (from + len > 32) from = 32 - len; bool pop = ch ? sym ? sx_pick("pop", 1, 0, 1) : !DL_NOPOP || (k + j) % 2 : 0; if (pop) popped.insert(ch); in.push_back({ch, from, from + len - 1, pop}); left -= len; f += std::to_string(ch) + " " + std::to_string(from) + " " + std::to_string(from + len - 1) + (pop ? " 1 " : " 0 "); } f += "\n"; prog.push_back(in); } }
#endif
  file = "fi" + std::to_string(getpid()) + ".inst"; { std::ofstream o(file); o << f; } Fi u("feature_interaction_inst", 512, 16, nch, DL_DEPTH, nout, file, ctx); u.clk(clk); u.rst(rst); sc_signal<unsigned int> rr; u.received_responses(rr);
  std::vector<aximm_signal *> s; for (int c = 0; c < nch; c++) { auto *q = new aximm_signal(); s.push_back(q); mm_bind(u.aximm_interface[c], *q); }
  std::vector<axis_signal *> o; for (int c = 0; c < nout; c++) { o.push_back(new axis_signal()); ax_bind(u.axis_interface[c], *o[c]); o[c]->tready.write(false); }
  for (auto *q : s) { q->arready.write(false); q->awready.write(false); q->wready.write(false); q->rvalid.write(false); q->bvalid.write(false); } start(u, rst);
  int nsym = 0; std::vector<std::deque<V>> in(nch), mod(nch); for (int n = 0; n < DL_N; n++) for (int c = 0; c < nch; c++) { V x(32); for (int e = 0; e < 32; e++) x[e] = n * 100 + c * 37 + e; if (nsym++ < DL_NSYM) { x[(n * 4 + 3) % 32] = sx_in("x", 16); } in[c].push_back(x);
#if DL_KIND == 1
      for (int k = 0; k < 8; k++) mod[c].push_back(V(x.begin() + 4 * k, x.begin() + 4 * k + 4));
#else
      mod[c].push_back(x);
#endif
    }
  std::vector<std::pair<int, V>> all; std::vector<std::deque<V>> want(nout); { unsigned pc = 0, d = 0; V st; for (int guard = 0; guard < 4000; guard++) { auto &I = prog[pc]; bool ok = false, can = true; for (auto &i : I) { if (i.ch >= 1 && i.ch <= nch) { if (mod[i.ch - 1].empty()) can = false; else ok = true; } else ok = true; } if (!can || !ok) break; if (d > DL_MAXOUT) break;
#if DL_KIND == 1
      int m = I[0].ch; V sl = m > nch ? V(4) : mod[m - 1].front(); st.insert(st.end(), sl.begin(), sl.end()); for (auto &i : I) if (i.pop) mod[i.ch - 1].pop_front(); if (st.size() == 32) { want[d % nout].push_back(st); d++; st.clear(); }
#else
      V x; for (auto &i : I) { for (int e = i.from; e <= i.to; e++) x.push_back(i.ch ? mod[i.ch - 1].front()[e] : 0); if (i.pop) mod[i.ch - 1].pop_front(); } x.resize(32); want[d % nout].push_back(x); d++;
#endif
      pc = (pc + 1) % prog.size(); } if ((int)d > DL_MAXOUT) { sx_reach("endless"); } }
  std::vector<bool> rp(nch), rv(nch), held(nout); std::vector<sc_bv<AXIS_MAX_DATAW>> hd(nout); int resp = 0, gap = 0;
  for (int t = 0; t < DL_TIME; t++) {
    for (int c = 0; c < nch; c++) { bool have = !in[c].empty() && t >= DL_LATE * c; rv[c] = DL_HELD ? have && (rv[c] || !stall("rgap")) : have && rp[c] && !stall("rgap"); s[c]->rvalid.write(rv[c]); if (rv[c]) { sc_bv<AXI4_MAX_DATAW> b; b = 0; for (int e = 0; e < 32; e++) b.range(e * 16 + 15, e * 16) = (uint64_t)in[c].front()[e]; s[c]->rdata.write(b); } }
    for (int c = 0; c < nout; c++) { bool rd = t >= DL_HOLD && !(o[c]->tvalid.read() && stall("tready")); o[c]->tready.write(rd); }
    sc_start(0.5, SC_NS); (void)gap;
    for (int c = 0; c < nch; c++) { if (rv[c] && (!DL_HELD || s[c]->rready.read())) { in[c].pop_front(); rv[c] = false; resp++; } rp[c] = s[c]->rready.read(); sx_check(!s[c]->arvalid.read() && !s[c]->awvalid.read() && !s[c]->wvalid.read(), "a feature unit requests nothing itself"); }
    for (int c = 0; c < nout; c++) { bool tv = o[c]->tvalid.read(), tr = o[c]->tready.read(); auto d = o[c]->tdata.read(); if (held[c]) sx_check(tv && d == hd[c], "a vector waits unchanged until it is taken"); held[c] = tv && !tr; hd[c] = d;
      if (tv && tr) { if (want[c].empty()) { sx_fail("no vector comes out that the program did not produce"); return; } V w = want[c].front(); want[c].pop_front(); bool ok = true; for (int e = 0; e < 32; e++) ok &= d.range(e * 16 + 15, e * 16).to_uint64() == w[e]; sx_check(ok, "a vector holds what its instructions select from the channels' words, in order");
        sc_bv<AXIS_DESTW> dst = o[c]->tdest.read(); sx_check(DEST_LOCAL_NODE(dst).to_uint64() == 2u + c && DEST_RAD(dst).to_uint64() == DL_DRAD, "vectors go to the first layer's units in turn"); sx_check(o[c]->tuser.read().range(15, 13).to_uint64() == 3, "vectors go in as inputs"); sx_reach("out"); } }
    sc_start(0.5, SC_NS); sx_check(rr.read() == (unsigned)resp, "the responses received are counted");
  }
  bool left = false; for (auto &q : want) left |= !q.empty(); sx_check(!left, "every vector the program produces comes out"); if (!DL_MAYFULL) { bool l = false; for (auto &q : in) l |= !q.empty(); sx_check(!l, "everything offered is taken"); }
#else
#if DL_EL == 8
  typedef sc_int<8> El; typedef uint8_t Wd;
#elif DL_EL == 32
  typedef sc_int<32> El; typedef uint32_t Wd;
#else
  typedef int16_t El; typedef uint16_t Wd;
#endif
  const int L = LANES, W = DL_EL; typedef std::vector<Wd> V; sc_signal<bool> rdy, en; sc_signal<data_vector<El>> data; axis_signal x; std::deque<V> q, want; int nsym = 0;
  for (int n = 0; n < DL_N; n++) { V v(L); for (int e = 0; e < L; e++) v[e] = DL_ZERO ? 0 : n * 5 + e; if (nsym++ < DL_NSYM) v[(n * 3) % L] = sx_in("x", W); q.push_back(v); } en.write(false); int got = 0;
#if DL_KIND == 3
  collector u("output_collector", ctx); u.data_fifo_rdy(rdy); u.data_fifo_ren(en); u.data_fifo_rdata(data); ax_bind(u.rx_interface, x); x.tvalid.write(false); u.clk(clk); u.rst(rst); start(u, rst); bool v = false;
  for (int t = 0; t < DL_TIME; t++) { v = !q.empty() && (v || !stall("gap")); x.tvalid.write(v); if (v) { sc_bv<AXIS_MAX_DATAW> b; b = 0; for (int e = 0; e < L; e++) b.range(e * W + W - 1, e * W) = (uint64_t)q.front()[e]; x.tdata.write(b); } sc_start(0.25, SC_NS); bool pop = t >= DL_HOLD && rdy.read() && !stall("pop"); en.write(pop); sc_start(0.25, SC_NS);
    if (pop) { if (want.empty()) { sx_fail("no vector comes out that did not come in"); return; } data_vector<El> d = data.read(); bool ok = (int)d.size() == L; for (int e = 0; ok && e < L; e++) ok &= (Wd)(int64_t)d[e] == want.front()[e]; sx_check(ok, "vectors come out unchanged and in order"); want.pop_front(); got++; sx_reach("out"); }
    if (v && x.tready.read()) { want.push_back(q.front()); q.pop_front(); v = false; } sc_start(0.5, SC_NS); }
#else
  dispatcher u("dispatcher", 1, ctx); u.data_fifo_rdy(rdy); u.data_fifo_wen(en); u.data_fifo_wdata(data); ax_bind(u.tx_interface, x); x.tready.write(false); u.clk(clk); u.rst(rst); start(u, rst); bool held = false; sc_bv<AXIS_MAX_DATAW> hd;
  for (int t = 0; t < DL_TIME; t++) { bool push = !q.empty() && rdy.read() && !stall("gap"); en.write(push); if (push) { data_vector<El> d(L); for (int e = 0; e < L; e++) d[e] = (El)q.front()[e]; data.write(d); } x.tready.write(t >= DL_HOLD && !(x.tvalid.read() && stall("tready"))); sc_start(0.5, SC_NS);
    bool tv = x.tvalid.read(), tr = x.tready.read(); auto d = x.tdata.read(); if (held) { bool same = tv; for (int e = 0; e < L; e++) same &= d.range(e * W + W - 1, e * W) == hd.range(e * W + W - 1, e * W); sx_check(same, "a vector waits unchanged until it is taken"); } held = tv && !tr; hd = d;
    if (tv && tr) { if (want.empty()) { sx_fail("no vector comes out that did not come in"); return; } bool ok = true; for (int e = 0; e < L; e++) ok &= (Wd)d.range(e * W + W - 1, e * W).to_uint64() == want.front()[e]; sx_check(ok, "vectors come out unchanged and in order"); want.pop_front(); got++; sx_reach("out"); sc_bv<AXIS_DESTW> dst = x.tdest.read(); sx_check(DEST_LOCAL_NODE(dst).to_uint64() == 3 && DEST_RAD(dst).to_uint64() == DL_DRAD, "a dispatcher sends to its unit of the first layer"); }
    if (push) { want.push_back(q.front()); q.pop_front(); } sc_start(0.5, SC_NS); }
#endif
  sx_check(q.empty(), "everything offered is taken"); sx_check(got == DL_N, "every vector comes out");
#endif
  sx_reach("end");
}
