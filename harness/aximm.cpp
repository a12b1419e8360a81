// AXI-MM masters and slaves over the real NoC: NMM masters (modules 0..), NSL slaves, symbolic requests and responses
#include "syskit.hpp"
#ifdef TELEM
#include "telem.hpp"
#define TEL(x) x
#else
#define TEL(x)
#endif
struct MMod : RADSimModule { aximm_master_port *m; aximm_slave_port *s;
  MMod(const sc_module_name &n, RADSimDesignContext *c, bool master) : RADSimModule(n, c), m(master ? new aximm_master_port() : 0), s(master ? 0 : new aximm_slave_port()) { RegisterModuleInfo(); }
  void RegisterModuleInfo() override { _num_noc_axis_slave_ports = _num_noc_axis_master_ports = _num_noc_aximm_slave_ports = _num_noc_aximm_master_ports = 0; std::string p = module_name + ".p"; if (m) RegisterAximmMasterPort(p, m, DW); else RegisterAximmSlavePort(p, s, DW); } };
typedef sc_bv<AXI4_USERW> User;
struct Req { sc_bv<AXI4_IDW> id; sc_bv<AXI4_ADDRW> addr; sc_bv<AXI4_LENW> len; sc_bv<AXI4_SIZEW> size; sc_bv<AXI4_BURSTW> burst; User user; int src, dst, at = 0; };
struct Dat { sc_bv<AXI4_IDW> id; sc_bv<AXI4_MAX_DATAW> data; sc_bv<AXI4_RESPW> resp; bool last; User user; int src, dst, at = 0; };
static int tag(const User &u) { return u.range(6, 0).to_uint(); }
// the expected beat a received one must equal: the oldest, or with several virtual channels per type any outstanding one
template <class T> T take(std::deque<T> &q, int t) { unsigned k = 0; if (!ORDER) while (k + 1 < q.size() && tag(q[k].user) != t) k++; T e = q[k]; q.erase(q.begin() + k); return e; }
struct Mst { aximm_master_port *p; uint64_t base; int node; std::deque<Req> ar, aw; std::deque<Dat> w; bool arv, awv, wv; int nar, naw, nw, awleft; std::vector<std::deque<Dat>> expr, expb; };
struct Slv { aximm_slave_port *p; uint64_t base; int node; std::vector<std::deque<Req>> expar, expaw; std::vector<std::deque<Dat>> expw; std::deque<Dat> r, b; bool rv, bv; int nr, nb, aws, ws; bool parr, pawr, pwr; std::deque<int> aworder; };
extern "C" void harness() {
  RADSimDesignContext *ctx = sys_context(); std::vector<MMod *> mod; for (int i = 0; i < NMM + NSL; i++) { std::string n = "m" + std::to_string(i) + "_inst"; mod.push_back(new MMod(n.c_str(), ctx, i < NMM)); }
  sc_signal<bool> rst("rst"); SysTop top("top"); top.rst(rst);
  ctx->BuildDesignContext("axisnoc.place", "axisnoc.clks"); ctx->CreateSystemNoCs(top.rst); ctx->ConnectModulesToNoC();
  std::vector<Mst> M; std::vector<Slv> S;
  for (auto *m : mod) { std::string n = m->module_name + ".p"; uint64_t b = ctx->GetPortBaseAddress(n); if (m->m) M.push_back({m->m, b, (int)ctx->GetPortDestinationID(n)}); else S.push_back({m->s, b, (int)ctx->GetPortDestinationID(n)}); }
  for (auto &m : M) { m.expr.resize(S.size()); m.expb.resize(S.size()); m.nar = m.naw = m.nw = m.awleft = 0; m.arv = m.awv = m.wv = false; } for (auto &s : S) { s.expar.resize(M.size()); s.expaw.resize(M.size()); s.expw.resize(M.size()); s.nr = s.nb = s.aws = s.ws = 0; s.rv = s.bv = false; s.parr = s.pawr = s.pwr = false; }
  const double P = PERIOD; const uint64_t LOW = ~0ull >> AXI4_NODE_ADDRW; rst.write(true);
  for (auto &m : M) { m.p->arvalid.write(false); m.p->awvalid.write(false); m.p->wvalid.write(false); m.p->rready.write(false); m.p->bready.write(false); } for (auto &s : S) { s.p->rvalid.write(false); s.p->bvalid.write(false); s.p->arready.write(false); s.p->awready.write(false); s.p->wready.write(false); }
  sc_start(0.05, SC_NS); sc_start(2 * P, SC_NS); rst.write(false); sc_start(P, SC_NS);
  int hold = HOLDV ? sx_pick("hold", 8, HOLD - HOLDV, HOLD) : HOLD, rhold = RHOLDV ? sx_pick("rhold", 8, RHOLD - RHOLDV, RHOLD) : RHOLD, sent = 0, got = 0;
  for (int t = 0; t < STEPS + DRAIN; t++) {
    for (unsigned i = 0; i < M.size(); i++) { Mst &m = M[i]; bool on = t < STEPS && (int)i < SENDERS;
      auto mk = [&](const char *nm, int n) { Req q; q.dst = DESTS > 1 ? sx_pick("dst", 4, 0, DESTS - 1) : 0; q.id = sk_bv<AXI4_IDW>("id"); sc_bv<AXI4_ADDRW> a; a = S[q.dst].base + (sx_in("addr", 64) & LOW); q.addr = a; q.len = sk_bv<AXI4_LENW>("len"); q.size = sk_bv<AXI4_SIZEW>("size"); q.burst = sk_bv<AXI4_BURSTW>("burst"); q.user = User(); uint64_t u = m.base + ((sx_in("user", 64) & LOW & ~0x7full) | (i * 32 + n)); q.user = u; q.src = i; return q; };
      if (on && m.nar < NAR && (NAR <= BURST || sx_in("ar", 1))) m.ar.push_back(mk("ar", m.nar++));
      if (on && m.naw < NAW && (NAW <= BURST || sx_in("aw", 1))) { Req q = mk("aw", m.naw++); int k = WMAX > 1 ? sx_pick("beats", 4, 1, WMAX) : 1; m.aw.push_back(q); for (int j = 0; j < k; j++) { Dat d; d.id = q.id; d.data = sk_bv<AXI4_MAX_DATAW>("wdata"); if (DW < AXI4_MAX_DATAW) d.data.range(AXI4_MAX_DATAW - 1, DW) = 0; d.last = j == k - 1; uint64_t u = m.base + ((sx_in("user", 64) & LOW & ~0x7full) | (i * 32 + m.nw++)); d.user = u; d.src = i; d.dst = q.dst; m.w.push_back(d); } }
      if (!m.arv && !m.ar.empty()) { Req &q = m.ar.front(); m.p->arid.write(q.id); m.p->araddr.write(q.addr); m.p->arlen.write(q.len); m.p->arsize.write(q.size); m.p->arburst.write(q.burst); m.p->aruser.write(q.user); m.arv = true; } m.p->arvalid.write(m.arv);
      if (!m.awv && !m.aw.empty() && (!ONEAW || m.awleft == 0)) { Req &q = m.aw.front(); m.p->awid.write(q.id); m.p->awaddr.write(q.addr); m.p->awlen.write(q.len); m.p->awsize.write(q.size); m.p->awburst.write(q.burst); m.p->awuser.write(q.user); m.awv = true; } m.p->awvalid.write(m.awv);
      if (!m.wv && !m.w.empty() && (!WGATE || t >= STEPS || sx_in("w", 1))) { Dat &d = m.w.front(); m.p->wid.write(d.id); m.p->wdata.write(d.data); m.p->wlast.write(d.last); m.p->wuser.write(d.user); m.wv = true; } m.p->wvalid.write(m.wv);
      bool rr = t >= rhold; m.p->rready.write(rr); m.p->bready.write(rr); }
    for (auto &s : S) { if (!s.rv && !s.r.empty()) { Dat &d = s.r.front(); s.p->rid.write(d.id); s.p->rdata.write(d.data); s.p->rresp.write(d.resp); s.p->rlast.write(d.last); s.p->ruser.write(d.user); s.rv = true; } s.p->rvalid.write(s.rv);
      if (!s.bv && !s.b.empty()) { Dat &d = s.b.front(); s.p->bid.write(d.id); s.p->bresp.write(d.resp); s.p->buser.write(d.user); s.bv = true; } s.p->bvalid.write(s.bv);
      auto rdy = [&](const char *n) { return t < hold ? false : STALL && t < STEPS ? (bool)sx_in(n, 1) : true; };
      s.p->arready.write(rdy("arready")); s.p->awready.write(rdy("awready")); s.p->wready.write(rdy("wready") && (!WAFTER || s.aws > 0)); }
    sc_start(P - 0.1, SC_NS); // just before the rising edge that samples the handshakes
    // STRICT: a beat is transferred only in a cycle with valid and ready; otherwise receivers also take a beat that was under way when they lowered ready
    for (unsigned j = 0; j < S.size(); j++) { Slv &s = S[j]; int nv = s.p->arvalid.read() + s.p->awvalid.read() + s.p->wvalid.read(); (void)nv;
      if (s.p->arvalid.read() && (!STRICT || s.p->arready.read())) { sx_reach("ar"); User u = s.p->aruser.read(); unsigned i = tag(u) / 32; if (i >= M.size() || s.expar[i].empty()) { sx_fail("a slave receives only read requests sent to it, each once"); return; } Req e = take(s.expar[i], tag(u)); TEL(t_got(e.at)); got++;
        sx_check(tag(e.user) == tag(u), "read requests from one master to one slave arrive in order"); sx_check(e.addr == s.p->araddr.read(), "a read address arrives unchanged"); sx_check(e.id == s.p->arid.read(), "a read id arrives unchanged"); sx_check(e.user == u, "a read request's user field arrives unchanged"); sx_check(e.len == s.p->arlen.read() && e.size == s.p->arsize.read() && e.burst == s.p->arburst.read(), "a read request's length, size and burst type arrive unchanged");
        int k = RMAX > 1 ? sx_pick("rbeats", 4, 1, RMAX) : 1; for (int b = 0; b < k; b++) { Dat d; d.id = e.id; d.data = sk_bv<AXI4_MAX_DATAW>("rdata"); if (DW < AXI4_MAX_DATAW) d.data.range(AXI4_MAX_DATAW - 1, DW) = 0; d.resp = sk_bv<AXI4_RESPW>("rresp"); d.last = b == k - 1; uint64_t v = M[i].base + ((sx_in("user", 64) & LOW & ~0x7full) | (j * 32 + s.nr++)); d.user = v; d.src = j; d.dst = i; s.r.push_back(d); } }
      if (s.p->awvalid.read() && (!STRICT || s.p->awready.read())) { sx_reach("aw"); User u = s.p->awuser.read(); unsigned i = tag(u) / 32; if (i >= M.size() || s.expaw[i].empty()) { sx_fail("a slave receives only write requests sent to it, each once"); return; } Req e = take(s.expaw[i], tag(u)); TEL(t_got(e.at)); got++; s.aws++; s.aworder.push_back(i);
        sx_check(tag(e.user) == tag(u), "write requests from one master to one slave arrive in order"); sx_check(e.addr == s.p->awaddr.read(), "a write address arrives unchanged"); sx_check(e.id == s.p->awid.read(), "a write id arrives unchanged"); sx_check(e.user == u, "a write request's user field arrives unchanged"); sx_check(e.len == s.p->awlen.read() && e.size == s.p->awsize.read() && e.burst == s.p->awburst.read(), "a write request's length, size and burst type arrive unchanged"); }
      if (s.p->wvalid.read() && (!STRICT || s.p->wready.read())) { sx_reach("w"); User u = s.p->wuser.read(); unsigned i = tag(u) / 32; if (i >= M.size() || s.expw[i].empty()) { sx_fail("a slave receives only write data sent to it, each once"); return; } Dat e = take(s.expw[i], tag(u)); TEL(t_got(e.at)); got++;
        sx_check(tag(e.user) == tag(u), "write data from one master to one slave arrives in order"); sx_check(e.data == s.p->wdata.read(), "write data arrives unchanged"); sx_check(e.id == s.p->wid.read() && e.user == u, "a write beat's id and user arrive unchanged"); sx_check(e.last == s.p->wlast.read(), "a write beat's last flag arrives unchanged");
        if (WORDER) sx_check(!s.aworder.empty() && s.aworder.front() == (int)i, "write data reaches a slave in the order of its write requests");
        if (e.last) { s.ws++; s.aws--; if (!s.aworder.empty()) s.aworder.pop_front(); Dat d; d.id = e.id; d.resp = sk_bv<AXI4_RESPW>("bresp"); uint64_t v = M[i].base + ((sx_in("user", 64) & LOW & ~0x7full) | (j * 32 + s.nb++)); d.user = v; d.src = j; d.dst = i; s.b.push_back(d); } }
      if (s.rv && s.p->rready.read()) { Dat &d = s.r.front(); TEL(t_sent(d.at, s.node, M[d.dst].node, DW, AXI_TYPE_R)); M[d.dst].expr[j].push_back(d); s.r.pop_front(); s.rv = false; sent++; }
      if (s.bv && s.p->bready.read()) { Dat &d = s.b.front(); TEL(t_sent(d.at, s.node, M[d.dst].node, DW, AXI_TYPE_B)); M[d.dst].expb[j].push_back(d); s.b.pop_front(); s.bv = false; sent++; } }
    for (unsigned i = 0; i < M.size(); i++) { Mst &m = M[i];
      if (m.arv && m.p->arready.read()) { TEL(t_sent(m.ar.front().at, m.node, S[m.ar.front().dst].node, DW, AXI_TYPE_AR)); S[m.ar.front().dst].expar[i].push_back(m.ar.front()); m.ar.pop_front(); m.arv = false; sent++; }
      if (m.awv && m.p->awready.read()) { TEL(t_sent(m.aw.front().at, m.node, S[m.aw.front().dst].node, DW, AXI_TYPE_AW)); S[m.aw.front().dst].expaw[i].push_back(m.aw.front()); m.aw.pop_front(); m.awv = false; sent++; m.awleft++; }
      if (m.wv && m.p->wready.read()) { TEL(t_sent(m.w.front().at, m.node, S[m.w.front().dst].node, DW, AXI_TYPE_W)); Dat &d = m.w.front(); if (d.last) m.awleft--; S[d.dst].expw[i].push_back(d); m.w.pop_front(); m.wv = false; sent++; }
      if (m.p->rvalid.read() && (!STRICT || m.p->rready.read())) { sx_reach("r"); User u = m.p->ruser.read(); unsigned j = tag(u) / 32; if (j >= S.size() || m.expr[j].empty()) { sx_fail("a master receives only read data sent to it, each once"); return; } Dat e = take(m.expr[j], tag(u)); TEL(t_got(e.at)); got++;
        sx_check(tag(e.user) == tag(u), "read data from one slave to one master arrives in order"); sx_check(e.data == m.p->rdata.read(), "read data arrives unchanged"); sx_check(e.id == m.p->rid.read() && e.user == u, "a read beat's id and user arrive unchanged"); sx_check(e.last == m.p->rlast.read(), "a read beat's last flag arrives unchanged"); sx_check(e.resp == m.p->rresp.read(), "a read response code arrives unchanged"); }
      if (m.p->bvalid.read() && (!STRICT || m.p->bready.read())) { sx_reach("b"); User u = m.p->buser.read(); unsigned j = tag(u) / 32; if (j >= S.size() || m.expb[j].empty()) { sx_fail("a master receives only write responses sent to it, each once"); return; } Dat e = take(m.expb[j], tag(u)); TEL(t_got(e.at)); got++;
        sx_check(tag(e.user) == tag(u), "write responses from one slave to one master arrive in order"); sx_check(e.id == m.p->bid.read() && e.user == u, "a write response's id and user arrive unchanged"); sx_check(e.resp == m.p->bresp.read(), "a write response code arrives unchanged"); } }
    sc_start(0.1, SC_NS);
  }
  bool left = false; for (auto &m : M) left |= m.arv || m.awv || m.wv || !m.ar.empty() || !m.aw.empty() || !m.w.empty(); for (auto &s : S) left |= s.rv || s.bv || !s.r.empty() || !s.b.empty();
  sx_check(!left, "every offered beat is accepted in the end"); sx_check(sent == got, "every accepted beat is delivered"); TEL(t_end(ctx)); sx_reach("end");
}
