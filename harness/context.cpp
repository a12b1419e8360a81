// a made-up design whose placement and clock files are chosen symbolically: every port is found, connected and clocked as its lines say
#define AXISKIT_NO_CONTEXT
#include "axiskit.hpp"
#include <radsim_module.hpp>
#include <radsim_noc.hpp>
#include <fstream>
#include <unistd.h>
static const double mper[] = {CX_MCLK0, CX_MCLK1};
struct GMod : RADSimModule { // axis ports m0.. s0.., memory-mapped ports p0 (master) or q0 (slave)
  std::vector<axis_master_port *> m; std::vector<axis_slave_port *> s; std::vector<aximm_master_port *> p; std::vector<aximm_slave_port *> q; std::vector<axis_slave_port *> pm; std::vector<axis_master_port *> ps; std::vector<aximm_slave_port *> pp; std::vector<aximm_master_port *> pq; int base; unsigned ticks = 0;
  std::vector<std::deque<AxBeat>> out; std::vector<std::vector<AxBeat>> in; std::vector<std::deque<uint64_t>> oar, oaw; std::vector<std::vector<uint64_t>> iar, iaw; sc_signal<bool> *rst = 0;
  SC_HAS_PROCESS(GMod);
  GMod(const sc_module_name &n, RADSimDesignContext *c, int nm, int ns, int np, int nq, int base) : RADSimModule(n, c), base(base) {
    for (int i = 0; i < nm; i++) m.push_back(new axis_master_port()); for (int i = 0; i < ns; i++) s.push_back(new axis_slave_port()); for (int i = 0; i < np; i++) p.push_back(new aximm_master_port()); for (int i = 0; i < nq; i++) q.push_back(new aximm_slave_port());
    if (!CX_CONNECT) { for (int i = 0; i < nm; i++) pm.push_back(new axis_slave_port()); for (int i = 0; i < ns; i++) ps.push_back(new axis_master_port()); for (int i = 0; i < np; i++) pp.push_back(new aximm_slave_port()); for (int i = 0; i < nq; i++) pq.push_back(new aximm_master_port()); }
    out.resize(nm); in.resize(ns); oar.resize(np); oaw.resize(np); iar.resize(nq); iaw.resize(nq); SC_METHOD(Tick); sensitive << clk.pos(); dont_initialize(); RegisterModuleInfo(); }
  void Close() { for (unsigned i = 0; i < m.size(); i++) (new axis_signal())->Connect(*m[i], *pm[i]); for (unsigned i = 0; i < s.size(); i++) (new axis_signal())->Connect(*ps[i], *s[i]); for (unsigned i = 0; i < p.size(); i++) (new aximm_signal())->Connect(*p[i], *pp[i]); for (unsigned i = 0; i < q.size(); i++) (new aximm_signal())->Connect(*pq[i], *q[i]); } // nothing attached
  std::string nm(const char *k, int i) { return module_name + "." + k + std::to_string(i); }
  void RegisterModuleInfo() override { _num_noc_axis_slave_ports = _num_noc_axis_master_ports = _num_noc_aximm_slave_ports = _num_noc_aximm_master_ports = 0;
    for (unsigned i = 0; i < m.size(); i++) { std::string n = nm("m", i); RegisterAxisMasterPort(n, m[i], CX_DW, (base + i) % CX_TYPES); } for (unsigned i = 0; i < s.size(); i++) { std::string n = nm("s", i); RegisterAxisSlavePort(n, s[i], CX_DW, 0); }
    for (unsigned i = 0; i < p.size(); i++) { std::string n = nm("p", i); RegisterAximmMasterPort(n, p[i], CX_ADW); } for (unsigned i = 0; i < q.size(); i++) { std::string n = nm("q", i); RegisterAximmSlavePort(n, q[i], CX_ADW); } }
  void Tick() { ticks++; if (!CX_CONNECT || rst->read()) return;
    for (unsigned i = 0; i < m.size(); i++) { if (m[i]->tvalid.read() && m[i]->tready.read()) out[i].pop_front(); bool v = !out[i].empty(); m[i]->tvalid.write(v); if (v) { AxBeat &b = out[i].front(); m[i]->tdata.write(b.data); m[i]->tdest.write(b.dest); m[i]->tuser.write(b.user); m[i]->tid.write(b.id); m[i]->tlast.write(b.last); m[i]->tstrb.write(b.strb); m[i]->tkeep.write(b.keep); } }
    for (unsigned i = 0; i < s.size(); i++) { if (s[i]->tvalid.read() && s[i]->tready.read()) { AxBeat b; b.data = s[i]->tdata.read(); b.dest = s[i]->tdest.read(); b.user = s[i]->tuser.read(); b.id = s[i]->tid.read(); b.last = s[i]->tlast.read(); in[i].push_back(b); } s[i]->tready.write(true); }
    for (unsigned i = 0; i < p.size(); i++) { auto &x = *p[i]; if (x.arvalid.read() && x.arready.read()) oar[i].pop_front(); if (x.awvalid.read() && x.awready.read()) oaw[i].pop_front(); x.arvalid.write(!oar[i].empty()); if (!oar[i].empty()) x.araddr.write(oar[i].front()); x.awvalid.write(!oaw[i].empty()); if (!oaw[i].empty()) x.awaddr.write(oaw[i].front()); x.wvalid.write(false); x.rready.write(true); x.bready.write(true); }
    for (unsigned i = 0; i < q.size(); i++) { auto &x = *q[i]; if (x.arvalid.read() && x.arready.read()) iar[i].push_back(x.araddr.read().to_uint64()); if (x.awvalid.read() && x.awready.read()) iaw[i].push_back(x.awaddr.read().to_uint64()); x.arready.write(true); x.awready.write(true); x.wready.write(true); x.rvalid.write(false); x.bvalid.write(false); } }
};
struct Top : sc_module { sc_in<bool> rst; Top(const sc_module_name &n) : sc_module(n) {} };
struct Port { std::string n; GMod *m; bool mm, master; int k, loc; };
extern "C" void harness() {
  radsim_config.ResizeAll(1); ParseRADSimKnobs(RADSIM_ROOT_DIR "/sim/radsim_knobs"); sim_log.SetLogSettings(0, "sim.log"); RADSimDesignContext *ctx = new RADSimDesignContext(0);
  static const int LN[] = CX_LOC_NOC, LM[] = CX_LOC_NODE; const int NL = sizeof LN / sizeof *LN; static const int MM[] = CX_M, MS[] = CX_S, MP[] = CX_P, MQ[] = CX_Q; const int NM = sizeof MM / sizeof *MM;
  std::string dir = "."; radsim_config.AddStringKnobPerRad("radsim_user_design_root_dir", dir, 0);
  std::vector<GMod *> mod; std::vector<Port> port; std::vector<std::string> lines, clines; std::vector<int> mc, ac; int b = 0;
  for (int i = 0; i < NM; i++) { std::string n = std::string("mod") + (char)('a' + i); mod.push_back(new GMod(n.c_str(), ctx, MM[i], MS[i], MP[i], MQ[i], b)); b += MM[i]; GMod *g = mod.back(); unsigned p0 = port.size();
    for (int k = 0; k < MM[i]; k++) port.push_back({g->nm("m", k), g, false, true, k, 0}); for (int k = 0; k < MS[i]; k++) port.push_back({g->nm("s", k), g, false, false, k, 0}); for (int k = 0; k < MP[i]; k++) port.push_back({g->nm("p", k), g, true, true, k, 0}); for (int k = 0; k < MQ[i]; k++) port.push_back({g->nm("q", k), g, true, false, k, 0});
    int nax = MM[i] + MS[i]; bool whole = nax && !((CX_SPLIT >> i) & 1) ? true : nax ? sx_pick("whole", 1, 0, 1) : false; int l = -1;
    for (unsigned j = p0; j < port.size(); j++) { Port &p = port[j]; if (p.mm || !whole || l < 0) l = sx_pick("loc", 4, 0, NL - 1); p.loc = l;
      for (unsigned o = 0; o < j; o++) if (port[o].loc == l) sx_assume(!port[o].mm && !p.mm); // a node serves either one memory-mapped port or stream ports
      if (p.mm || !whole || j == p0) lines.push_back((p.mm || !whole ? p.n : g->module_name) + " " + std::to_string(LN[l]) + " " + std::to_string(LM[l]) + (p.mm ? " aximm" : " axis")); }
    int c = CX_CLKS ? sx_pick("clk", 2, 0, 3) : 0; mc.push_back(c & 1); ac.push_back(c >> 1); 
    for (unsigned j = p0; j < port.size(); j++) for (unsigned o = 0; o < p0; o++) if (port[o].loc == port[j].loc) { int x = port[o].m->module_name[3] - 'a'; sx_assume(mc[x] == mc[i] && ac[x] == ac[i]); } // modules that share a node share its clocks
    clines.push_back(g->module_name + " " + std::to_string(c >> 1) + " " + std::to_string(c & 1)); }
  int r = CX_ROT ? sx_pick("first", 4, 0, lines.size() - 1) : 0; std::string pl = "p" + std::to_string(getpid()) + ".place", ck = "p" + std::to_string(getpid()) + ".clks"; { std::ofstream f(pl); for (unsigned i = 0; i < lines.size(); i++) f << lines[(i + r) % lines.size()] << (i + 1 < lines.size() ? "\n" : ""); } { std::ofstream f(ck); for (unsigned i = 0; i < clines.size(); i++) f << clines[(i + r) % clines.size()] << "\n"; }
  ctx->BuildDesignContext(pl, ck); unlink(pl.c_str()); unlink(ck.c_str());
  // what the design context answers
  auto names = ctx->GetNodeModuleNames(); std::vector<std::vector<std::set<std::string>>> wn(CX_NOCS);
  for (auto &p : port) { auto t = ctx->GetPortPlacement(p.n); sx_check((int)std::get<0>(t) == LN[p.loc] && (int)std::get<1>(t) == LM[p.loc] && (int)ctx->GetPortDestinationID(p.n) == LM[p.loc], "a port is at the NoC and node its placement line names");
    std::set<unsigned> ids; unsigned n = 0; for (auto &o : port) if (o.loc == p.loc && o.master == p.master && o.mm == p.mm) { ids.insert(ctx->GetPortInterfaceID(o.n)); n++; } sx_check(ids.size() == n && *ids.rbegin() == n - 1, "ports of one direction that share a node are numbered 0, 1, ...");
    bool in = false; if (LN[p.loc] < (int)names.size() && LM[p.loc] < (int)names[LN[p.loc]].size()) in = names[LN[p.loc]][LM[p.loc]].count(p.m->module_name); sx_check(in, "a module is listed at the nodes of its ports"); }
  for (unsigned c = 0; c < names.size(); c++) for (unsigned n = 0; n < names[c].size(); n++) for (auto &s : names[c][n]) { bool has = false; for (auto &p : port) has |= p.m->module_name == s && LN[p.loc] == (int)c && LM[p.loc] == (int)n; sx_check(has, "a module is listed at no other node"); }
  for (int c = 0; c < CX_NOCS; c++) { std::map<int, unsigned> sl, ms, msl, mms; for (auto &p : port) if (LN[p.loc] == c) { if (p.mm) (p.master ? msl : mms)[LM[p.loc]]++; else (p.master ? sl : ms)[LM[p.loc]]++; }
    bool ok = ctx->GetNumNoCSlaveAdapters(c, false) == sl.size() && ctx->GetNumNoCMasterAdapters(c, false) == ms.size() && ctx->GetNumNoCSlaveAdapters(c, true) == msl.size() && ctx->GetNumNoCMasterAdapters(c, true) == mms.size(); sx_check(ok, "a NoC has one adapter per direction for every node with ports of that direction");
    std::multiset<unsigned> w, g; if (ok) { for (auto &x : sl) w.insert(x.second); for (unsigned i = 0; i < sl.size(); i++) g.insert(ctx->GetNumAxisSlaveAdapterPorts(c, i)); for (auto &x : ms) w.insert(100 + x.second); for (unsigned i = 0; i < ms.size(); i++) g.insert(100 + ctx->GetNumAxisMasterAdapterPorts(c, i)); } sx_check(w == g, "an adapter has an interface for every port at its node"); }
  if (!CX_CONNECT) { for (auto *g : mod) g->Close(); sc_start(0.05, SC_NS); double T = 12 * CX_MCLK0; std::vector<unsigned> t0; for (auto *g : mod) t0.push_back(g->ticks); sc_start(T, SC_NS); for (int i = 0; i < NM; i++) { int w = (int)(T / mper[mc[i]] + 0.5); sx_check((int)(mod[i]->ticks - t0[i]) == w, "a module runs on the clock its line names"); } sx_reach("end"); return; }
  sc_signal<bool> rst("rst"); Top top("top"); top.rst(rst); ctx->CreateSystemNoCs(top.rst); ctx->ConnectModulesToNoC(); for (auto *g : mod) g->rst = &rst;
  rst.write(true); sc_start(4 * CX_MCLK1 + 0.05, SC_NS); rst.write(false); sc_start(2 * CX_MCLK1, SC_NS);
  struct Sent { int d; AxBeat b; int node, id, src; uint64_t a; bool w; bool seen; }; std::vector<Sent> sent; int seq = 0;
  for (unsigned i = 0; i < port.size(); i++) { Port &p = port[i]; if (!p.master) continue; std::vector<int> cand; for (unsigned j = 0; j < port.size(); j++) if (!port[j].master && port[j].mm == p.mm && LN[port[j].loc] == LN[p.loc]) cand.push_back(j); if (cand.empty()) continue;
    for (int k = 0; k < CX_SENDS; k++) { int d = cand[cand.size() > 1 ? sx_pick("to", 3, 0, cand.size() - 1) : 0]; Port &q = port[d];
      if (!p.mm) { AxBeat x = ax_sym(); sc_bv<AXIS_DESTW> t = 0; DEST_LOCAL_NODE(t) = (uint64_t)ctx->GetPortDestinationID(q.n); x.dest = t; x.id = (uint64_t)ctx->GetPortInterfaceID(q.n); x.last = true; x.user.range(6, 0) = (uint64_t)seq; if (CX_DW < AXIS_MAX_DATAW) x.data.range(AXIS_MAX_DATAW - 1, CX_DW) = 0; p.m->out[p.k].push_back(x); sent.push_back({d, x, LM[q.loc], 0, (int)i, 0, false, false}); seq++; }
      else { bool w = sx_pick("write", 1, 0, 1); uint64_t off = sx_in("offset", CX_OFFW - 6) << 6 | seq++, a = ctx->GetPortBaseAddress(q.n) + off; (w ? p.m->oaw : p.m->oar)[p.k].push_back(a); sent.push_back({d, AxBeat(), LM[q.loc], 0, (int)i, a, w, false}); } } }
  sc_start(CX_TIME, SC_NS);
  for (unsigned j = 0; j < port.size(); j++) { Port &q = port[j]; if (q.master) continue;
    if (!q.mm) { for (AxBeat &o : q.m->in[q.k]) { unsigned t = o.user.range(6, 0).to_uint(), n = 0; for (auto &s : sent) if (!port[s.d].mm && s.b.user.range(6, 0).to_uint() == t) { n++; sx_check(s.d == (int)j, "a beat arrives at the port it was sent to"); sx_check(!s.seen, "a beat arrives once"); s.seen = true; sx_check(o.data == s.b.data && o.user == s.b.user && o.dest == s.b.dest && o.id == s.b.id && o.last, "a beat arrives as sent"); sx_reach("beat"); } sx_check(n == 1, "only sent beats arrive"); } }
    else for (int w = 0; w < 2; w++) for (uint64_t a : (w ? q.m->iaw : q.m->iar)[q.k]) { bool hit = false; for (auto &s : sent) if (port[s.d].mm && s.w == (bool)w && s.d == (int)j && !s.seen && !hit && (s.a & 63) == (a & 63)) { s.seen = true; hit = true; sx_check(s.a == a, "a request arrives with its own address"); sx_reach("req"); } sx_check(hit, "a request reaches the port whose base address it uses"); } }
  for (auto &s : sent) sx_check(s.seen, "everything sent to a port of the same NoC arrives");
  sx_reach("end");
}
