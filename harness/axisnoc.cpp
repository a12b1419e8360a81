// AXI-S modules over the real NoC: NS senders, NR receivers, symbolic traffic for STEPS cycles
#ifdef NARROW
#define SYS_DW(j, dw) ((j) ? NARROW : (dw))
#endif
#include "syskit.hpp"
#ifdef TELEM
#include "telem.hpp"
#else
#define TELEM_NODE 0
#define TELEM_SENT
#define TELEM_GOT
#define TELEM_END
#endif
extern "C" void harness() {
  RADSimDesignContext *ctx = sys_context(); 
  std::vector<SysMod *> mod; for (int i = 0; i < NMOD; i++) { std::string n = "m" + std::to_string(i) + "_inst"; mod.push_back(new SysMod(n.c_str(), ctx, NM, NS, DW, i % TYPES)); }
  sc_signal<bool> rst("rst"); SysTop top("top"); top.rst(rst);
  ctx->BuildDesignContext("axisnoc.place", "axisnoc.clks"); ctx->CreateSystemNoCs(top.rst); ctx->ConnectModulesToNoC();
  struct Src { axis_master_port *p; bool pend; AxBeat b; int dst; int seq; int w; int node; }; struct Dst { axis_slave_port *p; int node, id; std::vector<std::deque<AxBeat>> q; bool held; AxBeat h; };
  std::vector<Src> src; std::vector<Dst> dst;
  for (auto *m : mod) { for (unsigned i = 0; i < m->m.size(); i++) src.push_back({m->m[i], false, AxBeat(), 0, 0, SYS_DW(i, DW), TELEM_NODE}); for (unsigned i = 0; i < m->s.size(); i++) { std::string n = m->module_name + ".s" + std::to_string(i); dst.push_back({m->s[i], (int)ctx->GetPortDestinationID(n), (int)ctx->GetPortInterfaceID(n), {}, false, AxBeat()}); } }
  for (auto &d : dst) d.q.resize(src.size());
  const double P = PERIOD; rst.write(true); for (auto &d : dst) d.p->tready.write(false); for (auto &s : src) ax_put(*s.p, AxBeat(), false); sc_start(0.05, SC_NS); sc_start(2 * P, SC_NS); rst.write(false); sc_start(P, SC_NS); // now just after a rising edge of the module clock
  auto pickdst = [&](Src &s) { if (s.w < DW || SYS_DW(1, DW) == DW) return DESTS > 1 ? (int)sx_pick("dst", 4, 0, DESTS - 1) : 0; return (int)sx_pick("dst", 4, 0, (DESTS - 1) / 2) * 2; }; // wide beats only to wide ports
  int hold = HOLD ? sx_pick("hold", 8, HOLD - HOLDV, HOLD) : 0; if (BURST) for (unsigned i = 0; i < SENDERS; i++) src[i].dst = pickdst(src[i]);
  int sent = 0, got = 0;
  for (int t = 0; t < STEPS + DRAIN; t++) {
    for (unsigned i = 0; i < src.size(); i++) { Src &s = src[i];
      if (!s.pend && t < STEPS && i < SENDERS && s.seq < MAXPK && (s.seq < BURST || sx_in("valid", 1))) { s.pend = true; s.b = ax_sym(); if (BURST) s.b.last = (s.seq ^ i) & 1; if (!BURST) s.dst = pickdst(s); Dst &d = dst[s.dst]; sc_bv<AXIS_DESTW> x = 0; DEST_LOCAL_NODE(x) = (uint64_t)d.node; s.b.dest = x; if (s.w < AXIS_MAX_DATAW) s.b.data.range(AXIS_MAX_DATAW - 1, s.w) = 0; s.b.id = (uint64_t)d.id; s.b.user.range(6, 0) = (uint64_t)(i * 32 + s.seq++); ax_put(*s.p, s.b, true); }
      else if (!s.pend) ax_put(*s.p, s.b, false); }
    bool rdy[16]; for (unsigned j = 0; j < dst.size(); j++) { rdy[j] = t >= STEPS || j >= DESTS || !STALL ? t >= hold : (bool)sx_in("ready", 1); dst[j].p->tready.write(rdy[j]); }
    sc_start(P - 0.1, SC_NS); // just before the next rising edge, which samples ready and valid
    std::vector<bool> taken; for (auto &s : src) taken.push_back(s.pend && s.p->tready.read());
    for (unsigned j = 0; j < dst.size(); j++) { Dst &d = dst[j];
      if (d.p->tvalid.read()) {
        AxBeat o = ax_get(*d.p); if (d.held) sx_check(o.data == d.h.data && o.user == d.h.user && o.last == d.h.last && o.dest == d.h.dest && o.id == d.h.id, "an offered beat stays unchanged until it is taken");
        d.held = !rdy[j]; d.h = o; 
        if (rdy[j]) { unsigned tag = o.user.range(6, 0).to_uint(), i = tag / 32; if (i >= src.size() || d.q[i].empty()) { sx_fail("a port receives only beats sent to it, each once"); continue; }
          unsigned k = 0; if (!ORDER) while (k + 1 < d.q[i].size() && d.q[i][k].user.range(6, 0).to_uint() != tag) k++; AxBeat e = d.q[i][k]; d.q[i].erase(d.q[i].begin() + k); got++; TELEM_GOT; sx_reach("beat"); if (STALL && t >= STEPS) sx_reach("late");
          sx_check((e.user.range(6, 0).to_uint() == tag), "beats from one port to another arrive in the order sent"); sx_check(o.data == e.data, "a beat's data arrives unchanged"); sx_check(o.user == e.user, "a beat's user field arrives unchanged"); sx_check(o.last == e.last, "a beat's last flag arrives unchanged"); sx_check(o.dest == e.dest, "a beat's destination arrives unchanged"); sx_check(o.id == e.id, "a beat arrives at the interface its tid names"); }
      } else { sx_check(!d.held, "an offered beat is not withdrawn before it is taken"); d.held = false; } }
    for (unsigned i = 0; i < src.size(); i++) if (taken[i]) { TELEM_SENT; dst[src[i].dst].q[i].push_back(src[i].b); src[i].pend = false; sent++; }
    sc_start(0.1, SC_NS);
  }
  bool left = false; for (auto &s : src) left |= s.pend; sx_check(!left, "every offered beat is accepted in the end"); sx_check(sent == got, "every accepted beat is delivered");
  TELEM_END;
  sx_reach("end");
}
