// FIFO_KIND: 1 scalar sc_bv fifo (add/mult), 2 vector fifo (mlp/dlrm), 3 scalar int8 style fifo (mlp_int8), 4 afifo (dlrm), 5 npu vector fifo, 6 npu asymmetric, 7 npu instruction fifo
#include "simkit.hpp"
#include <queue>
#if FIFO_KIND == 4
#include <afifo.hpp>
#elif FIFO_KIND == 6
#include <asymmetric_fifo.hpp>
#elif FIFO_KIND == 7
#include <instruction_fifo.hpp>
#else
#include <fifo.hpp>
#endif
#if FIFO_KIND == 1
typedef sc_bv<DATAW> D; static D mk() { return sk_bv<DATAW>("d"); } static bool same(const D &a, const D &b) { return a == b; } static const int SXLANES = 1;
#elif FIFO_KIND == 2 || FIFO_KIND == 5
#if FIFO_KIND == 2
typedef sc_int<32> EL; 
#else
typedef tb_input_precision EL;
#endif
typedef data_vector<EL> D; static const int SXLANES = 3;
static D mk() { std::vector<EL> v(SXLANES); for (int i = 0; i < SXLANES; i++) v[i] = (int)sx_in("d", 32); return D(v); }
static bool same(D a, D b) { if (a.size() != b.size()) return false; bool r = true; for (unsigned i = 0; i < a.size(); i++) r &= (a[i] == b[i]); return r; }
#elif FIFO_KIND == 3
typedef sc_uint<RF_ADDRW> D; static D mk() { return D(sx_in("d", RF_ADDRW)); } static bool same(const D &a, const D &b) { return a == b; } static const int SXLANES = 1;
#elif FIFO_KIND == 7
typedef ld_uop D; static D mk() { D d; d.vrf1_addr = sx_in("d", VRF_ADDRW); d.src_sel = sx_in("s", 2); d.last = sx_in("l", 1); return d; } static bool same(const D &a, const D &b) { return a.vrf1_addr == b.vrf1_addr && a.src_sel == b.src_sel && a.last == b.last; } static const int SXLANES = 1;
#endif
#ifndef STEPS
#define STEPS 5
#endif
#ifndef CAP
#define CAP 2
#endif
extern "C" void harness() {
  sc_clock &clk = simkit_clock(); sc_signal<bool> rst("rst"), wen("wen"), ren("ren"), full("full"), afull("afull"), empty("empty"), aempty("aempty");
#if FIFO_KIND == 4 || FIFO_KIND == 6
#if FIFO_KIND == 4
  typedef int16_t EL; afifo<EL> f("f", CAP, IW, OW, CAP);
#else
  typedef tb_output_precision EL; asymmetric_fifo<EL> f("f", CAP, IW, OW, CAP, 1); f.almost_empty(aempty);
#endif
  typedef data_vector<EL> DV; sc_signal<DV> wdata("wdata"), rdata("rdata");
  f.clk(clk); f.rst(rst); f.wen(wen); f.wdata(wdata); f.ren(ren); f.rdata(rdata); f.full(full); f.almost_full(afull); f.empty(empty);
  const int ratio = IW > OW ? IW / OW : OW / IW; const bool w2n = IW >= OW;
  rst.write(true); sk_begin(); sk_step(); rst.write(false); sk_step();
  std::deque<std::vector<EL>> q; std::vector<EL> stage;
  for (int s = 0; s < STEPS; s++) {
    bool r = sx_in("rst", 1), w = sx_in("wen", 1), p = sx_in("ren", 1);
#ifdef NORST
    sx_assume(!r);
#endif
    if (p) sx_assume(!q.empty());
    bool isfull = w2n ? (int)q.size() + ratio > CAP : (int)q.size() >= CAP;
    if (w) sx_assume(!isfull);
    sx_check(full.read() == isfull, "fifo full flag equals no room for another input word");
    std::vector<EL> in(IW); for (int i = 0; i < IW; i++) in[i] = (int)sx_in("d", 16);
    DV dv(in); wdata.write(dv); wen.write(w); ren.write(p); rst.write(r); sk_step();
    if (r) { q.clear(); stage.clear(); }
    else {
      if (p) q.pop_front();
      if (w) { if (w2n) for (int i = 0; i < ratio; i++) q.push_back(std::vector<EL>(in.begin() + i * OW, in.begin() + (i + 1) * OW)); else { stage.insert(stage.end(), in.begin(), in.end()); if ((int)stage.size() == OW) { q.push_back(stage); stage.clear(); sx_reach("assembled"); } } }
    }
    sx_check(empty.read() == q.empty(), "fifo empty flag equals occupancy zero");
    if (!q.empty()) { DV o = rdata.read(); sx_check(o.size() == OW, "fifo read word has the output width"); for (int i = 0; i < OW; i++) sx_check(o[i] == q.front()[i], "fifo delivers elements in order, unchanged"); sx_reach("data"); }
  }
#else
  sc_signal<D> wdata("wdata"), rdata("rdata");
#if FIFO_KIND == 1
  fifo<D> f("f", CAP, CAP - 1, 1); f.ren(ren); f.wen(wen); f.wdata(wdata); f.rdata(rdata); f.almost_empty(aempty);
#elif FIFO_KIND == 3
  fifo<D> f("f", CAP, CAP - 1); f.pop(ren); f.push(wen); f.idata(wdata); f.odata(rdata);
#elif FIFO_KIND == 7
  instruction_fifo<D> f("f", CAP, CAP - 1, 1); f.ren(ren); f.wen(wen); f.wdata(wdata); f.rdata(rdata); f.almost_empty(aempty);
#else
  fifo<EL> f("f", CAP, SXLANES, CAP - 1, 1); f.ren(ren); f.wen(wen); f.wdata(wdata); f.rdata(rdata); f.almost_empty(aempty);
#endif
  f.clk(clk); f.rst(rst); f.full(full); f.almost_full(afull); f.empty(empty);
  rst.write(true); sk_begin(); sk_step(); rst.write(false); sk_step();
  std::deque<D> q;
  for (int s = 0; s < STEPS; s++) {
    bool r = sx_in("rst", 1), w = sx_in("wen", 1), p = sx_in("ren", 1);
#ifdef NORST
    sx_assume(!r);
#endif
    if (p) sx_assume(!q.empty());
    if (w) sx_assume((int)q.size() < (FIFO_KIND == 7 ? CAP : CAP)); // a producer respects the full flag
    D d = mk(); wdata.write(d); wen.write(w); ren.write(p); rst.write(r); sk_step();
    if (r) q.clear(); else { if (p) q.pop_front(); if (w) q.push_back(d); }
    sx_check(empty.read() == q.empty(), "fifo empty flag equals occupancy zero");
    sx_check(full.read() == ((int)q.size() == CAP), "fifo full flag equals occupancy at capacity");
    sx_check(afull.read() == ((int)q.size() >= CAP - 1), "fifo almost-full flag equals its threshold");
#if FIFO_KIND != 3
    sx_check(aempty.read() == (q.size() <= 1), "fifo almost-empty flag equals its threshold");
#endif
    if (!q.empty()) { sx_check(same(rdata.read(), q.front()), "fifo delivers words in order, unchanged"); sx_reach("data"); }
    if ((int)q.size() == CAP) sx_reach("full");
  }
#endif
  sx_reach("end");
}
