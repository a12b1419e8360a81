// one unit of the npu design: micro-operations, data and write-back words go in, result vectors come out
// NP_KIND 0 external register file, 1 element-wise unit, 2 loader
#include "simkit.hpp"
#if NP_KIND == 0
#include <evrf.hpp>
typedef evrf_uop Uop;
#elif NP_KIND == 1
#include <mfu.hpp>
typedef mfu_uop Uop;
#else
#include <loader.hpp>
typedef ld_uop Uop;
#endif
typedef tb_output_precision W; typedef tb_input_precision B8;
template <class T> using Vec = data_vector<T>;
// what is on offer at the unit's inputs (one queue per core; the head is visible until the unit takes it)
template <class T> struct Src { std::deque<Vec<T>> q; sc_signal<bool> rdy, ren; sc_signal<Vec<T>> d; unsigned taken = 0;
  void drive(bool on) { bool v = on && !q.empty(); rdy.write(v); if (v) d.write(q.front()); }
  bool take() { if (!ren.read()) return false; if (!rdy.read() || q.empty()) { sx_fail("a unit takes a word only when one is offered"); return false; } q.pop_front(); taken++; return true; } };
template <class T> struct Snk { std::vector<Vec<T>> got; sc_signal<bool> rdy, ren; sc_signal<Vec<T>> d;
  void take() { if (rdy.read() && ren.read()) got.push_back(d.read()); } };
static std::vector<int> val(const char *n, int len, int k, int bits) { static int ns; std::vector<int> v(len); for (int i = 0; i < len; i++) v[i] = (i * 7 + k * 13 + 3) % 101 - 50; if (bits && ns < NP_NSYM) { ns++; int s = (int)sx_in(n, bits); v[k % len] = bits == 32 ? s : (s << (32 - bits)) >> (32 - bits); } return v; }
template <class T> static Vec<T> dv(const std::vector<int> &a) { std::vector<T> v(a.size()); for (unsigned i = 0; i < a.size(); i++) v[i] = a[i]; return Vec<T>(v); }
static unsigned long long addrs(int k) { return k ? VRF_DEPTH - 2 : 5; }
#ifndef NP_PART
#define NP_PART 0
#endif
static int NU = NP_N;
extern "C" void harness() {
  sim_log.SetLogSettings(0, "sim.log"); sc_clock &clk = simkit_clock(); sc_signal<bool> rst("rst"), wen("wen"), irdy("irdy"); sc_signal<Uop> inst("inst");
#if NP_KIND == 0
  evrf u("u", 0, 0);
#elif NP_KIND == 1
  mfu u("u", NP_ID, 0, 0);
#else
  loader u("u");
#endif
  u.clk(clk); u.rst(rst); u.inst(inst); u.inst_fifo_wen(wen); u.inst_fifo_rdy(irdy);
  std::vector<Uop> prog; int stall = NP_STALL ? sx_pick("stall", 4, 0, NP_STALL) : 0, nst = 0, gap = NP_GAP ? sx_pick("gap", 4, 0, NP_GAP) : 0, late = NP_LATE ? sx_pick("late", 4, 0, NP_LATE) : 0;
#if NP_KIND < 2
  Src<W> in[CORES], wb[CORES]; Snk<W> out[CORES]; struct Wr { int add, mult, addr, last, mine; std::vector<int> v[CORES]; }; std::vector<Wr> wr;
  for (int c = 0; c < CORES; c++) { u.wbfifo_rdy[c](wb[c].rdy); u.wbfifo_ren[c](wb[c].ren); u.wbfifo_rdata[c](wb[c].d);
#if NP_KIND == 0
    u.mvu_ofifo_rdy[c](in[c].rdy); u.mvu_ofifo_ren[c](in[c].ren); u.mvu_ofifo_rdata[c](in[c].d); u.evrf_ofifo_rdy[c](out[c].rdy); u.evrf_ofifo_ren[c](out[c].ren); u.evrf_result[c](out[c].d); }
#else
    u.input_ofifo_rdy[c](in[c].rdy); u.input_ofifo_ren[c](in[c].ren); u.input_ofifo_rdata[c](in[c].d); u.mfu_ofifo_rdy[c](out[c].rdy); u.mfu_ofifo_ren[c](out[c].ren); u.mfu_result[c](out[c].d); }
#endif
  // write-back words: to this unit or to another one of the chain, some of them marked as the last of an instruction
  int lasts = 0; for (int k = 0; k < NP_WB; k++) { Wr w; bool sym = k < NP_WSYM; w.mine = sym ? sx_pick("mine", 1, 0, 1) : k % 4 != 3; int id = NP_KIND == 0 ? 0 : 1 + (sym ? sx_pick("vrf", 2, 0, 2) : k % 3); w.add = id & 1 || NP_KIND == 0; w.mult = id >> 1; w.addr = addrs(sym ? sx_pick("waddr", 1, 0, 1) : k & 1);
    w.last = sym ? sx_pick("last", 1, 0, 1) : k & 1; int blk = NP_KIND == 0 ? 1 : 2 + NP_ID; if (!w.mine) blk = blk % 3 + 1; else lasts += w.last;
    for (int c = 0; c < CORES; c++) { w.v[c] = val("w", DPES_PER_SECTOR, k + 3 * c, NP_MUL ? 0 : NP_BITS); std::vector<int> a{blk * 4 + id, w.addr, w.last, 0}; a.insert(a.end(), w.v[c].begin(), w.v[c].end()); wb[c].q.push_back(dv<W>(a)); } wr.push_back(w); }
  // the program
  int nin = 0; bool stuck = false; std::vector<int> takes, outs;
  for (int k = 0; k < NU; k++) { Uop o; bool sym = k < NP_USYM; int tag = sym ? sx_pick("tag", 2, 0, NP_TAGS) : (k == NU - 1 && lasts > 0); o.tag = tag; bool t = true, e = true;
#if NP_KIND == 0
    int s = sym ? sx_pick("src", 2, 0, 2) : k % 3; o.src_sel = s; t = s != EVRF_FROM_VRF; e = s != EVRF_FLUSH_MVU; o.vrf_addr = addrs(sym ? sx_pick("raddr", 1, 0, 1) : k & 1);
#else
    o.activation_op = k & 3; o.add_op = sym ? sx_pick("add", 3, 0, NP_ADDS) : k % 5; o.mult_op = NP_MUL && (sym ? sx_pick("mul", 1, 0, 1) : k & 1); o.vrf0_addr = addrs(sym ? sx_pick("raddr", 1, 0, 1) : k & 1); o.vrf1_addr = addrs(k + 1 & 1);
#endif
    o.first_uop = k == 0; o.last_uop = k + 1 == NU; if (tag > lasts) stuck = true; // an operation waits for its tag for good, and everything behind it
    takes.push_back(t); outs.push_back(e && !stuck); nin += t; prog.push_back(o); }
  int nx = nin + NP_EXTRA; std::vector<std::vector<int>> xs[CORES]; for (int k = 0; k < nx; k++) for (int c = 0; c < CORES; c++) { xs[c].push_back(val("x", DPES_PER_SECTOR, k + 5 * c + 1, NP_BITS)); in[c].q.push_back(dv<W>(xs[c][k])); }
  for (int c = 0; c < CORES; c++) { in[c].drive(false); wb[c].drive(false); out[c].ren.write(false); }
  rst.write(true); wen.write(false); sk_begin(); sk_step(); sk_step(); rst.write(false); sk_step();
  if (NP_PRE) { // a unit that was at work is reset: nothing of that is left
    std::deque<Vec<W>> qi[CORES], qw[CORES]; for (int c = 0; c < CORES; c++) { qi[c].swap(in[c].q); qw[c].swap(wb[c].q); for (int k = 0; k < 3; k++) in[c].q.push_back(dv<W>(std::vector<int>(DPES_PER_SECTOR, 77 + k))); for (int k = 0; k < 2; k++) { std::vector<int> a(4 + DPES_PER_SECTOR, 55); a[0] = (NP_KIND == 0 ? 1 : 2 + NP_ID) * 4 + 3; a[1] = 9; a[2] = 1; wb[c].q.push_back(dv<W>(a)); } }
    int d = sx_pick("work", 6, NP_PRE, NP_PRE + NP_PREN); for (int t = 0; t < d; t++) { bool iv = t >= 2 && t < 5 && irdy.read(); wen.write(iv); Uop o; o.tag = 0; if (iv) inst.write(o); for (int c = 0; c < CORES; c++) { in[c].drive(true); wb[c].drive(true); out[c].ren.write(false); } sc_start(0.5, SC_NS); for (int c = 0; c < CORES; c++) { in[c].take(); wb[c].take(); } sc_start(0.5, SC_NS); }
    for (int c = 0; c < CORES; c++) { in[c].q.swap(qi[c]); wb[c].q.swap(qw[c]); in[c].drive(false); wb[c].drive(false); in[c].taken = wb[c].taken = 0; } wen.write(false); rst.write(true); sk_step(); rst.write(false); sk_step(); }
  int pc = 0, held[CORES] = {0}; std::vector<int> seen(NU, 0); int done = 0;
  for (int t = 0; t < NP_TIME; t++) {
    bool iv = pc < NU && irdy.read() && t >= gap; wen.write(iv); if (iv) inst.write(prog[pc]);
    bool rdy = t >= NP_HOLD; for (int c = 0; c < CORES; c++) { in[c].drive(t >= late); wb[c].drive(t >= NP_WAIT); } if (rdy && nst < stall && out[0].rdy.read() && sx_in("ready", 1) == 0) { rdy = false; nst++; }
    for (int c = 0; c < CORES; c++) out[c].ren.write(rdy && out[c].rdy.read());
    sc_start(0.5, SC_NS); // settled before the edge
    if (iv) { seen[pc] = wb[0].taken; pc++; }
    for (int c = 0; c < CORES; c++) { in[c].take(); out[c].take(); bool mine = !wb[c].q.empty() && wr[wb[c].taken].mine; bool tk = wb[c].rdy.read() && wb[c].take(); if (tk) sx_check(mine, "a unit takes only the write-back words addressed to it"); else if (wb[c].rdy.read() && !mine) { wb[c].q.pop_front(); wb[c].taken++; } else if (wb[c].rdy.read() && mine) sx_check(++held[c] < 20, "a write-back word for a unit is taken"); }
    sc_start(0.5, SC_NS);
  }
  sx_check(pc == NU, "the unit takes every micro-operation");
  int x = 0; unsigned n = 0;
  for (int k = 0; k < NU; k++) { Uop &o = prog[k]; if (outs[k]) { int need = seen[k]; { int l = 0; for (int i = 0; i < (int)wr.size(); i++) if (wr[i].mine && wr[i].last && ++l == (int)o.tag.to_uint() && i + 1 > need) need = i + 1; }
      for (int c = 0; c < CORES; c++) { if (n >= out[c].got.size()) { sx_fail("every micro-operation's result comes out"); return; } Vec<W> g = out[c].got[n]; sx_check(g.size() == DPES_PER_SECTOR, "a result has one element per unit");
        // the register contents a read may see: every word its tag waits for is written, later ones may be
        bool any = false; for (int a = need; a <= (int)wr.size() && (a == need || !NP_EXACT); a++) for (int m = NP_KIND == 1 && !NP_EXACT ? need : a; m <= (NP_KIND == 1 && !NP_EXACT ? (int)wr.size() : a); m++) { std::vector<int> r0(DPES_PER_SECTOR, 0), r1(DPES_PER_SECTOR, 0); 
#if NP_KIND == 0
          for (int i = 0; i < a; i++) if (wr[i].mine && wr[i].addr == (int)o.vrf_addr.to_uint()) r0 = wr[i].v[c];
          bool same = true; for (int e = 0; e < DPES_PER_SECTOR; e++) same &= (int)g[e] == (o.src_sel == EVRF_FROM_VRF ? r0[e] : xs[c][x][e]);
#else
          for (int i = 0; i < a; i++) if (wr[i].mine && wr[i].add && wr[i].addr == (int)o.vrf0_addr.to_uint()) r0 = wr[i].v[c]; for (int i = 0; i < m; i++) if (wr[i].mine && wr[i].mult && wr[i].addr == (int)o.vrf1_addr.to_uint()) r1 = wr[i].v[c];
          bool same = true; for (int e = 0; e < DPES_PER_SECTOR; e++) { unsigned v = xs[c][x][e], r = r0[e]; switch ((int)o.add_op.to_uint()) { case MFU_ADD_OP: v += r; break; case MFU_SUB_OP: v -= r; break; case MFU_RSUB_OP: v = r - v; break; case MFU_MAX_OP: v = (int)v > (int)r ? v : r; break; } if (o.mult_op == 1) v *= (unsigned)r1[e]; same &= (int)g[e] == (int)v; }
#endif
          any |= same; }
        sx_check(any, NP_KIND == 0 ? "a result is the input or the register contents its micro-operation names" : "a result is the input with its micro-operation applied to the registers it names"); } n++; sx_reach("out"); }
    if (takes[k]) x++; }
  for (int c = 0; c < CORES; c++) { sx_check(out[c].got.size() == n, "no result comes out that no micro-operation made"); sx_check(wb[c].q.empty(), "every write-back word is taken"); }
  if (!stuck) sx_reach("all"); else sx_reach("stuck");
#else
  Src<W> in[SECTORS][CORES]; Src<B8> ext[CORES]; Snk<W> eo[CORES], w1[SECTORS][CORES]; Snk<B8> w0[CORES];
  sc_signal<bool> erdy[CORES], ewen[CORES]; sc_signal<Vec<B8>> ed[CORES];
  for (int c = 0; c < CORES; c++) { u.ext_input_fifo_rdy[c](erdy[c]); u.ext_input_fifo_wen[c](ewen[c]); u.ext_input_fifo_wdata[c](ed[c]); u.ext_output_fifo_rdy[c](eo[c].rdy); u.ext_output_fifo_ren[c](eo[c].ren); u.ext_output_fifo_rdata[c](eo[c].d);
    u.wb0_fifo_rdy[c](w0[c].rdy); u.wb0_fifo_ren[c](w0[c].ren); u.wb0_fifo_rdata[c](w0[c].d); for (int s = 0; s < SECTORS; s++) { u.wb1_fifo_rdy[s][c](w1[s][c].rdy); u.wb1_fifo_ren[s][c](w1[s][c].ren); u.wb1_fifo_rdata[s][c](w1[s][c].d); u.input_fifo_rdy[s][c](in[s][c].rdy); u.input_fifo_ren[s][c](in[s][c].ren); u.input_fifo_rdata[s][c](in[s][c].d); } }
  int nin = 0, next = 0;
  for (int k = 0; k < NU; k++) { Uop o; bool sym = k < NP_USYM; int s = sym ? sx_pick("src", 2, 0, k && NP_TAGS ? 2 : 1) : k & 1; o.src_sel = s; nin += s == LD_FROM_WB; next += s == LD_FROM_IN; bool zero = sym && sx_pick("ch0", 1, 0, 1) == 0; o.vrf0_id = zero ? (uint64_t)0 : sym ? sx_range("vrf0", VRF_WB_SELW, 1, (1 << VRF_WB_SELW) - 1) : 1 + k % 7; o.block1_id = sym ? sx_pick("blk", 2, 1, 3) : 1 + k % 3; o.vrf1_id = sym ? sx_pick("vrf1", 2, 0, 3) : k % 4;
    o.vrf0_addr = sym ? sx_in("a0", VRF_ADDRW) : (k * 37) % VRF_DEPTH; o.vrf1_addr = sym ? sx_in("a1", VRF_ADDRW) : (k * 91) % VRF_DEPTH; o.last = sym ? sx_in("last", 1) : k & 1; o.output_result = sym ? sx_pick("res", 1, 0, 1) : k % 3 == 0; o.interrupt = false; o.first_uop = k == 0; o.last_uop = k + 1 == NU; prog.push_back(o); }
  std::vector<std::vector<int>> xs[CORES], es[CORES]; for (int c = 0; c < CORES; c++) { for (int k = 0; k < nin + NP_EXTRA; k++) { xs[c].push_back(val("x", LANES, k + 5 * c + 1, NP_BITS)); for (int s = 0; s < SECTORS; s++) in[s][c].q.push_back(dv<W>(std::vector<int>(xs[c][k].begin() + s * DPES_PER_SECTOR, xs[c][k].begin() + (s + 1) * DPES_PER_SECTOR))); }
    for (int k = 0; k < next + NP_EXTRA; k++) es[c].push_back(val("e", LANES, k + 7 * c + 2, LOW_PRECISION)); }
  for (int c = 0; c < CORES; c++) { ewen[c].write(false); eo[c].ren.write(false); w0[c].ren.write(false); for (int s = 0; s < SECTORS; s++) { in[s][c].drive(false); w1[s][c].ren.write(false); } }
  rst.write(true); wen.write(false); sk_begin(); sk_step(); sk_step(); rst.write(false); sk_step();
  if (NP_PRE) { int d = sx_pick("work", 6, NP_PRE, NP_PRE + NP_PREN); for (int t = 0; t < d; t++) { bool iv = t >= 2 && t < 5 && irdy.read(); wen.write(iv); Uop o; o.src_sel = LD_FROM_IN; o.vrf0_id = 3; o.vrf1_id = 2; o.block1_id = 1; o.output_result = true; if (iv) inst.write(o); for (int c = 0; c < CORES; c++) { ewen[c].write(t < 4); ed[c].write(dv<B8>(std::vector<int>(LANES, 77 + t))); } sk_step(); }
    for (int c = 0; c < CORES; c++) ewen[c].write(false); wen.write(false); rst.write(true); sk_step(); rst.write(false); sk_step(); }
  int pc = 0, ec = 0;
  for (int t = 0; t < NP_TIME; t++) {
    bool iv = pc < NU && irdy.read() && t >= gap; wen.write(iv); if (iv) inst.write(prog[pc]);
    bool ev = ec < (int)es[0].size() && t >= late; for (int c = 0; c < CORES; c++) ev &= erdy[c].read(); for (int c = 0; c < CORES; c++) { ewen[c].write(ev); if (ev) ed[c].write(dv<B8>(es[c][ec])); }
    bool rdy = t >= NP_HOLD, any = false; for (int c = 0; c < CORES; c++) any |= w0[c].rdy.read() || w1[0][c].rdy.read() || eo[c].rdy.read(); if (rdy && any && nst < stall && sx_in("ready", 1) == 0) { rdy = false; nst++; }
    bool slow = NP_SLOW && t < NP_HOLD + NP_SLOW; // one channel's receiver may be slower than the others
    for (int c = 0; c < CORES; c++) { eo[c].ren.write(rdy && eo[c].rdy.read()); w0[c].ren.write(rdy && !slow && w0[c].rdy.read()); for (int s = 0; s < SECTORS; s++) { in[s][c].drive(t >= late + (NP_SKEW && s == SECTORS - 1 ? NP_SKEW : 0)); w1[s][c].ren.write(rdy && w1[s][c].rdy.read()); } }
    sc_start(0.5, SC_NS);
    pc += iv; ec += ev; for (int c = 0; c < CORES; c++) { eo[c].take(); w0[c].take(); for (int s = 0; s < SECTORS; s++) { in[s][c].take(); w1[s][c].take(); } }
    sc_start(0.5, SC_NS);
  }
  sx_check(pc == NU, "the unit takes every micro-operation"); sx_check(ec == (int)es[0].size(), "the loader takes every external input");
  for (int c = 0; c < CORES; c++) { unsigned x = 0, e = 0, no = 0, n0 = 0, n1 = 0;
    for (int k = 0; k < NU; k++) { Uop &o = prog[k]; bool data = o.src_sel != LD_TAG_UPDATE; const std::vector<int> d = o.src_sel == LD_FROM_IN ? es[c][e++] : o.src_sel == LD_FROM_WB ? xs[c][x++] : std::vector<int>(LANES);
      if (o.output_result) { if (no >= eo[c].got.size()) { sx_fail("every result marked for the output comes out"); return; } Vec<W> g = eo[c].got[no++]; if (data) for (int i = 0; i < LANES; i++) sx_check((int)g[i] == d[i], "an output is the vector its micro-operation takes"); sx_reach("out"); }
      if (o.vrf0_id != 0) { if (n0 >= w0[c].got.size()) { sx_fail("every vector to be written back goes out"); return; } Vec<B8> g = w0[c].got[n0++]; sx_check(g.size() == LANES + 4, "a written-back vector carries its address and every element"); unsigned ad = ((unsigned)(int)g[1] & 255) | ((unsigned)(int)g[2] & 255) << 8;
        sx_check(g.size() == LANES + 4 && (int)g[0] == (int)o.vrf0_id.to_uint() - 1 && ad == o.vrf0_addr.to_uint() && (int)g[3] == (int)o.last, "a written-back vector names the register file, address and last mark of its micro-operation"); if (data) for (int i = 0; i < LANES; i++) sx_check((int)g[4 + i] == (d[i] << 24) >> 24, "a written-back vector holds what its micro-operation takes"); sx_reach("wb0"); }
      if (o.vrf1_id != 0) { for (int s = 0; s < SECTORS; s++) { if (n1 >= w1[s][c].got.size()) { sx_fail("every vector to be written back goes out"); return; } Vec<W> g = w1[s][c].got[n1]; sx_check(g.size() == DPES_PER_SECTOR + 4 && (int)g[0] == (int)(o.block1_id.to_uint() * 4 + o.vrf1_id.to_uint()) && (int)g[1] == (int)o.vrf1_addr.to_uint() && (int)g[2] == (int)o.last, "a written-back part names the unit, register file, address and last mark of its micro-operation");
          if (data) for (int i = 0; i < DPES_PER_SECTOR; i++) sx_check((int)g[4 + i] == d[s * DPES_PER_SECTOR + i], "a written-back part holds what its micro-operation takes"); } n1++; sx_reach("wb1"); } }
    sx_check(eo[c].got.size() == no && w0[c].got.size() == n0, "no result comes out that no micro-operation made"); for (int s = 0; s < SECTORS; s++) sx_check(w1[s][c].got.size() == n1, "no result comes out that no micro-operation made"); }
  sx_reach("all");
#endif
  sx_reach("end");
}
