// the npu design's instruction path
// DC_KIND 0 matrix-vector, 1 register file, 2 element-wise, 3 loader decoder: macro-operations in, micro-operations out
// DC_KIND 4 macro-operations as bit vectors; 5 the dispatcher of a program
#include "simkit.hpp"
#include <decoders.hpp>
#define IN(n, w) sx_in(n, w)
static const int C = (DPE_NUM_TBS - 1) * TB_NUM_DOTS; // words a register bank of a dot-product engine takes
#if DC_KIND == 0
typedef sector_and_accum_decoder Dec; typedef mvu_mop Mop; typedef mvu_uop Uop;
#elif DC_KIND == 1
typedef evrf_decoder Dec; typedef evrf_mop Mop; typedef evrf_uop Uop;
#elif DC_KIND == 2
typedef mfu_decoder Dec; typedef mfu_mop Mop; typedef mfu_uop Uop;
#elif DC_KIND == 3
typedef ld_decoder Dec; typedef ld_mop Mop; typedef ld_uop Uop;
#endif
template <class V> static void bases(V &v, const char *n, bool sym, int k) { for (int i = 0; i < TB_NUM_DOTS; i++) v[i] = sym ? IN(n, VRF_ADDRW) : (k * 53 + i * 17) % VRF_DEPTH; }
#if DC_KIND < 4
struct Step { Uop u; int pass; bool tagup; }; // what has to come out
static std::vector<Step> want; static int npass;
static Mop mop(int k, bool sym) { Mop m; m.op = 1;
#if DC_KIND == 0
  static const int R[] = {C, C + 2, 2 * C, 2 * C + 1, 3 * C + 2}; int r = R[sym ? sx_pick("rows", 3, 0, 4) : k % 5], v = sym ? sx_pick("cols", 2, 1, DC_MAX) : k % 3 + 1; bases(m.vrf_base, "base", sym, k); m.vrf_size = v; m.words_per_row = r; m.mrf_size = r * v; m.mrf_base = sym ? sx_range("mrf", MRF_ADDRW, 0, MRF_DEPTH - r * v) : k * 29 % (MRF_DEPTH - 200); m.tag = sym ? IN("tag", TAGW) : k;
  bool nop = sym && DC_NOP && sx_pick("nop", 1, 0, 1); m.op = !nop; if (nop) return m; bool first = true;
  for (int row = 0; row < r;) { int n = r - row >= 2 * C ? C : r - row;
    for (int col = 0; col < v; col++) { for (int p = 0; p < n; p++) { Step s; s.pass = npass; s.tagup = false; Uop &u = s.u; u.vrf_addr = m.vrf_base[p % TB_NUM_DOTS] + col; u.vrf_rd_id = p < C ? p / TB_NUM_DOTS : 0; u.mrf_addr = m.mrf_base + (row + p) * v + col; u.tag = m.tag; u.accum_size = n; u.accum_op = v == 1 ? ACCUM_OP_SWB : col == v - 1 ? ACCUM_OP_WRB : col == 0 ? ACCUM_OP_SET : ACCUM_OP_UPD; u.vrf_en = p < C; u.first_uop = first; first = false; u.last_uop = row + n == r && col == v - 1 && p == n - 1; want.push_back(s); } npass++; }
    row += n; }
#elif DC_KIND == 1
  int size = sym ? sx_pick("size", 2, 1, DC_MAX) : k % 4 + 1, batch = sym ? sx_pick("batch", 2, 1, TB_NUM_DOTS) : k % TB_NUM_DOTS + 1, src = sym ? sx_pick("src", 1, 0, 1) : k & 1; bases(m.vrf_base, "base", sym, k); m.vrf_size = size; m.batch = batch; m.src_sel = src; m.tag = sym ? IN("tag", TAGW) : k;
  bool nop = sym && DC_NOP && sx_pick("nop", 1, 0, 1); m.op = !nop; if (nop) return m; int n = src == EVRF_FROM_MVU ? TB_NUM_DOTS : batch;
  for (int a = 0; a < size; a++) for (int b = 0; b < n; b++) { Step s; s.tagup = false; Uop &u = s.u; u.vrf_addr = m.vrf_base[b] + a; u.src_sel = b < batch ? src : EVRF_FLUSH_MVU; u.tag = m.tag; u.first_uop = !a && !b; u.last_uop = a == size - 1 && b == n - 1; want.push_back(s); }
#elif DC_KIND == 2
  int size = sym ? sx_pick("size", 2, 1, DC_MAX) : k % 4 + 1, batch = sym ? sx_pick("batch", 2, 1, TB_NUM_DOTS) : k % TB_NUM_DOTS + 1; bases(m.add_vrf_base, "abase", sym, k); bases(m.mul_vrf_base, "mbase", sym, k + 5); m.vrf_size = size; m.batch = batch; m.tag = sym ? IN("tag", TAGW) : k;
  bool nop = sym && DC_NOP && sx_pick("nop", 1, 0, 1); unsigned op = sym ? IN("op", 6) : k * 11 & 63; m.op = (nop ? 0 : 64) | op; if (nop) return m;
  for (int a = 0; a < size; a++) for (int b = 0; b < batch; b++) { Step s; s.tagup = false; Uop &u = s.u; u.vrf0_addr = m.add_vrf_base[b] + a; u.vrf1_addr = m.mul_vrf_base[b] + a; u.tag = m.tag; u.activation_op = op >> 4; u.add_op = op >> 1 & 7; u.mult_op = op & 1; u.first_uop = !a && !b; u.last_uop = a == size - 1 && b == batch - 1; want.push_back(s); }
#else
  int size = sym ? sx_pick("size", 2, 1, DC_MAX) : k % 4 + 1, batch = sym ? sx_pick("batch", 2, 1, TB_NUM_DOTS) : k % TB_NUM_DOTS + 1; bases(m.vrf0_base, "base0", sym, k); bases(m.vrf1_base, "base1", sym, k + 5); m.vrf_size = size; m.batch = batch; m.src_sel = sym ? IN("src", 1) : k & 1; m.vrf0_id = sym ? IN("vid0", VRF_WB_SELW) : k % 4; m.vrf1_id = sym ? IN("vid1", VRF_WB_SELW) : k % 3; m.block1_id = sym ? IN("blk", BLOCK_WB_SELW) : k % 5; m.interrupt = sym ? IN("int", 1) : k & 1; m.output_result = sym ? IN("res", 1) : k % 3 == 0;
  bool nop = sym && DC_NOP && sx_pick("nop", 1, 0, 1); m.op = !nop; if (nop) return m;
  for (int a = 0; a < size; a++) for (int b = 0; b < batch; b++) { Step s; s.tagup = false; Uop &u = s.u; u.vrf0_id = m.vrf0_id; u.vrf1_id = m.vrf1_id; u.block1_id = m.block1_id; u.vrf0_addr = m.vrf0_base[b] + a; u.vrf1_addr = m.vrf1_base[b] + a; u.src_sel = m.src_sel; u.output_result = m.output_result; u.last = u.interrupt = u.last_uop = false; u.first_uop = !a && !b; want.push_back(s); }
  for (int b = 0; b < NUM_PIPELINE_BLOCKS - 1; b++) { Step s; s.tagup = true; s.u.interrupt = b == NUM_PIPELINE_BLOCKS - 2 && m.interrupt; s.u.last_uop = b == NUM_PIPELINE_BLOCKS - 2; want.push_back(s); }
#endif
  return m; }
extern "C" void harness() {
  sim_log.SetLogSettings(0, "sim.log"); sc_clock &clk = simkit_clock(); sc_signal<bool> rst("rst"), rdy("rdy"), ren("ren"), urdy("urdy"), uwen("uwen"); sc_signal<Mop> md("md"); sc_signal<Uop> ud("ud");
  Dec d("d"); d.clk(clk); d.rst(rst); d.mop_rdy(rdy); d.mop_ren(ren); d.mop_rdata(md); d.uop_rdy(urdy); d.uop_wen(uwen); d.uop_wdata(ud);
  std::deque<Mop> prog; for (int k = 0; k < DC_N; k++) prog.push_back(mop(k, k < DC_SYM));
  int gap = DC_GAP ? sx_pick("gap", 4, 0, DC_GAP) : 0, s0 = DC_STALL ? sx_pick("stallat", 5, 3, 3 + DC_STALL) : 99999, sl = DC_STALL ? sx_pick("stallfor", 3, 1, 4) : 0; 
  rst.write(true); rdy.write(false); urdy.write(false); sk_begin(); sk_step(); sk_step(); rst.write(false); sk_step();
  if (DC_PRE) { std::vector<Step> w0; w0.swap(want); int p0 = npass; std::deque<Mop> pre; for (int k = 0; k < 2; k++) pre.push_back(mop(k + 1, false)); want.swap(w0); npass = p0; int n = sx_pick("work", 6, 1, DC_PRE);
    for (int t = 0; t < n; t++) { rdy.write(!pre.empty()); if (!pre.empty()) md.write(pre.front()); urdy.write(true); sc_start(0.5, SC_NS); if (!pre.empty() && ren.read()) pre.pop_front(); sc_start(0.5, SC_NS); }
    rdy.write(false); rst.write(true); urdy.write(false); sk_step(); sk_step(); rst.write(false); }
  unsigned n = 0; int sent = 0, off = 0, pass = -1; bool sel = false, psel = false; std::vector<int> seen(256, 0); int left = 0;
  for (int t = 0; t < DC_TIME; t++) {
    bool ok = !(t >= s0 && t < s0 + sl) && t >= DC_HOLD; urdy.write(ok); bool on = !prog.empty() && t >= (sent ? gap : 0); rdy.write(on); if (on) md.write(prog.front());
    sc_start(0.5, SC_NS); off = ok ? 0 : off + 1;
    if (on && ren.read()) { prog.pop_front(); sent++; } else if (!on && ren.read()) sx_fail("a decoder takes a macro-operation only when one is offered");
    if (uwen.read()) { sx_check(off < 3, "a decoder stops when the receiver is full"); if (n >= want.size()) { sx_fail("no micro-operation comes out that no macro-operation asks for"); return; }
      Step &s = want[n++]; Uop g = ud.read(), &w = s.u; sx_check(g.first_uop == w.first_uop && g.last_uop == w.last_uop, "the first and the last micro-operation of a macro-operation are marked"); 
#if DC_KIND == 0
      sx_check(g.vrf_en == w.vrf_en && (!w.vrf_en || (g.vrf_addr == w.vrf_addr && g.vrf_rd_id == w.vrf_rd_id)), "a micro-operation reads the vector word its macro-operation says"); sx_check(g.mrf_addr == w.mrf_addr, "a micro-operation reads the matrix word its macro-operation says"); sx_check(g.tag == w.tag, "a micro-operation carries the tag"); sx_check(g.accum_size == w.accum_size && g.accum_op == w.accum_op, "a micro-operation accumulates as its place in the row says");
      if (s.pass != pass) { if (pass >= 0) psel = sel; sel = g.reg_sel; if (pass >= 0) sx_check(sel != psel, "two passes in a row use different register banks"); pass = s.pass; } else sx_check(g.reg_sel == sel, "a pass uses one register bank");
#elif DC_KIND == 1
      sx_check(g.vrf_addr == w.vrf_addr && g.src_sel == w.src_sel && g.tag == w.tag, "a micro-operation has the source, address and tag its macro-operation says");
#elif DC_KIND == 2
      sx_check(g.vrf0_addr == w.vrf0_addr && g.vrf1_addr == w.vrf1_addr && g.tag == w.tag, "a micro-operation has the addresses and tag its macro-operation says"); sx_check(g.activation_op == w.activation_op && g.add_op == w.add_op && g.mult_op == w.mult_op, "a micro-operation does what its macro-operation says");
#else
      if (!s.tagup) { sx_check(g.vrf0_id == w.vrf0_id && g.vrf1_id == w.vrf1_id && g.block1_id == w.block1_id && g.vrf0_addr == w.vrf0_addr && g.vrf1_addr == w.vrf1_addr, "a micro-operation has the targets its macro-operation says"); sx_check(g.src_sel == w.src_sel && g.output_result == w.output_result && !g.last && !g.interrupt, "a micro-operation does what its macro-operation says"); }
      else { sx_check(g.src_sel == LD_TAG_UPDATE && g.last && !g.output_result && g.interrupt == w.interrupt, "the end of a macro-operation updates tags and asks for its interrupt"); int b = g.vrf0_id == 1 && g.vrf1_id == 0 && g.block1_id == 0 ? 0 : g.vrf0_id == 0 && g.vrf1_id != 0 ? (int)g.block1_id.to_uint() : 255; sx_check(b < NUM_PIPELINE_BLOCKS - 1 && !(left >> b & 1), "the end of a macro-operation updates the tag of every block once"); left = w.last_uop ? 0 : left | 1 << b; }
#endif
      sx_reach("uop"); }
    sc_start(0.5, SC_NS);
  }
  sx_check(prog.empty(), "a decoder takes every macro-operation"); sx_check(n == want.size(), "every micro-operation a macro-operation asks for comes out"); sx_reach("end");
}
#elif DC_KIND == 4
template <class V> static bool eqv(V &a, V &b) { bool r = a.size() == b.size(); for (unsigned i = 0; r && i < a.size(); i++) r = r & (a[i] == b[i]); return r; }
extern "C" void harness() { int k = sx_pick("kind", 2, 0, 3);
#define RT(T, B, SET, EQ) { T m; SET; T c(m), e, x; e = m; sc_bv<B> v = m.convert_to_bv(); sc_bv<B> u = v; x.load_from_bv(u); { T &y = x; sx_check(EQ, "a macro-operation read back from its bits is the one that was written"); } { T &y = c; sx_check(EQ, "a copy of a macro-operation is the same"); } { T &y = e; sx_check(EQ, "an assigned macro-operation is the same"); } sx_check(m == x, "equal macro-operations compare as equal"); sx_reach("trip"); }
  if (k == 0) RT(mvu_mop, MVU_MOP_BITWIDTH, bases(m.vrf_base, "vb", true, 0); m.vrf_size = IN("vs", NSIZEW); m.mrf_base = IN("mb", MRF_ADDRW); m.mrf_size = IN("ms", NSIZEW); m.words_per_row = IN("wr", NSIZEW); m.tag = IN("tag", TAGW); m.op = IN("op", 1), eqv(m.vrf_base, y.vrf_base) & (m.vrf_size == y.vrf_size) & (m.mrf_base == y.mrf_base) & (m.mrf_size == y.mrf_size) & (m.words_per_row == y.words_per_row) & (m.tag == y.tag) & (m.op == y.op))
  if (k == 1) RT(evrf_mop, EVRF_MOP_BITWIDTH, bases(m.vrf_base, "vb", true, 0); m.vrf_size = IN("vs", NSIZEW); m.src_sel = IN("src", 1); m.tag = IN("tag", TAGW); m.op = IN("op", 1); m.batch = IN("b", 2), eqv(m.vrf_base, y.vrf_base) & (m.vrf_size == y.vrf_size) & (m.src_sel == y.src_sel) & (m.tag == y.tag) & (m.op == y.op) & (m.batch == y.batch))
  if (k == 2) RT(mfu_mop, MFU_MOP_BITWIDTH, bases(m.add_vrf_base, "ab", true, 0); bases(m.mul_vrf_base, "mb", true, 0); m.vrf_size = IN("vs", NSIZEW); m.tag = IN("tag", TAGW); m.op = IN("op", 7); m.batch = IN("b", 2), eqv(m.add_vrf_base, y.add_vrf_base) & eqv(m.mul_vrf_base, y.mul_vrf_base) & (m.vrf_size == y.vrf_size) & (m.tag == y.tag) & (m.op == y.op) & (m.batch == y.batch))
  if (k == 3) RT(ld_mop, LD_MOP_BITWIDTH, bases(m.vrf0_base, "v0", true, 0); bases(m.vrf1_base, "v1", true, 0); m.vrf0_id = IN("i0", VRF_WB_SELW); m.block1_id = IN("b1", BLOCK_WB_SELW); m.vrf1_id = IN("i1", VRF_WB_SELW); m.vrf_size = IN("vs", NSIZEW); m.src_sel = IN("src", 2); m.op = IN("op", 1); m.batch = IN("b", 2); m.interrupt = IN("int", 1); m.output_result = IN("res", 1), eqv(m.vrf0_base, y.vrf0_base) & eqv(m.vrf1_base, y.vrf1_base) & (m.vrf0_id == y.vrf0_id) & (m.block1_id == y.block1_id) & (m.vrf1_id == y.vrf1_id) & (m.vrf_size == y.vrf_size) & (m.src_sel == y.src_sel) & (m.op == y.op) & (m.batch == y.batch) & (m.interrupt == y.interrupt) & (m.output_result == y.output_result))
  sx_reach("end"); }
#else
template <class T> struct Snk { sc_signal<bool> rdy, ren; sc_signal<T> d; std::vector<T> got; void drive(bool on) { ren.write(on && rdy.read()); } void take() { if (rdy.read() && ren.read()) got.push_back(d.read()); } };
extern "C" void harness() {
  sim_log.SetLogSettings(0, "sim.log"); sc_clock &clk = simkit_clock(); sc_signal<bool> rst("rst"), start("start"), wen("wen"); sc_signal<unsigned> spc("spc"), epc("epc"), wa("wa"); sc_signal<vliw_inst> wd("wd");
  vliw_inst_dispatch d("d"); d.clk(clk); d.rst(rst); d.start(start); d.start_pc(spc); d.end_pc(epc); d.inst_wdata(wd); d.inst_waddr(wa); d.inst_wen(wen);
  Snk<mvu_mop> a[SECTORS]; Snk<evrf_mop> b[SECTORS]; Snk<mfu_mop> m0[SECTORS], m1[SECTORS]; Snk<ld_mop> l;
#define CON(s, p, i) d.p##_mop_rdy i (s.rdy); d.p##_mop_ren i (s.ren); d.p##_mop_rdata i (s.d);
  for (int s = 0; s < SECTORS; s++) { CON(a[s], sector, [s][0]) CON(b[s], evrf, [s][0]) CON(m0[s], mfu0, [s][0]) CON(m1[s], mfu1, [s][0]) } CON(l, ld, [0])
#define ALL(X) for (int s = 0; s < SECTORS; s++) { a[s].X; b[s].X; m0[s].X; m1[s].X; } l.X;
  std::vector<vliw_inst> prog(DC_N); for (int k = 0; k < DC_N; k++) { bool sym = k < DC_SYM; vliw_inst &v = prog[k]; int o = sym ? sx_pick("ops", 3, 0, 7) : (k * 5 + 7) & 7; v.mvu_inst.op = o & 1; v.evrf_inst.op = o >> 1 & 1; v.mfu0_inst.op = o & 1 ? 64 : 0; v.mfu1_inst.op = o >> 2 & 1 ? 64 + k % 64 : 0; v.ld_inst.op = o >> 2 & 1;
    v.mvu_inst.tag = sym ? IN("t", TAGW) : k; v.evrf_inst.tag = sym ? IN("t", TAGW) : k + 1; v.mfu0_inst.tag = sym ? IN("t", TAGW) : k + 2; v.mfu1_inst.tag = sym ? IN("t", TAGW) : k + 3; v.ld_inst.vrf_size = sym ? IN("t", NSIZEW) : k + 4; }
  int lo = DC_MAX ? sx_pick("from", 2, 0, DC_MAX) : 0, hi = DC_MAX ? sx_pick("to", 2, lo, DC_N - 1) : DC_N - 1, slow = DC_STALL ? sx_pick("slow", 3, 0, DC_STALL) : 0, gap = DC_GAP ? sx_pick("gap", 3, 0, DC_GAP) : 0;
  rst.write(true); start.write(false); wen.write(false); ALL(drive(false)) sk_begin(); sk_step(); sk_step(); rst.write(false); sk_step();
  for (int k = 0; k < DC_N; k++) { wen.write(true); wa.write(k); wd.write(prog[k]); sk_step(); } wen.write(false);
  if (DC_PRE) { spc.write(0); epc.write(DC_N - 1); start.write(true); sk_step(); start.write(false); int n = sx_pick("work", 4, 0, DC_PRE); for (int t = 0; t < n; t++) { ALL(drive(t & 1)) sc_start(1, SC_NS); } ALL(drive(false)) rst.write(true); sk_step(); sk_step(); rst.write(false); }
  for (int run = 0; run < DC_RUNS; run++) { if (run) { int x = lo; lo = run & 1 ? 0 : x; hi = DC_N - 1; }
    ALL(got.clear()) spc.write(lo); epc.write(hi); for (int t = 0; t < gap; t++) sk_step(); start.write(true); sc_start(1, SC_NS); start.write(false);
    for (int t = 0; t < DC_TIME; t++) { bool on = t >= DC_HOLD; for (int s = 0; s < SECTORS; s++) { a[s].drive(on && (t % (slow + 1) == 0)); b[s].drive(on); m0[s].drive(on && t >= slow); m1[s].drive(on); } l.drive(on && (t & 1 || !slow)); sc_start(0.5, SC_NS); ALL(take()) sc_start(0.5, SC_NS); }
#define SAME(s, f, F, on) { unsigned n = 0; for (int k = lo; k <= hi; k++) if (on) { if (n >= s.got.size()) { sx_fail("every operation of a program reaches its unit"); return; } auto g = s.got[n++]; sx_check((g.F == prog[k].f.F) & (g.op == prog[k].f.op), "a unit gets the operations of a program, in order"); } sx_check(n == s.got.size(), "a unit gets no operation that the program does not have"); }
    for (int s = 0; s < SECTORS; s++) { SAME(a[s], mvu_inst, tag, prog[k].mvu_inst.op) SAME(b[s], evrf_inst, tag, prog[k].evrf_inst.op) SAME(m0[s], mfu0_inst, tag, prog[k].mfu0_inst.op != 0) SAME(m1[s], mfu1_inst, tag, prog[k].mfu1_inst.op != 0) } SAME(l, ld_inst, vrf_size, prog[k].ld_inst.op)
    sx_reach("run"); }
  sx_reach("end"); }
#endif
