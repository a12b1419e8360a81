// a matrix-vector sector of the npu design behind its decoder: macro-operations, vectors and matrix words go in, products come out
#include "simkit.hpp"
#include <decoders.hpp>
#include <mvu_sector.hpp>
#include "se_units.inc"
typedef tb_output_precision W; typedef tb_input_precision B8; template <class T> using Vec = data_vector<T>;
static const int C = (DPE_NUM_TBS - 1) * TB_NUM_DOTS;
static int nsym[2]; static int elem(const char *n, int k) { int &ns = nsym[*n == 'm']; if (ns < SE_NSYM && k % 3 == 1) { ns++; return (int8_t)sx_in(n, LOW_PRECISION); } return (k * 37 + 11) % 255 - 127; }
template <class T> struct Src { std::deque<Vec<T>> q; sc_signal<bool> rdy, ren; sc_signal<Vec<T>> d; unsigned taken = 0; bool on = false;
  void drive(bool o) { on = o && !q.empty(); rdy.write(on); if (on) d.write(q.front()); }
  void take() { if (!ren.read()) return; if (!on) { sx_fail("a sector takes a word only when one is offered"); return; } q.pop_front(); taken++; } };
template <class T> struct Snk { std::vector<Vec<T>> got; sc_signal<bool> rdy, ren; sc_signal<Vec<T>> d; void drive(bool o) { ren.write(o && rdy.read()); } void take() { if (rdy.read() && ren.read()) got.push_back(d.read()); } };
struct Sig { sc_signal<bool> rdy, ren, urdy, uwen; sc_signal<mvu_mop> md; sc_signal<mvu_uop> ud; };
extern "C" void harness() {
  sim_log.SetLogSettings(0, "sim.log"); sc_clock &clk = simkit_clock(); sc_signal<bool> rst("rst"); radsim_config.ResizeAll(1);
  int id = SE_ID; std::string dir = "."; radsim_config.AddStringKnobPerRad("radsim_user_design_root_dir", dir, 0);
  RADSimDesignContext *ctx = (RADSimDesignContext *)calloc(1, sizeof(RADSimDesignContext)); ctx->rad_id = 0;
  mvu_sector u("u", id, ctx); u.clk(clk); u.rst(rst); sc_signal<sc_uint<MRF_ADDRW>> mwa("mwa"); sc_signal<Vec<B8>> mwd("mwd"); sc_signal<sc_uint<MRFIDW>> mwi("mwi"); u.mrf_waddr(mwa); u.mrf_wdata(mwd); u.mrf_wid(mwi);
  static Sig g[THREADS]; static Src<B8> wb[THREADS][CORES]; static Snk<B8> ch[THREADS][CORES]; static Snk<W> out[THREADS][CORES]; sector_and_accum_decoder *dec[THREADS];
  for (int h = 0; h < THREADS; h++) { Sig &s = g[h]; dec[h] = new sector_and_accum_decoder(h ? "d1" : "d0"); dec[h]->clk(clk); dec[h]->rst(rst); dec[h]->mop_rdy(s.rdy); dec[h]->mop_ren(s.ren); dec[h]->mop_rdata(s.md); dec[h]->uop_rdy(s.urdy); dec[h]->uop_wen(s.uwen); dec[h]->uop_wdata(s.ud); u.inst[h](s.ud); u.inst_fifo_wen[h](s.uwen); u.inst_fifo_rdy[h](s.urdy);
    for (int c = 0; c < CORES; c++) { u.wb_fifo_rdy[h][c](wb[h][c].rdy); u.wb_fifo_ren[h][c](wb[h][c].ren); u.wb_fifo_rdata[h][c](wb[h][c].d); u.sector_chain_ofifo_rdy[h][c](ch[h][c].rdy); u.sector_chain_ofifo_ren[h][c](ch[h][c].ren); u.sector_chain_ofifo_rdata[h][c](ch[h][c].d); u.sector_ofifo_rdy[h][c](out[h][c].rdy); u.sector_ofifo_ren[h][c](out[h][c].ren); u.sector_ofifo_rdata[h][c](out[h][c].d); } }
#define ALLH(...) for (int h = 0; h < THREADS; h++) for (int c = 0; c < CORES; c++) { __VA_ARGS__; }
  // the program of every thread; its vectors arrive as write-back words, the last one of each operation is marked
  static const int R[] = {C, C + 1, 2 * C, 3 * C - 1}; struct Op { int r, v, mb, vb[TB_NUM_DOTS]; }; std::vector<Op> ops[THREADS]; std::deque<mvu_mop> prog[THREADS]; std::map<std::vector<int>, std::vector<int>> V, M; int top = 0, nv[THREADS] = {0}; std::vector<std::vector<int>> sent[THREADS][CORES];
  for (int h = 0; h < THREADS; h++) for (int k = 0; k < SE_N; k++) { bool sym = k < SE_SYM && !h; Op o; o.r = R[sym ? sx_pick("rows", 2, 0, SE_ROWS) : (k + h) % 4]; o.v = sym ? sx_pick("cols", 2, 1, SE_COLS) : (k + h) % 2 + 1; o.mb = 2 + k * 5 + h; if (o.mb + o.r * o.v > top) top = o.mb + o.r * o.v;
    mvu_mop m; m.op = 1; m.vrf_size = o.v; m.words_per_row = o.r; m.mrf_size = o.r * o.v; m.mrf_base = o.mb; m.tag = k + 1; for (int b = 0; b < TB_NUM_DOTS; b++) { o.vb[b] = (k * 8 + b * 2 + (k & 1 ? VRF_DEPTH - 16 : 3)) % (VRF_DEPTH - 3); m.vrf_base[b] = o.vb[b]; }
    for (int x = 0; x < o.v; x++) for (int b = 0; b < TB_NUM_DOTS; b++) for (int t = 0; t < TILES; t++) { bool last = x == o.v - 1 && b == TB_NUM_DOTS - 1 && t == TILES - 1; int a = o.vb[b] + x;
      for (int c = 0; c < CORES; c++) { std::vector<int> w; for (int l = 0; l < LANES; l++) w.push_back(elem("v", l + x * 5 + b * 7 + t * 11 + c * 3 + k + h * 2)); V[{h, c, t, a}] = w; std::vector<int> s{t, a & 255, a >> 8, last}; s.insert(s.end(), w.begin(), w.end()); sent[h][c].push_back(s); std::vector<B8> d(s.size()); for (unsigned i = 0; i < s.size(); i++) d[i] = s[i]; wb[h][c].q.push_back(Vec<B8>(d)); } }
    ops[h].push_back(o); prog[h].push_back(m); }
  for (int k = 0; k < SE_EXTRA; k++) ALLH(std::vector<int> s{0, VRF_DEPTH - 20 & 255, VRF_DEPTH - 20 >> 8, 0}; for (int l = 0; l < LANES; l++) s.push_back(k % 100 - l); sent[h][c].push_back(s); std::vector<B8> d(s.size()); for (unsigned i = 0; i < s.size(); i++) d[i] = s[i]; wb[h][c].q.push_back(Vec<B8>(d))) // words no operation uses
  int late = SE_PREW ? SE_LATE : SE_LATE ? sx_pick("late", 6, 0, SE_LATE) : 0, s0 = SE_STALL ? sx_pick("stallat", 6, 20, 20 + SE_STALL) : 9999, gap = SE_GAP ? sx_pick("gap", 4, 0, SE_GAP) : 0, pre = SE_PRE ? sx_pick("work", 6, 0, SE_PREN) : 0;
  rst.write(true); mwi.write((1 << MRFIDW) - 1); ALLH(g[h].rdy.write(false); wb[h][c].drive(false); out[h][c].drive(false); ch[h][c].drive(false)) sk_begin(); sk_step(); sk_step(); rst.write(false); sk_step();
  for (int t = 0; t < TILES; t++) for (int d = 0; d < DPES_PER_SECTOR; d++) for (int a = top; a >= 2; a--) { std::vector<int> w; std::vector<B8> e(LANES); for (int l = 0; l < LANES; l++) { w.push_back(elem("m", l + a * 3 + t * 5 + d * 7)); e[l] = w[l]; } M[{t, d, a}] = w; mwi.write(t * DPES_PER_SECTOR * SECTORS + id * DPES_PER_SECTOR + d); mwa.write(a); mwd.write(Vec<B8>(e)); sk_step(); } mwi.write((1 << MRFIDW) - 1); sk_step();
  if (SE_PRE) { // a sector that was at work is reset: nothing of that is left
    mvu_mop m; m.op = 1; m.vrf_size = 1; m.words_per_row = m.mrf_size = C; m.mrf_base = 2; m.tag = 0; bool gone = false;
    for (int t = 0; t < SE_PRE + pre; t++) { g[0].rdy.write(!gone); g[0].md.write(m); bool w = SE_PREW && (t == 2 || t == 3); std::vector<B8> d(LANES + 4); d[1] = 77; d[3] = t == 2; for (int c = 0; c < CORES; c++) { wb[0][c].rdy.write(w); wb[0][c].d.write(Vec<B8>(d)); } sc_start(0.5, SC_NS); if (!gone && g[0].ren.read()) gone = true; sc_start(0.5, SC_NS); }
    for (int c = 0; c < CORES; c++) wb[0][c].rdy.write(false);
    g[0].rdy.write(false); rst.write(true); sk_step(); sk_step(); rst.write(false); sk_step(); }
  for (int t = 0; t < SE_TIME; t++) {
    for (int h = 0; h < THREADS; h++) { bool on = !prog[h].empty() && t >= gap * (1 - h); g[h].rdy.write(on); if (on) g[h].md.write(prog[h].front()); }
    bool ok = t >= SE_HOLD && !(t >= s0 && t < s0 + 3); ALLH(wb[h][c].drive(t >= late); out[h][c].drive(ok || (SE_ONE && c)); ch[h][c].drive(t >= SE_HOLD / 2))
    sc_start(0.5, SC_NS);
    for (int h = 0; h < THREADS; h++) if (!prog[h].empty() && g[h].rdy.read() && g[h].ren.read()) prog[h].pop_front();
    ALLH(wb[h][c].take(); out[h][c].take(); ch[h][c].take())
    sc_start(0.5, SC_NS); }
  ALLH(sx_check(wb[h][c].q.empty(), "every write-back word is taken"))
  ALLH(if (id == SECTORS - 1) { sx_check(ch[h][c].got.empty(), "the last sector passes no word on"); continue; } if (ch[h][c].got.size() != sent[h][c].size()) { sx_fail("every write-back word is passed to the next sector once"); return; } for (unsigned i = 0; i < sent[h][c].size(); i++) { Vec<B8> w = ch[h][c].got[i]; bool same = w.size() == sent[h][c][i].size(); for (unsigned e = 0; same && e < w.size(); e++) same = same & ((int)w[e] == (int)(int8_t)sent[h][c][i][e]); sx_check(same, "a word passed to the next sector is unchanged"); })
  ALLH(unsigned n = 0; for (auto &o : ops[h]) for (int r = 0; r < o.r; r++) for (int b = 0; b < TB_NUM_DOTS; b++) { if (n >= out[h][c].got.size()) { sx_fail("every product comes out"); return; } Vec<W> w = out[h][c].got[n++]; sx_check(w.size() == DPES_PER_SECTOR, "a product has one element per engine");
      for (int d = 0; d < DPES_PER_SECTOR; d++) { int s = 0; for (int t = 0; t < TILES; t++) for (int x = 0; x < o.v; x++) { std::vector<int> &m = M[{t, d, o.mb + r * o.v + x}], &v = V[{h, c, t, o.vb[b] + x}]; for (int l = 0; l < LANES; l++) s += m[l] * v[l]; } sx_check((int)w[d] == s, "a product is the matrix row times the vector"); } sx_reach("out"); }
    sx_check(out[h][c].got.size() == n, "no product comes out that no operation asks for"))
  sx_reach("end");
}
