// a matrix-vector unit of an example design: a program, matrix rows, input and reduction vectors go in, result vectors come out
#include "axiskit.hpp"
#if MV_KIND == 2
#include <sysc_mvm.hpp>
#define DOT_PRODUCTS DPES
typedef sysc_mvm mvm;
#else
#include <mvm.hpp>
#endif
#if MV_KIND == 2
typedef sc_int<IPRECISION> El; typedef uint8_t Wd; static const int BW = IPRECISION; // results are cut to the low bits
#elif MV_KIND == 0
typedef sc_int<32> El; typedef uint32_t Wd; static const int BW = 32;
#else
typedef int16_t El; typedef uint16_t Wd; static const int BW = 16;
#endif
static const int L = LANES;
// ports are known by number: 0 none, 7 the collector, 10 + 4*layer + unit
unsigned int RADSimDesignContext::GetPortDestinationID(std::string &n) {
  if (n == "output_collector.data_collect") return 7; unsigned l, m; if (sscanf(n.c_str(), "layer%u_mvm%u.rx_interface", &l, &m) == 2 && l < 8 && m < 4) return 10 + 4 * l + m; return 0; }
struct Op { bool reduce, last, accum_en, release, jump = false; unsigned accum, raddr; int layer, unit; };
#if MV_KIND == 2
static mvm_inst inst(const Op &o) { mvm_inst i; i.reduce = o.reduce; i.last = o.last; i.accum_en = o.accum_en; i.release = o.release; i.accum_raddr = o.accum; i.rf_raddr = o.raddr; i.release_dest = o.layer ? 10 + 4 * (o.layer - 1) + o.unit : 7; i.release_op = o.layer - 1 != MV_LAYER; return i; }
#else
static mvm_inst inst(const Op &o) { mvm_inst i; i.en = true; i.jump = o.jump; i.reduce = o.reduce; i.last = o.last; i.accum_en = o.accum_en; i.release = o.release; i.accum = o.accum; i.raddr = o.raddr; i.dest_layer = o.layer; i.dest_mvm = o.unit; return i; }
#endif
typedef std::vector<Wd> Vec;
struct Res { Vec v; int layer, unit; };
static Wd elem(int addr, int row, int lane) { return MV_ZERO ? 0 : (Wd)((addr * 7 + row * 3 + lane * 5 + 1) % 11 - 4); } // what the initialisation files hold
static sc_bv<AXIS_MAX_DATAW> pack(const Vec &v) { sc_bv<AXIS_MAX_DATAW> b; for (int i = 0; i < L; i++) b.range(i * BW + BW - 1, i * BW) = (uint64_t)v[i]; return b; }
static sc_bv<AXIS_USERW> user(unsigned kind, unsigned row = 0, unsigned addr = 0) { sc_bv<AXIS_USERW> u; u = 0;
  if (MV_KIND == 2) { u.range(10, 9) = kind - 1; if (kind == 4) { u.range(8, 0) = addr; u.range(11 + row, 11 + row) = 1; } } else u.range(15, 0) = (kind << 13) | (row << 9) | addr; return u; }
static Vec vec(const char *n, int k) { Vec v(L); for (int i = 0; i < L; i++) v[i] = (Wd)(MV_ZERO ? 0 : (i * 3 + k * 5) % 9 - 4); static int ns; if (ns < MV_NSYM) { ns++; v[k % L] = (Wd)sx_in(n, MV_BITS); } return v; }
struct Beat { sc_bv<AXIS_MAX_DATAW> d; sc_bv<AXIS_USERW> u; int kind; };
extern "C" void harness() {
  sim_log.SetLogSettings(0, "sim.log"); radsim_config.ResizeAll(1); std::string key = "radsim_user_design_root_dir", dir = "design"; radsim_config.AddStringKnobPerRad(key, dir, 0);
  radsim_config.AddDoubleKnobShared("sim_driver_period", 1.0); sc_clock &clk = simkit_clock(); sc_signal<bool> rst("rst"); RADSimDesignContext *ctx = new RADSimDesignContext(MV_RAD);
  if (MV_RAD) { radsim_config.ResizeAll(MV_RAD + 1); radsim_config.AddStringKnobPerRad(key, dir, MV_RAD); }
#if MV_KIND == 2
  mvm u("mvm_inst", 0, MV_LAYER, ctx);
#else
  mvm u("mvm_inst", 0, MV_LAYER, "", ctx);
#endif
  u.clk(clk); u.rst(rst);
#if MV_KIND != 1
  axis_signal rx, tx; ax_bind(u.rx_interface, rx); ax_bind(u.tx_interface, tx); axis_signal *in[2] = {&rx, nullptr}, *out[2] = {&tx, nullptr};
#else
  axis_signal rx, tx, rr, tr; ax_bind(u.rx_input_interface, rx); ax_bind(u.tx_input_interface, tx); ax_bind(u.rx_reduce_interface, rr); ax_bind(u.tx_reduce_interface, tr); axis_signal *in[2] = {&rx, &rr}, *out[2] = {&tx, &tr};
#endif
  for (int p = 0; p < 2; p++) { if (in[p]) in[p]->tvalid.write(false); if (out[p]) out[p]->tready.write(false); }
  rst.write(true); sk_begin(); sk_step(); sk_step(); rst.write(false); sk_step();
  // the program: MV_NI operations, then back to the start
  std::vector<Op> prog; std::set<unsigned> written;
  for (int k = 0; k < MV_NI; k++) { Op i; bool sym = MV_SYMI >> k & 1; i.reduce = sym && MV_REDUCE ? sx_pick("reduce", 1, 0, 1) : (k + MV_REDUCE) & MV_REDUCE; i.last = MV_EACH || k + 1 == MV_NI || (sym ? sx_pick("last", 1, 0, 1) : 0);
    i.accum = sym ? sx_pick("accum", 1, 0, 1) : 1; i.accum_en = written.count(i.accum) ? (sym ? sx_pick("accum_en", 1, 0, 1) : 1) : 0; written.insert(i.accum); i.release = MV_EACH || k + 1 == MV_NI || (sym ? sx_pick("release", 1, 0, 1) : 0);
    i.raddr = sym ? sx_pick("raddr", 1, 0, 1) : k & 1; i.layer = sym ? sx_pick("layer", 2, 0, 2) : MV_DEST; i.unit = i.layer ? (sym ? sx_pick("unit", 1, 0, 1) : 1) : 0; prog.push_back(i); }
  if (MV_KIND != 2) { Op j{}; j.jump = true; prog.push_back(j); }
  std::vector<Vec> m[2]; for (int a = 0; a < 2; a++) for (int r = 0; r < DOT_PRODUCTS; r++) { Vec v(L); for (int l = 0; l < L; l++) v[l] = elem(a, r, l); m[a].push_back(v); }
  std::deque<Beat> send[2]; for (unsigned k = 0; k < prog.size(); k++) send[0].push_back({inst(prog[k]).to_bv(), user(1, 0, k), 1});
  if (MV_KIND == 2) for (int a = 0; a < 2; a++) for (int r = 0; r < DOT_PRODUCTS; r++) send[0].push_back({pack(m[a][r]), user(4, r, a), 4});
  if (MV_LOAD) for (int n = 0; n < MV_LOAD; n++) { int row = n ? (n * 5) % 16 : (int)sx_pick("row", 4, 0, 1) * 15, a = n & 1; Vec v = vec("weight", n); m[a][row] = v; send[0].push_back({pack(v), user(4, row, a), 4}); }
  int nv = 0, uses = 0; std::vector<Vec> xs, rs; { for (int k = 0; k < MV_NX; k++) xs.push_back(vec("x", k)); for (auto &i : prog) if (i.reduce) nv++; nv *= MV_NX; for (int k = 0; k < nv; k++) rs.push_back(vec("r", k + 3)); } (void)uses;
  int rp = MV_KIND == 1; bool first = MV_RFIRST; // reduction vectors before or after the inputs
  for (int k = 0; k < 2; k++) if ((k == 0) == first) for (auto &v : rs) send[rp].push_back({pack(v), user(2), 2}); else for (auto &v : xs) send[0].push_back({pack(v), user(3), 3});
  if (MV_LATE) { for (int k = 0; k < (int)prog.size(); k++) { send[0].push_back(send[0].front()); send[0].pop_front(); } } // the program comes last
  // what comes out: the program interpreted over the queues
  std::vector<Res> want; { std::map<unsigned, Vec> acc; unsigned x = 0, r = 0, pc = 0; while (x < xs.size()) { if (pc == prog.size()) pc = 0; Op &i = prog[pc]; if (i.jump) { pc = i.raddr; continue; } if (i.reduce && r >= rs.size()) break;
      Vec o(L); for (int d = 0; d < L; d++) { Wd s = 0; for (int l = 0; l < L; l++) s = (Wd)(s + (Wd)(xs[x][l] * m[i.raddr][d][l])); s = (Wd)(s + (i.reduce ? rs[r][d] : 0)); if (i.accum_en) s = (Wd)(s + acc[i.accum][d]); o[d] = s; }
      acc[i.accum] = o; if (i.release) want.push_back({o, i.layer, i.unit}); if (i.reduce) r++; if (i.last) x++; pc++; } }
  unsigned got = 0; int stall = MV_STALL ? sx_pick("stall", 4, 0, MV_STALL) : 0, nst = 0, gap = MV_GAP ? sx_pick("gap", 4, 0, MV_GAP) : 0, waited = 0;
  for (int t = 0; t < MV_TIME; t++) {
    for (int p = 0; p < 2; p++) if (in[p]) { bool v = !send[p].empty(); if (v && send[p].front().kind > 1 && waited < gap) { waited++; v = false; } in[p]->tvalid.write(v); if (v) { in[p]->tdata.write(send[p].front().d); in[p]->tuser.write(send[p].front().u); } }
    bool rdy[2] = {true, true}; for (int p = 0; p < 2; p++) if (out[p]) { rdy[p] = t >= MV_HOLD && !(nst < stall && out[p]->tvalid.read() && sx_in("ready", 1) == 0); if (!rdy[p]) nst++; out[p]->tready.write(rdy[p]); }
    sc_start(0.5, SC_NS); // settled before the edge
    for (int p = 0; p < 2; p++) if (in[p] && in[p]->tvalid.read() && in[p]->tready.read() && !send[p].empty()) send[p].pop_front();
    for (int p = 0; p < 2; p++) if (out[p] && out[p]->tvalid.read() && out[p]->tready.read()) {
      if (got >= want.size()) { sx_fail("no vector comes out that the program did not produce"); return; }
      Res &w = want[got++]; sc_bv<AXIS_MAX_DATAW> d = out[p]->tdata.read(); for (int l = 0; l < L; l++) sx_check((Wd)d.range(l * BW + BW - 1, l * BW).to_uint64() == w.v[l], "a result is the product with the matrix plus reduction and accumulation");
      unsigned id = w.layer == 0 ? 7 : 10 + 4 * (w.layer - 1) + w.unit; sc_bv<AXIS_DESTW> dst = out[p]->tdest.read();
      sx_check(DEST_LOCAL_NODE(dst).to_uint64() == id && DEST_RAD(dst).to_uint64() == MV_RAD, "a result goes where its instruction says"); unsigned kind = MV_KIND == 2 ? (unsigned)out[p]->tuser.read().range(10, 9).to_uint64() + 1 : (unsigned)out[p]->tuser.read().range(15, 13).to_uint64(), wk = w.layer - 1 == MV_LAYER ? 2 : 3;
      sx_check(kind == wk && (MV_KIND != 1 || p == (wk == 2)), "a result for its own layer is a reduction vector, any other an input vector"); sx_reach("out"); if (got == want.size()) sx_reach("all"); }
    sc_start(0.5, SC_NS);
  }
  sx_check(send[0].empty() && send[1].empty(), "everything offered is taken"); sx_check(got == want.size(), "every released result comes out");
  sx_reach("end");
}
