// knob files, the knob store and the end of a simulation
#define AXISKIT_NO_CONTEXT
#include "axiskit.hpp"
#include <radsim_cluster.hpp>
#include <fstream>
#include <unistd.h>
static const char *PI[] = {"noc_num_nocs", "dram_num_controllers"}, *PS[] = {"design_name", "radsim_user_design_root_dir"}, *PIV[] = {"noc_payload_width", "noc_vcs", "noc_num_nodes", "noc_adapters_fifo_size", "noc_adapters_obuff_size", "dram_queue_sizes"},
  *PDV[] = {"noc_clk_period", "noc_adapters_clk_period", "design_clk_periods", "dram_clk_periods"}, *PSV[] = {"design_noc_placement", "noc_adapters_in_arbiter", "noc_adapters_out_arbiter", "noc_adapters_vc_mapping", "dram_config_files"}, *SI[] = {"telemetry_log_verbosity", "num_rads", "inter_rad_latency_cycles", "inter_rad_fifo_num_slots", "inter_rad_bw_accept_cycles", "inter_rad_bw_total_cycles"}, *SS[] = {"radsim_root_dir", "cluster_topology"};
#define EACH(a, i) for (unsigned i = 0; i < sizeof a / sizeof *a; i++)
static std::string S(int v) { return std::to_string(v); }
static int pv[4], pn[4]; // what a device's values are derived from, and the length of its lists
static int iv(int r, int k, int j) { return pv[r] + 10 * k + 100 * j + 1000 * r + 1; }
static std::string sv(int r, int k, int j) { return "v" + S(iv(r, k, j)); }
static double dv(int r, int k, int j) { return iv(r, k, j) + 0.25; }
#if CL_PART == 1 // the knob file: every device reads its own values, whatever the order of the lines
extern "C" void harness() {
  std::vector<std::string> l; radsim_config.ResizeAll(CL_RADS); int base = sx_pick("shared", 1, 0, 1);
  for (int r = 0; r < CL_RADS; r++) { pv[r] = sx_pick("value", 2, 0, CL_VALS - 1); pn[r] = sx_pick("length", 2, 1, CL_LEN); }
  for (int i = 0; i < CL_RADS; i++) { int r = CL_RADS - 1 - i; std::string R = " " + S(r); 
    EACH(PI, k) l.push_back(PI[k] + R + " " + S(iv(r, k, 0))); EACH(PS, k) l.push_back(PS[k] + R + " " + sv(r, k, 0));
    auto list = [&](const char *n, auto f) { std::string s = n + R; for (int j = 0; j < pn[r]; j++) s += " " + f(j); l.push_back(s + " "); };
    EACH(PIV, k) list(PIV[k], [&](int j) { return S(iv(r, k + 2, j)); }); EACH(PDV, k) list(PDV[k], [&](int j) { return S(iv(r, k + 8, j)) + ".25"; }); EACH(PSV, k) list(PSV[k], [&](int j) { return sv(r, k + 2, j); }); }
  EACH(SI, k) l.push_back(std::string(SI[k]) + " " + S(base + k)); EACH(SS, k) l.push_back(std::string(SS[k]) + " s" + S(base + k)); l.push_back("sim_driver_period " + S(base) + ".5"); l.push_back("cluster_configs a b "); int nt = sx_pick("traces", 1, 0, 1) * 2; { std::string t = "telemetry_traces "; for (int i = 0; i < nt; i++) t += "t" + S(i) + " "; l.push_back(t); }
  bool bad = CL_BAD && sx_pick("bad", 1, 0, 1); if (bad) l.push_back("noc_vcss 0 1 ");
  int first = sx_pick("first", 3, 0, 5) * l.size() / 6, step = sx_pick("step", 1, 0, 1) ? 1 : 7; if (l.size() % 7 == 0) step = 1;
  std::string f = "knobs" + S(getpid()); { std::ofstream o(f); for (unsigned i = 0; i < l.size(); i++) o << l[(first + i * step) % l.size()] << "\n"; }
  if (bad) sx_allow_exit(1); ParseRADSimKnobs(f); unlink(f.c_str()); sx_check(!bad, "a knob that does not exist is refused");
  auto &c = radsim_config;
  for (int r = 0; r < CL_RADS; r++) {
    EACH(PI, k) { sx_check(c.HasIntKnobPerRad(PI[k], r), "a device has each of its knobs"); sx_check(c.GetIntKnobPerRad(PI[k], r) == iv(r, k, 0), "a device reads its own integers"); } EACH(PS, k) { sx_check(c.HasStringKnobPerRad(PS[k], r), "a device has each of its knobs"); sx_check(c.GetStringKnobPerRad(PS[k], r) == sv(r, k, 0), "a device reads its own names"); }
    auto list = [&](unsigned n, auto at) { sx_check((int)n == pn[r], "a list keeps its length"); for (int j = 0; j < pn[r]; j++) sx_check(at(j), "a device reads its own lists"); };
    EACH(PIV, k) { sx_check(c.HasIntVectorKnobPerRad(PIV[k], r), "a device has each of its knobs"); list(c.GetIntVectorKnobPerRad(PIV[k], r).size(), [&](int j) { return c.GetIntVectorKnobPerRad(PIV[k], r)[j] == iv(r, k + 2, j) && c.GetIntVectorKnobPerRad(PIV[k], j, r) == iv(r, k + 2, j); }); }
    EACH(PDV, k) { sx_check(c.HasDoubleVectorKnobPerRad(PDV[k], r), "a device has each of its knobs"); list(c.GetDoubleVectorKnobPerRad(PDV[k], r).size(), [&](int j) { return c.GetDoubleVectorKnobPerRad(PDV[k], r)[j] == dv(r, k + 8, j) && c.GetDoubleVectorKnobPerRad(PDV[k], j, r) == dv(r, k + 8, j); }); }
    EACH(PSV, k) { sx_check(c.HasStringVectorKnobPerRad(PSV[k], r), "a device has each of its knobs"); list(c.GetStringVectorKnobPerRad(PSV[k], r).size(), [&](int j) { return c.GetStringVectorKnobPerRad(PSV[k], r)[j] == sv(r, k + 2, j) && c.GetStringVectorKnobPerRad(PSV[k], j, r) == sv(r, k + 2, j); }); }
  }
  EACH(SI, k) { sx_check(c.HasIntKnobShared(SI[k]), "the cluster has each of its knobs"); sx_check(c.GetIntKnobShared(SI[k]) == base + (int)k, "shared knobs keep their values"); } EACH(SS, k) sx_check(c.HasStringKnobShared(SS[k]) && c.GetStringKnobShared(SS[k]) == "s" + S(base + k), "shared knobs keep their values");
  sx_check(c.HasDoubleKnobShared("sim_driver_period") && c.GetDoubleKnobShared("sim_driver_period") == base + 0.5, "shared knobs keep their values"); auto &t = c.GetStringVectorKnobShared("telemetry_traces"); sx_check((int)t.size() == nt && c.GetIntKnobShared("telemetry_num_traces") == nt, "every trace is counted"); for (int i = 0; i < nt; i++) sx_check(t[i] == "t" + S(i), "traces keep their names");
  sx_reach("end"); sx_end();
}
#elif CL_PART == 2 // any sequence of writes to the store, then any question
extern "C" void harness() {
  auto &c = radsim_config; c.ResizeAll(CL_RADS); static const char *K[] = {"alpha", "alph", "beta"}; const int W = CL_RADS + 1; // device CL_RADS: the shared knobs
  struct V { bool set; int v, n; } m[3][CL_RADS + 1][3] = {}; // kind, device, key
  for (int s = 0; s < CL_OPS; s++) { int k = sx_pick("kind", 2, 0, 2), r = sx_pick("device", 2, 0, W - 1), q = sx_pick("key", 2, 0, 2); int v = (int)sx_in("value", 32); std::vector<int> l{v, v ^ 5}; std::string t = K[q] + S(s); m[k][r][q] = {true, k == 2 ? s : v, 2};
    if (r < CL_RADS) { if (k == 0) c.AddIntKnobPerRad(K[q], v, r); else if (k == 1) c.AddIntVectorKnobPerRad(K[q], l, r); else c.AddStringKnobPerRad(K[q], t, r); }
    else { if (k == 0) c.AddIntKnobShared(K[q], v); else if (k == 1) c.AddIntVectorKnobShared(K[q], l); else c.AddStringKnobShared(K[q], t); } }
  for (int r = 0; r < W; r++) for (int q = 0; q < 3; q++) { bool sh = r == CL_RADS; std::string n = K[q];
    sx_check((sh ? c.HasIntKnobShared(n) : c.HasIntKnobPerRad(n, r)) == m[0][r][q].set && (sh ? c.HasIntVectorKnobShared(n) : c.HasIntVectorKnobPerRad(n, r)) == m[1][r][q].set && (sh ? c.HasStringKnobShared(n) : c.HasStringKnobPerRad(n, r)) == m[2][r][q].set, "exactly the knobs that were set exist");
    if (m[0][r][q].set) sx_check((sh ? c.GetIntKnobShared(n) : c.GetIntKnobPerRad(n, r)) == m[0][r][q].v, "a knob has the value last given to it");
    if (m[1][r][q].set) { int j = CL_ASK ? 1 : sx_pick("index", 1, 0, 1); sx_check((sh ? c.GetIntVectorKnobShared(n, j) : c.GetIntVectorKnobPerRad(n, j, r)) == (m[1][r][q].v ^ (j ? 5 : 0)), "a knob has the value last given to it"); }
    if (m[2][r][q].set) sx_check((sh ? c.GetStringKnobShared(n) : c.GetStringKnobPerRad(n, r)) == n + S(m[2][r][q].v), "a knob has the value last given to it"); }
  if (!CL_ASK) { sx_reach("end"); sx_end(); }
  int r = sx_pick("ask", 2, 0, W - 1), q = sx_pick("akey", 2, 0, 2), k = sx_pick("akind", 2, 0, 2); bool sh = r == CL_RADS; if (m[k][r][q].set) { sx_reach("end"); sx_end(); }
  sx_allow_exit(1); sx_reach("missing"); if (k == 0) sh ? c.GetIntKnobShared(K[q]) : c.GetIntKnobPerRad(K[q], r); else if (k == 1) sh ? c.GetIntVectorKnobShared(K[q]) : c.GetIntVectorKnobPerRad(K[q], r); else sh ? c.GetStringKnobShared(K[q]) : c.GetStringKnobPerRad(K[q], r);
  sx_fail("asking for a knob that was never set ends the run");
}
#else // devices finish in any order: the simulation goes on until the last one is done, and the exit code tells a failure of the first
extern "C" void harness() {
  auto &c = radsim_config; c.ResizeAll(CL_RADS); std::vector<double> per[CL_RADS][3];
  for (int r = 0; r < CL_RADS; r++) { const char *n[] = {"noc_clk_period", "noc_adapters_clk_period", "design_clk_periods"}; for (int k = 0; k < 3; k++) { per[r][k] = {1.0 + r + 4 * k, 2.0 + r * 3 + k}; c.AddDoubleVectorKnobPerRad(n[k], per[r][k], r); } c.AddIntKnobPerRad("noc_num_nocs", 2, r); std::vector<int> nn{4 + r, 9 - r}; c.AddIntVectorKnobPerRad("noc_num_nodes", nn, r); }
  RADSimCluster *cl = new RADSimCluster(CL_RADS); sx_check((int)cl->all_rads.size() == CL_RADS, "the cluster has its devices");
  for (int r = 0; r < CL_RADS; r++) { auto *d = cl->all_rads[r]; sx_check((int)d->rad_id == r, "devices are numbered in order"); std::vector<sc_clock *> *k[] = {&d->_noc_clks, &d->_adapter_clks, &d->_module_clks}; for (int i = 0; i < 3; i++) { sx_check(k[i]->size() == 2, "a device has its clocks"); for (int j = 0; j < 2; j++) sx_check((*k[i])[j]->period().value() == sc_time(per[r][i][j], SC_NS).value(), "a device's clocks have its own periods"); } }
  bool done[CL_RADS] = {}, fail[CL_RADS] = {};
  for (int s = 0; s < CL_OPS; s++) { bool all = true; for (bool d : done) all &= d; sx_check(cl->AllRADsNotDone() == !all, "the simulation goes on exactly until every device is done"); if (all) sx_reach("done");
    for (int r = 0; r < CL_RADS; r++) { sx_check(cl->all_rads[r]->is_rad_done() == done[r], "a device is done once it said so"); sx_check((cl->all_rads[r]->GetSimExitCode() != 0) == fail[r], "the exit code tells whether the device reported a failure"); }
    uint64_t a = sx_fork(sx_range("act", 4, 0, 2 * CL_RADS - 1)); int r = a >> 1; if (a & 1) { cl->all_rads[r]->set_rad_done(); done[r] = true; } else { cl->all_rads[r]->ReportDesignFailure(); fail[r] = true; } }
  sx_reach("end"); sx_end();
}
#endif
