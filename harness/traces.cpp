// the simulation trace recorder: events land on their own trace, with the cycle they happened in, and are dumped so
#include "simkit.hpp"
#include <radsim_utils.hpp>
#include <fstream>
#include <sstream>
#include <cmath>
#include <unistd.h>
extern "C" void harness() {
  radsim_config.ResizeAll(1); radsim_config.AddDoubleKnobShared("sim_driver_period", PERIOD);
  double gap[EVENTS]; int tr[EVENTS]; for (int i = 0; i < EVENTS; i++) { gap[i] = sx_pick("gap", 4, 0, 3) * 0.75; tr[i] = sx_pick("trace", 4, 0, NT - 1); }
  std::string fn = "t" + std::to_string(getpid()) + ".trace"; SimTraceRecording rec; rec.SetTraceRecordingSettings(fn, NT); // paths run in parallel, each with its own file
  sc_clock clk("clk", 1, SC_NS); double now = 0; std::vector<unsigned> want[NT];
  for (int i = 0; i < EVENTS; i++) {
    if (gap[i] > 0) sc_start(gap[i], SC_NS); now += gap[i]; rec.record_event(tr[i]); int c = (int)std::ceil(now / PERIOD - 1e-9); want[tr[i]].push_back(c);
    sx_check(GetSimulationCycle() == c && GetSimulationCycle(PERIOD) == c, "the simulation cycle is the time over the driver period, rounded up"); }
  rec.dump_traces();
  std::ifstream f(fn); std::string l; int n = 0; bool ok = true;
  while (std::getline(f, l)) { if (n >= NT) { ok = false; break; } std::stringstream s(l); std::vector<unsigned> v; unsigned x; while (s >> x) v.push_back(x); ok &= v == want[n]; n++; }
  f.close(); unlink(fn.c_str()); sx_check(ok && n == NT, "each dumped trace holds exactly its own events' cycles, in order"); sx_reach("end");
}
