// common pieces for harnesses over SystemC code
#pragma once
#include <deque>
#include <map>
#include <set>
#include <vector>
#include <string>
#include <algorithm>
#include <systemc.h>
#include <radsim_config.hpp>
#include <radsim_telemetry.hpp>
#include "sx.h"
#ifndef SIMKIT_NO_GLOBALS
RADSimConfig radsim_config;
std::ostream *gWatchOut = &std::cout;
SimLog sim_log;
SimTraceRecording sim_trace_probe;
#endif
// clock "clk": rising edges at 1,2,3.. ns when started with simkit_begin(); step() runs one edge and settles
static sc_clock *sk_clk;
static inline sc_clock &simkit_clock() { if (!sk_clk) sk_clk = new sc_clock("clk", 1, SC_NS); return *sk_clk; }
static inline void sk_begin() { sc_start(0.25, SC_NS); }  // past the edge at time 0
static inline void sk_step() { sc_start(1, SC_NS); }
template <class T> static inline T sk_sym(const char *n, int bits) { return (T)sx_in(n, bits); }
template <int W> static inline sc_bv<W> sk_bv(const char *n) { sc_bv<W> v; for (int i = 0; i < W; i += 64) { int h = i + 63 < W ? i + 63 : W - 1; v.range(h, i) = (uint64_t)sx_in(n, h - i + 1); } return v; }
