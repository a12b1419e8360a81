// common pieces for DRAMsim3 harnesses: configuration from an ini file, an independent model of JEDEC legality
#pragma once
#include <vector>
#include <string>
#include <map>
#include <algorithm>
#include "sx.h"
#include "configuration.h"
#include "timing.h"
#include "channel_state.h"
#include "bankstate.h"
using namespace dramsim3;
typedef CommandType CT;
struct Ev { CT t; int r, g, b, row; uint64_t at; };
// minimum distance the DRAM standard asks for between a and a later b (0: none), in terms of the configured parameters
static int need(const Config &c, const Ev &a, const Ev &b) {
  auto rd = [](CT t) { return t == CT::READ || t == CT::READ_PRECHARGE; }; auto wr = [](CT t) { return t == CT::WRITE || t == CT::WRITE_PRECHARGE; };
  auto rankc = [](CT t) { return t == CT::REFRESH || t == CT::SREF_ENTER || t == CT::SREF_EXIT; };
  bool sr = a.r == b.r, nb = !rankc(a.t) && !rankc(b.t), sg = nb && a.g == b.g, sb = nb && sg && a.b == b.b;
  bool one = c.bankgroups == 1; int BC = c.burst_cycle, rdd = c.RL + BC, wrd = c.WL + BC;
  int ccd = std::max(BC, sg && !one ? c.tCCD_L : c.tCCD_S), wtr = sg && !one ? c.tWTR_L : c.tWTR_S, rrd = sg && !one ? c.tRRD_L : c.tRRD_S;
  int r2p = c.AL + c.tRTP, w2p = c.WL + BC + c.tWR; bool hg = c.IsGDDR() || c.IsHBM();
  if (!sr) { // the data bus is shared by the ranks of a channel
    if (rd(a.t) && rd(b.t)) return BC + c.tRTRS;
    if (rd(a.t) && wr(b.t)) return rdd + BC + c.tRTRS - wrd;
    if (wr(a.t) && wr(b.t)) return BC;
    if (wr(a.t) && rd(b.t)) return wrd + BC + c.tRTRS - rdd;
    return 0;
  }
  if (a.t == CT::SREF_ENTER) return b.t == CT::SREF_EXIT ? c.tCKESR : 0;
  if (a.t == CT::SREF_EXIT) return b.t == CT::ACTIVATE || b.t == CT::REFRESH || b.t == CT::REFRESH_BANK || b.t == CT::SREF_ENTER ? c.tXS : 0;
  if (a.t == CT::REFRESH) return b.t == CT::ACTIVATE || b.t == CT::REFRESH || b.t == CT::SREF_ENTER ? c.tRFC : 0;
  // a is a bank command; a later rank-level command addresses every bank of the rank
  if (rankc(b.t)) {
    if (b.t == CT::SREF_EXIT) return 0;
    if (a.t == CT::PRECHARGE) return c.tRP;
    if (a.t == CT::READ_PRECHARGE) return r2p + c.tRP;
    if (a.t == CT::WRITE_PRECHARGE) return w2p + c.tRP;
    if (a.t == CT::REFRESH_BANK) return c.tRFCb;
    return 0;
  }
  if ((rd(a.t) || wr(a.t)) && (rd(b.t) || wr(b.t))) {
    if (rd(a.t) && rd(b.t)) return ccd;
    if (wr(a.t) && wr(b.t)) return ccd;
    if (rd(a.t)) return c.RL + BC - c.WL + c.tRTRS;
    return wrd + wtr;
  }
  if (a.t == CT::ACTIVATE && b.t == CT::ACTIVATE) return sb ? c.tRC : rrd;
  if (!sb) { if (a.t == CT::REFRESH_BANK && b.t == CT::ACTIVATE) return 0; if (a.t == CT::PRECHARGE && b.t == CT::PRECHARGE && (c.IsGDDR() || c.protocol == DRAMProtocol::LPDDR4)) return c.tPPD; return 0; }
  switch (a.t) {
  case CT::ACTIVATE: if (rd(b.t)) return hg ? c.tRCDRD : c.tRCD - c.AL; if (wr(b.t)) return hg ? c.tRCDWR : c.tRCD - c.AL; if (b.t == CT::PRECHARGE) return c.tRAS; return 0;
  case CT::READ: return b.t == CT::PRECHARGE ? r2p : 0;
  case CT::WRITE: return b.t == CT::PRECHARGE ? w2p : 0;
  case CT::READ_PRECHARGE: return b.t == CT::ACTIVATE || b.t == CT::REFRESH_BANK ? r2p + c.tRP : 0;
  case CT::WRITE_PRECHARGE: return b.t == CT::ACTIVATE || b.t == CT::REFRESH_BANK ? w2p + c.tRP : 0;
  case CT::PRECHARGE: return b.t == CT::ACTIVATE || b.t == CT::REFRESH_BANK ? c.tRP : 0;
  case CT::REFRESH_BANK: return b.t == CT::ACTIVATE || b.t == CT::REFRESH_BANK ? c.tRFCb : 0;
  default: return 0;
  }
}
// a shadow of the device: bank states and the history of issued commands
struct Dev {
  const Config &c; std::vector<Ev> h; struct B { bool open = false; int row = -1; }; std::map<int, B> banks; std::map<int, bool> sref;
  Dev(const Config &c) : c(c) {}
  int key(int r, int g, int b) { return (r * 64 + g) * 64 + b; }
  void issue(CT t, int r, int g, int b, int row, uint64_t at) {
    Ev e{t, r, g, b, row, at}; bool rk = t == CT::REFRESH || t == CT::SREF_ENTER || t == CT::SREF_EXIT;
    sx_check(r >= 0 && r < c.ranks && (rk || (g >= 0 && g < c.bankgroups && b >= 0 && b < c.banks_per_group)), "command addresses an existing bank");
    sx_check(t == CT::SREF_EXIT ? sref[r] : !sref[r], "no command but self-refresh exit goes to a rank in self refresh");
    if (rk) { if (t != CT::SREF_EXIT) for (int i = 0; i < c.bankgroups; i++) for (int j = 0; j < c.banks_per_group; j++) sx_check(!banks[key(r, i, j)].open, "refresh and self-refresh entry only with all banks of the rank precharged"); if (t != CT::REFRESH) sref[r] = t == CT::SREF_ENTER; }
    else {
      B &k = banks[key(r, g, b)];
      switch (t) {
      case CT::ACTIVATE: sx_check(!k.open, "activate only on a precharged bank"); k.open = true; k.row = row; break;
      case CT::PRECHARGE: sx_check(k.open, "precharge only on an open bank"); k.open = false; break;
      case CT::REFRESH_BANK: sx_check(!k.open, "bank refresh only on a precharged bank"); break;
      case CT::READ: case CT::WRITE: sx_check(k.open && k.row == row, "column access only to the row that is open"); break;
      default: sx_check(k.open && k.row == row, "column access only to the row that is open"); k.open = false;
      }
    }
    int acts = 0, act32 = 0;
    for (int i = (int)h.size() - 1; i >= 0; i--) {
      const Ev &a = h[i]; int n = need(c, a, e); 
      if (n) sx_check((int64_t)(at - a.at) >= n, label(a, e));
      if (t == CT::ACTIVATE && a.t == CT::ACTIVATE && a.r == r && ++acts == 4) sx_check((int64_t)(at - a.at) >= c.tFAW, "at most four activates per rank in the four-activate window");
      if (t == CT::ACTIVATE && a.t == CT::ACTIVATE && a.r == r && c.IsGDDR() && ++act32 == 32) sx_check((int64_t)(at - a.at) >= c.t32AW, "at most 32 activates per rank in the 32-activate window");
    }
    h.push_back(e);
  }
  static const char *label(const Ev &a, const Ev &b) {
    static const char *N[] = {"READ", "READP", "WRITE", "WRITEP", "ACT", "PRE", "REFB", "REF", "SREFE", "SREFX"}; static std::map<int, std::string> m;
    std::string &s = m[(int)a.t * 32 + (int)b.t * 2 + (a.r == b.r)]; if (s.empty()) s = std::string("minimum time from ") + N[(int)a.t] + " to " + N[(int)b.t] + (a.r == b.r ? "" : " in another rank"); return s.c_str();
  }
};
static Config *dk_config(const char *ini = "dram.ini") { return new Config(ini, ".", 0); }
