// any sequence of LEN commands the channel reports ready, at any times, with any timing parameters
#include "dramkit.hpp"
#ifndef LEN
#define LEN 3
#endif
static int P(const char *n, int lo, int hi) { int w = 1; while ((1 << w) <= hi) w++; return (int)sx_range(n, w, lo, hi); }
extern "C" void harness() {
  Config &c = *dk_config();
#ifdef SYMP // all timing parameters symbolic, related as data sheets relate them
#define S(f, lo, hi) c.f = P(#f, lo, hi)
  S(burst_cycle, 1, 8); S(AL, 0, 3); S(CL, 5, 15); S(CWL, 4, 15); c.RL = c.AL + c.CL; c.WL = c.AL + c.CWL; c.read_delay = c.RL + c.burst_cycle; c.write_delay = c.WL + c.burst_cycle;
  S(tCCD_L, 1, 10); S(tCCD_S, 1, 10); S(tRTRS, 0, 3); S(tRTP, 1, 12); S(tWTR_L, 1, 12); S(tWTR_S, 1, 12); S(tWR, 1, 24); S(tRP, 1, 24); S(tRRD_L, 1, 10); S(tRRD_S, 1, 10);
  S(tRAS, 1, 60); S(tRCD, 5, 24); S(tRFC, 1, 100); c.tRC = c.tRAS + c.tRP; S(tCKESR, 1, 20); S(tXS, 1, 100); S(tRFCb, 1, 100); S(tREFI, 1, 500); S(tREFIb, 1, 200); S(tFAW, 1, 60); S(tPPD, 0, 4); S(tRCDRD, 5, 24); S(tRCDWR, 5, 24);
  sx_assume(c.tRFCb <= c.tRFC && c.tRFC <= c.tREFI && c.tCCD_S <= c.tCCD_L && c.tRRD_S <= c.tRRD_L && c.tWTR_S <= c.tWTR_L && c.tWTR_L <= c.tWR && c.tCCD_L <= c.tRP && c.CL - c.CWL + c.tRTRS <= c.tRTP + c.tRP && c.tRRD_L <= c.tRAS);
#endif
  Timing tm(c); ChannelState cs(c, tm); Dev dev(c);
  uint64_t clk = 0;
  for (int i = 0; i < LEN; i++) {
    uint64_t base = clk;
#ifdef SEQ
    static const int seq[] = {SEQ}; static const int bks[] = {BKS}; int t = seq[i % (sizeof seq / sizeof *seq)], bk = bks[i % (sizeof bks / sizeof *bks)]; bool timed = i >= FROM; // earlier commands go as early as they are ready
#else
#ifdef PRE2 // two open banks first, as early as possible
    int t = i < 2 ? (int)CT::ACTIVATE : sx_pick("cmd", 8, 0, 5); int bk = i == 0 ? 0 : sx_pick("bank", 8, i == 1, 3); bool timed = i >= 2;
#else
    int t = sx_pick("cmd", 8, 0, 9); int bk = (i == 0 ? 0 : sx_pick("bank", 8, 0, 3));
    bool timed = true;
#endif
#endif
#ifndef REFB
    if (t == (int)CT::REFRESH_BANK) sx_end();
#endif
#ifdef SEQ
    int nb = c.banks_per_group, ng = c.bankgroups, b = bk % nb, g = bk / nb % ng, r = bk / nb / ng;
#else
    int r = bk == 3 && c.ranks > 1, g = bk == 2 && c.bankgroups > 1, b = bk == 1; 
    if ((bk == 3 && c.ranks == 1) || (bk == 2 && c.bankgroups == 1)) sx_end();
#endif
    bool rk = t >= (int)CT::REFRESH; 
    Address ad(-1, r, rk ? -1 : g, rk ? -1 : b, rk ? -1 : 7, rk ? -1 : 0);
    Command cmd((CT)t, ad, 0), got;
    bool sref = cs.IsRankSelfRefreshing(r); 
    for (int w = 1; w <= 500; w++) {
      clk = base + (timed ? sx_range("dt", 9, 1, 500) : w);
      // the requests a controller makes of a bank: ACT and PRE come back as the prerequisite of a column access or a refresh
      if (t == (int)CT::ACTIVATE) { if (sref || cs.IsRowOpen(r, g, b)) sx_end(); got = cs.GetReadyCommand(Command(CT::READ, ad, 0), clk); }
      else if (t == (int)CT::PRECHARGE) { if (sref || !cs.IsRowOpen(r, g, b)) sx_end(); Address o = ad; o.row = 9; got = cs.GetReadyCommand(Command(CT::WRITE, o, 0), clk); got.addr = ad; }
      else if (t == (int)CT::SREF_EXIT) { if (!sref) sx_end(); got = cs.GetReadyCommand(Command(CT::READ, Address(-1, r, 0, 0, 7, 0), 0), clk); got.addr = ad; }
      else { if (sref) sx_end(); got = cs.GetReadyCommand(cmd, clk); }
      if (timed || got.IsValid()) break;
    }
    if (!got.IsValid()) sx_end();
    if (got.cmd_type != (CT)t) sx_end();
    dev.issue(got.cmd_type, got.Rank(), rk ? -1 : got.Bankgroup(), rk ? -1 : got.Bank(), 7, clk);
    cs.UpdateTimingAndStates(got, clk);
    for (int j = 0; j < c.ranks; j++) { sx_check(cs.IsRankSelfRefreshing(j) == dev.sref[j], "self-refresh state follows the issued commands"); for (int k = 0; k < c.bankgroups; k++) for (int l = 0; l < c.banks_per_group; l++) sx_check(cs.IsRowOpen(j, k, l) == dev.banks[dev.key(j, k, l)].open, "bank state follows the issued commands"); }
    if (i == LEN - 1) sx_reach("end");
  }
}
