// MemorySystem driven through its API: TXN transactions, symbolic kinds, addresses and arrival gaps
#include "dramkit.hpp"
#include "memory_system.h"
#include "simple_stats.h"
#include <functional>
#ifndef TXN
#define TXN 3
#endif
#ifndef GAP
#define GAP 2
#endif
#ifndef BANKS
#define BANKS 3
#endif
#ifndef BOUND
#define BOUND 150
#endif
#ifndef TAIL
#define TAIL 0
#endif
// statistics are not the subject here
namespace dramsim3 { SimpleStats::SimpleStats(const Config &c, int id) : config_(c), channel_id_(id) { for (const char *n : {"sref_cycles", "all_bank_idle_cycles", "rank_active_cycles"}) epoch_vec_counters_[n].resize(c.ranks); }
void SimpleStats::AddValue(const std::string, const int) {} double SimpleStats::RankBackgroundEnergy(const int) const { return 0; } void SimpleStats::PrintEpochStats() {} void SimpleStats::PrintFinalStats() {} void SimpleStats::Reset() {} 
HMCMemorySystem::HMCMemorySystem(Config &c, const std::string &o, std::function<void(uint64_t)> r, std::function<void(uint64_t)> w) : BaseDRAMSystem(c, o, r, w) {} HMCMemorySystem::~HMCMemorySystem() {} bool HMCMemorySystem::WillAcceptTransaction(uint64_t, bool) const { return false; } bool HMCMemorySystem::AddTransaction(uint64_t, bool) { return false; } void HMCMemorySystem::ClockTick() {} }
static Config *cfg; static Dev *dev; static std::vector<Dev> *devs; static uint64_t now; struct Cmd { CT t; uint64_t addr, at; int ch; bool used; }; static std::vector<Cmd> cmds; static std::map<const void *, int> chan; static int refs; static std::vector<Ev> reflog; static std::map<int, uint64_t> srefin; struct Sr { int r; uint64_t in, out; }; static std::vector<Sr> srefs;
struct Tx { uint64_t addr; bool wr; uint64_t at; bool done; uint64_t done_at; bool fwd; }; static std::vector<Tx> txs;
static Address oracle(const Config &c, uint64_t a) { // the layout the configured mapping string asks for
  auto lg = [](int x) { int r = 0; while ((1 << r) < x) r++; return r; }; Address o; a >>= lg(c.bus_width / 8 * c.BL);
  for (int i = 10; i >= 0; i -= 2) { std::string f = c.address_mapping.substr(i, 2); int w = f == "ch" ? lg(c.channels) : f == "ra" ? lg(c.ranks) : f == "bg" ? lg(c.bankgroups) : f == "ba" ? lg(c.banks_per_group) : f == "ro" ? lg(c.rows) : lg(c.columns) - lg(c.BL); int v = a & ((1ull << w) - 1); a >>= w;
    (f == "ch" ? o.channel : f == "ra" ? o.rank : f == "bg" ? o.bankgroup : f == "ba" ? o.bank : f == "ro" ? o.row : o.column) = v; }
  return o;
}
void real_update(ChannelState *, const Command &, uint64_t) asm("_ZN8dramsim312ChannelState26real_UpdateTimingAndStatesERKNS_7CommandEm");
void ChannelState::UpdateTimingAndStates(const Command &cmd, uint64_t clk) {
  int ch = chan.count(this) ? chan[this] : (int)chan.size(); chan[this] = ch; while ((int)devs->size() <= ch) devs->push_back(Dev(config_));
  bool rk = cmd.IsRankCMD(); int row = cmd.Row();
  sx_check(clk == now, "commands are issued at the memory's current cycle");
  (*devs)[ch].issue(cmd.cmd_type, cmd.Rank(), rk ? -1 : cmd.Bankgroup(), rk ? -1 : cmd.Bank(), row, clk);
  if (cmd.IsReadWrite()) { Address o = oracle(config_, cmd.hex_addr); sx_check((o.rank == cmd.Rank()) & (o.bankgroup == cmd.Bankgroup()) & (o.bank == cmd.Bank()) & (o.row == cmd.Row()) & (o.column == cmd.Column()), "a transaction's column command goes to the location its address maps to");
    bool match = false; for (auto &t : txs) match |= (t.addr == cmd.hex_addr) & (t.wr == cmd.IsWrite()); sx_check(match, "every column command belongs to an accepted transaction"); cmds.push_back({cmd.cmd_type, cmd.hex_addr, clk, ch, false}); sx_reach(cmd.IsRead() ? "read_cmd" : "write_cmd"); }
  if (cmd.IsRefresh()) { reflog.push_back({cmd.cmd_type, cmd.Rank(), cmd.Bankgroup(), cmd.Bank(), 0, clk}); sx_reach("refresh"); }
  if (cmd.cmd_type == CT::SREF_ENTER) { sx_reach("sref"); srefin[cmd.Rank()] = clk; } if (cmd.cmd_type == CT::SREF_EXIT) { sx_reach("srefx"); srefs.push_back({cmd.Rank(), srefin[cmd.Rank()], clk}); srefin.erase(cmd.Rank()); }
  real_update(this, cmd, clk);
}
static bool eq(uint64_t a, uint64_t b) { return sx_fork(a == b); }
static bool fwd(unsigned i) { for (unsigned j = 0; j < i; j++) if (txs[j].wr && eq(txs[j].addr, txs[i].addr)) { bool drained = false; for (auto &c : cmds) drained |= (c.t == CT::WRITE || c.t == CT::WRITE_PRECHARGE) && c.at >= txs[j].at && c.at < txs[i].at && eq(c.addr, txs[j].addr); if (!drained) return true; } return false; }
static bool cover(unsigned i) { for (auto &c : cmds) if ((c.t == CT::READ || c.t == CT::READ_PRECHARGE) && c.at >= txs[i].at && now >= c.at + cfg->RL + cfg->burst_cycle && eq(c.addr, txs[i].addr)) return true; return false; }
static void done(uint64_t addr, bool wr) {
  // a read completes when a column read of its address has finished since it was accepted, or from an earlier write still buffered
  int open = -1;
  for (unsigned i = 0; i < txs.size(); i++) { Tx &t = txs[i]; if (t.done || t.wr != wr || !eq(t.addr, addr)) continue; open = i; if (wr) { t.done = true; t.done_at = now; return; } bool f = fwd(i); if (f || cover(i)) { t.done = true; t.done_at = now; if (f) sx_reach("forwarded"); return; } }
  if (open < 0) sx_fail(wr ? "a write completion for no outstanding write" : "a read completion for no outstanding read");
  sx_fail("a read completes only with data: a finished column read or a buffered write of its address");
}
static uint64_t mkaddr() {
  // rank/bankgroup/bank by case, row and column symbolic
  auto lg = [](int x) { int r = 0; while ((1 << r) < x) r++; return r; }; uint64_t a = 0; int pos = lg(cfg->bus_width / 8 * cfg->BL); static bool first = true; int bk = first && !TAIL ? 0 : sx_pick("bank", 4, 0, BANKS - 1); first = false;
  static const int R[] = {0, 0, 1, 0, 0}, G[] = {0, 0, 0, 1, 0}, B[] = {0, 1, 0, 0, 0}, C[] = {0, 0, 0, 0, 1};
  for (int i = 10; i >= 0; i -= 2) { std::string f = cfg->address_mapping.substr(i, 2); int w; uint64_t v;
    if (f == "ch") { w = lg(cfg->channels); v = C[bk] % cfg->channels; } else if (f == "ra") { w = lg(cfg->ranks); v = R[bk] % cfg->ranks; } else if (f == "bg") { w = lg(cfg->bankgroups); v = G[bk] % cfg->bankgroups; } else if (f == "ba") { w = lg(cfg->banks_per_group); v = B[bk] % cfg->banks_per_group; } else if (f == "ro") { w = lg(cfg->rows); v = sx_in("row", w); } else { w = lg(cfg->columns) - lg(cfg->BL); v = sx_in("col", w); }
    a |= v << pos; pos += w; }
  return a;
}
extern "C" void harness() {
  devs = new std::vector<Dev>(); devs->reserve(4);
  MemorySystem m("dram.ini", ".", [](uint64_t a) { done(a, false); }, [](uint64_t a) { done(a, true); }, 0); cfg = m.config_;
#ifdef REFT
  cfg->tREFI = REFT; cfg->tREFIb = REFT;
#endif
  now = 0; auto tick = [&]() { m.ClockTick(); now++; }; int issued = 0;
#ifdef IDLE
  for (int i = 0; i < IDLE; i++) tick();
#endif
#ifdef WBURST // a burst of writes first, so that the write buffer drains
  for (int i = 0; i < WBURST; i++) { uint64_t a = 0; { auto lg = [](int x) { int r = 0; while ((1 << r) < x) r++; return r; }; a = (uint64_t)i << (lg(cfg->bus_width / 8 * cfg->BL)); } if (!m.WillAcceptTransaction(a, true)) { i--; tick(); if (now > 400) { sx_fail("the write buffer accepts new writes again within the bound"); } continue; } txs.push_back({a, true, now, false, 0, false}); sx_check(m.AddTransaction(a, true), "an acceptable transaction is accepted"); if (i % 2) tick(); }
#endif
#ifdef MIX // reads and writes of few addresses offered as fast as the memory takes them
  { auto lg = [](int x) { int r = 0; while ((1 << r) < x) r++; return r; }; int n[2] = {0, 0}; uint64_t next[2]; bool have[2] = {false, false}; uint64_t last = now;
    for (;;) { bool left = false; for (int w = 0; w < 2; w++) { if (!have[w] && n[w] < MIX) { next[w] = (uint64_t)(n[w] < MIXSYM ? sx_pick(w ? "waddr" : "raddr", 4, 0, MIXA - 1) : n[w] % MIXA) << lg(cfg->bus_width / 8 * cfg->BL); have[w] = true; n[w]++; } if (!have[w]) continue; left = true; if (now % (w ? MIXWP : MIXRP)) continue;
        if (m.WillAcceptTransaction(next[w], w)) { txs.push_back({next[w], (bool)w, now, false, 0, false}); sx_check(m.AddTransaction(next[w], w), "an acceptable transaction is accepted"); have[w] = false; last = now; } }
      if (!left) break; if (now - last > 300) { sx_fail("the memory accepts a new transaction within the bound"); break; } tick(); } }
#endif
  for (int k = 0; k < TXN; k++) {
    uint64_t a = mkaddr(); bool w = sx_fork(sx_in("write", 1)); int gap = k ? sx_pick("gap", 4, 0, GAP) * GSTEP : 0;
    for (int i = 0; i < gap; i++) tick();
    for (int w8 = 0; !m.WillAcceptTransaction(a, w); w8++) { if (w8 > BOUND) { sx_fail("the memory accepts a new transaction within the bound"); } tick(); }
    txs.push_back({a, w, now, false, 0, false}); sx_check(m.AddTransaction(a, w), "an acceptable transaction is accepted"); issued++;
  }
  uint64_t end = now + BOUND; auto all = [&]() { for (auto &t : txs) if (!t.done) return false; return true; };
  while (now < end && !all()) tick();
  sx_check(all(), "every accepted transaction completes within the bound");
  for (int i = 0; i < TAIL; i++) {
#ifdef BUSY // keep one rank busy with a read every BUSY cycles
    if (i % BUSY == 0 && i + 30 < TAIL) { uint64_t a = 0; auto lg = [](int x) { int r = 0; while ((1 << r) < x) r++; return r; }; int pos = lg(cfg->bus_width / 8 * cfg->BL); for (int f = 10; f >= 0; f -= 2) { std::string n = cfg->address_mapping.substr(f, 2); if (n == "ra") a |= (uint64_t)BUSYRANK << pos; if (n == "co") a |= (uint64_t)(i / BUSY % 4) << pos; pos += n == "ch" ? lg(cfg->channels) : n == "ra" ? lg(cfg->ranks) : n == "bg" ? lg(cfg->bankgroups) : n == "ba" ? lg(cfg->banks_per_group) : n == "ro" ? lg(cfg->rows) : lg(cfg->columns) - lg(cfg->BL); }
      if (m.WillAcceptTransaction(a, false)) { txs.push_back({a, false, now, false, 0, false}); m.AddTransaction(a, false); } }
#endif
    tick(); }
  for (int i = 0; i < 30; i++) tick(); // nothing completes twice
  for (unsigned i = 0; i < txs.size(); i++) {
    sx_check(txs[i].done_at > txs[i].at, "no transaction completes before it was accepted");
  }
  // same address: the device sees a read before a write that was accepted after it, and never the other way round
  for (unsigned i = 0; i < txs.size(); i++) for (unsigned j = i + 1; j < txs.size(); j++) if (!txs[i].wr && txs[j].wr) {
    // an earlier write of the same address may legitimately absorb both
    bool prior = false; for (unsigned k = 0; k < j; k++) if (txs[k].wr) prior |= txs[k].addr == txs[j].addr;
    for (auto &w : cmds) if (w.t == CT::WRITE || w.t == CT::WRITE_PRECHARGE) { bool before = false; for (auto &r : cmds) before |= (r.addr == txs[i].addr) & (r.t == CT::READ || r.t == CT::READ_PRECHARGE) & (r.at >= txs[i].at) & (r.at <= w.at); sx_check((txs[i].addr != txs[j].addr) | (w.addr != txs[j].addr) | prior | before, "a write is not performed before an earlier read of the same address"); }
  }
  // ... and a read that finds an earlier write of its address still buffered never fetches the old data from the device
  for (unsigned j = 0; j < txs.size(); j++) for (unsigned i = j + 1; i < txs.size(); i++) if (txs[j].wr && !txs[i].wr) {
    bool other = false; for (unsigned k = 0; k < i; k++) if (!txs[k].wr) other |= txs[k].addr == txs[i].addr;
    for (auto &r : cmds) if (r.t == CT::READ || r.t == CT::READ_PRECHARGE) { bool before = false; for (auto &w : cmds) before |= (w.addr == txs[j].addr) & (w.t == CT::WRITE || w.t == CT::WRITE_PRECHARGE) & (w.at >= txs[j].at) & (w.at <= r.at); sx_check((txs[i].addr != txs[j].addr) | (r.addr != txs[i].addr) | (r.at < txs[i].at) | other | before, "a read does not overtake an earlier write of the same address"); }
  }
  { int nw = 0, aw = 0, nr = 0, ar = 0; for (auto &c : cmds) (c.t == CT::READ || c.t == CT::READ_PRECHARGE ? nr : nw)++; for (auto &t : txs) (t.wr ? aw : ar)++; sx_check(nw <= aw, "no more column writes than accepted writes"); sx_check(nr <= ar, "no more column reads than accepted reads"); }
#ifdef REFCHK // every rank (bank) is refreshed once per interval, postponed at most SLACK cycles
  { bool perbank = cfg->refresh_policy == RefreshPolicy::BANK_LEVEL_STAGGERED; uint64_t iv = perbank ? (uint64_t)cfg->tREFIb * cfg->banks * cfg->ranks : cfg->tREFI;
    for (int r = 0; r < cfg->ranks; r++) for (int g = 0; g < (perbank ? cfg->bankgroups : 1); g++) for (int b = 0; b < (perbank ? cfg->banks_per_group : 1); b++) {
      auto in = [&](uint64_t t) { for (auto &x : srefs) if (x.r == r && x.in <= t && t < x.out) return true; return srefin.count(r) && srefin[r] <= t; }; // time in self refresh does not count
      auto span = [&](uint64_t x, uint64_t y) { uint64_t n = 0, mx = 0; for (uint64_t t = x; t < y; t++) { n = in(t) ? 0 : n + 1; mx = n > mx ? n : mx; } return mx; };
      uint64_t last = 0, n = 0; for (auto &e : reflog) if (e.r == r && (!perbank || (e.g == g && e.b == b))) { sx_check(span(last, e.at) <= iv + REFCHK, perbank ? "every bank is refreshed once per its refresh interval" : "every rank is refreshed once per refresh interval"); last = e.at; n++; }
      sx_check(span(last, now) <= iv + REFCHK, perbank ? "every bank is refreshed once per its refresh interval" : "every rank is refreshed once per refresh interval"); sx_check(n <= now / iv + 1, "no more refreshes than the interval asks for"); } }
#endif
  sx_reach("end");
}
