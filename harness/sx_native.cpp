// Native side of sx.h: replays one input assignment (file named by SX_REPLAY, lines
// "name occ value"; unnamed inputs are 0, or pseudo-random when SX_RANDOM is set).
#include "sx.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <string>
#include <vector>
#include <ucontext.h>
#include <unistd.h>
static std::map<std::pair<std::string, long>, uint64_t> vals; static std::map<std::string, long> occ; static bool loaded; static uint64_t rnd; static bool haveRnd, allowExit;
static void load() {
  loaded = true;
  if (const char *r = getenv("SX_RANDOM")) { haveRnd = true; rnd = strtoull(r, 0, 10) * 0x9E3779B97F4A7C15ull + 1; }
  if (const char *f = getenv("SX_REPLAY")) if (FILE *fp = fopen(f, "r")) { char n[512]; long o; unsigned long long v; while (fscanf(fp, "%511s %ld %llu", n, &o, &v) == 3) vals[{n, o}] = v; fclose(fp); }
}
static uint64_t nextRnd() { rnd ^= rnd << 13; rnd ^= rnd >> 7; rnd ^= rnd << 17; return rnd; }
static void fin(int c) { fflush(stdout); fflush(stderr); _exit(c); }
extern "C" {
void sx_assume(bool c);
uint64_t sx_in(const char *name, unsigned bits) {
  if (!loaded) load();
  long o = occ[name]++; auto it = vals.find({name, o}); uint64_t v = it != vals.end() ? it->second : haveRnd ? nextRnd() : 0;
  return bits >= 64 ? v : v & ((1ull << bits) - 1);
}
uint64_t sx_in_range(const char *name, unsigned bits, uint64_t lo, uint64_t hi) {
  if (!loaded) load();
  if (haveRnd && !vals.count({name, occ[name]})) { occ[name]++; return lo + nextRnd() % (hi - lo + 1); }
  uint64_t v = sx_in(name, bits); sx_assume(v >= lo && v <= hi); return v;
}
void sx_assume(bool c) { if (!c) { printf("REPLAY-ASSUME-FALSE\n"); fin(3); } }
void sx_check(bool c, const char *l) { if (!c) { printf("REPLAY-FAIL %s\n", l); fin(1); } }
uint64_t sx_fork(uint64_t v) { return v; }
uint64_t sx_ite(bool c, uint64_t a, uint64_t b) { return c ? a : b; }
int sx_may(bool c) { return c; }
void sx_edge(uint64_t, uint64_t) {}
void sx_reach(const char *n) { if (getenv("SX_VERBOSE")) printf("REACH %s\n", n); }
void sx_fail(const char *l) { sx_check(false, l); }
void sx_end() { printf("REPLAY-END\n"); fin(0); }
int sx_symbolic() { return 0; }
int sx_is_sym(uint64_t) { return 0; }
void sx_allow_exit(int on) { static bool reg; if (!reg) { reg = true; atexit([] { if (allowExit) { printf("REPLAY-END\n"); fflush(stdout); _exit(0); } }); } allowExit = on; }
void sx_debug(const char *n, uint64_t v) { if (getenv("SX_VERBOSE")) printf("DBG %s = %lld\n", n, (long long)v); }
void sx_str(const char *s) { if (getenv("SX_VERBOSE")) printf("STR %s\n", s); }
struct NCo { ucontext_t u; void (*fn)(void *); void *arg; bool done; char *stk; };
static std::vector<NCo *> cos; static int ncur = 0;
static void tramp() { NCo *c = cos[ncur]; c->fn(c->arg); c->done = true; ncur = 0; setcontext(&cos[0]->u); }
static void prep(NCo *c) { getcontext(&c->u); c->u.uc_stack.ss_sp = c->stk; c->u.uc_stack.ss_size = 1 << 20; c->u.uc_link = 0; makecontext(&c->u, tramp, 0); }
int sx_co_new(void (*fn)(void *), void *arg) { if (cos.empty()) cos.push_back(new NCo()); NCo *c = new NCo(); c->fn = fn; c->arg = arg; c->done = false; c->stk = (char *)malloc(1 << 20); prep(c); cos.push_back(c); return cos.size() - 1; }
void sx_co_switch(int id) { if (cos.empty()) return; if (cos[id]->done) return; int me = ncur; ncur = id; swapcontext(&cos[me]->u, &cos[id]->u); }
void sx_co_reset(int id, void (*fn)(void *), void *arg) { NCo *c = cos[id]; c->fn = fn; c->arg = arg; c->done = false; prep(c); }
int sx_co_cur() { return ncur; }
int sx_co_done(int id) { return cos[id]->done; }
void harness();
}
static int go() { harness(); printf("REPLAY-END\n"); fin(0); return 0; }
#ifdef SX_SYSTEMC
extern "C" int sc_main(int, char **) { return go(); }
#else
int main() { return go(); }
#endif
