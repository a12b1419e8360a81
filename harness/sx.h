// Interface between a harness and the symbolic executor (symx), and, when SX_NATIVE
// is defined, the native replay of one counterexample against the real build.
#pragma once
#include <cstdint>
extern "C" {
uint64_t sx_in(const char *name, unsigned bits);
void sx_assume(bool c);
void sx_check(bool c, const char *label);
uint64_t sx_fork(uint64_t v);                 // one path per feasible value
uint64_t sx_ite(bool c, uint64_t a, uint64_t b);
int sx_may(bool c);                            // can c hold on this path? (adds no constraint)
void sx_edge(uint64_t a, uint64_t b);         // records a pair, collected over all paths
void sx_reach(const char *name);
void sx_fail(const char *label);
void sx_end();
int sx_symbolic();
int sx_is_sym(uint64_t v);
void sx_allow_exit(int on);
void sx_debug(const char *name, uint64_t v);
void sx_str(const char *s);
int sx_co_new(void (*fn)(void *), void *arg);
void sx_co_switch(int id);
void sx_co_reset(int id, void (*fn)(void *), void *arg);
int sx_co_cur();
int sx_co_done(int id);
}
#ifdef SX_NATIVE
extern "C" uint64_t sx_in_range(const char *name, unsigned bits, uint64_t lo, uint64_t hi); // random runs stay inside the range
#define sx_range sx_in_range
#else
static inline uint64_t sx_range(const char *name, unsigned bits, uint64_t lo, uint64_t hi) {
  uint64_t v = sx_in(name, bits); sx_assume(v >= lo && v <= hi); return v;
}
#endif
static inline uint64_t sx_pick(const char *name, unsigned bits, uint64_t lo, uint64_t hi) { return sx_fork(sx_range(name, bits, lo, hi)); }
