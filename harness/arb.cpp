// arbiters: every pattern of requests and priorities over some rounds
#include <string>
#include <vector>
#include "booksim.hpp"
#include "module.hpp"
#include "arbiter.hpp"
#include "prio_arb.hpp"
#include "booksim_config.hpp"
#include "sx.h"
#define STR_(x) #x
#define STR(x) std::string(STR_(x))
long ran_next() { return (long)sx_in("ran", 3); }
double ranf_next() { return sx_in("ranf", 4) / 16.0; }
void ran_start(long) {} void ranf_start(long) {}
extern "C" void harness() {
  const int N = AR_N; Module *root = new Module(0, "root");
#if AR_OLD
  BookSimConfig cfg; PriorityArbiter *a = new PriorityArbiter(cfg, root, "a", N);
#else
  Arbiter *a = Arbiter::NewArbiter(root, "a", STR(AR_TYPE), N); if (!a) { sx_fail("the arbiter exists"); return; }
#endif
  std::vector<int> wait(N, 0);
  for (int t = 0; t < AR_ROUNDS; t++) {
    a->Clear(); unsigned req = (unsigned)sx_pick("req", 8, 0, (1 << N) - 1); bool upd = AR_SKIP ? (bool)sx_pick("upd", 1, 0, 1) : true; int pri[N], id[N], rot = AR_ORDER ? (int)sx_pick("order", 3, 0, N - 1) : 0;
    for (int i = 0; i < N; i++) { pri[i] = AR_PRI ? (int)sx_range("pri", 4, 0, AR_PRI) : 0; id[i] = (int)sx_in("id", 8); }
    for (int k = 0; k < N; k++) { int i = (k + rot) % N; if (req >> i & 1) a->AddRequest(i, id[i], pri[i]); }
    int gi = -5, gp = -5;
#if AR_OLD
    a->Arbitrate(); int w = a->Match(); if (w >= 0 && w < N) { gi = id[w]; gp = pri[w]; }
#else
    int w = a->Arbitrate(&gi, &gp); sx_check(a->LastWinner() == w || !req, "the last winner is the one announced");
#endif
    w = (int)sx_fork(w);
    if (!req) { sx_check(w == -1, "nobody wins without requests"); sx_reach("idle"); continue; }
    if (w < 0 || w >= N) { sx_fail("someone wins when there are requests"); return; }
    sx_check(req >> w & 1, "only a requester wins"); sx_check(gi == id[w] && gp == pri[w], "the winner's own request is returned");
    for (int i = 0; i < N; i++) if (req >> i & 1) sx_check(pri[i] <= pri[w], "no request of higher priority is passed over");
    if (w != 0) sx_reach("other"); if ((req & (req - 1))) sx_reach("contended");
#if !AR_OLD
    if (upd) a->UpdateState();
#endif
    if (!AR_PRI) for (int i = 0; i < N; i++) { if (!(req >> i & 1) || i == w) wait[i] = 0; else if (upd && ++wait[i] >= AR_WAIT) sx_fail("a waiting requester is not passed over again and again"); }
  }
  sx_reach("end");
}
