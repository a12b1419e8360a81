// symx: symbolic executor for LLVM 18 bitcode. Paths fork with fork(2); every
// branch, assertion and memory access on symbolic data is decided by Z3.
#include "expr.h"
#include "solver.h"
#include <llvm/BinaryFormat/Dwarf.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/InstrTypes.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Demangle/Demangle.h>
#include <atomic>
#include <csetjmp>
#include <csignal>
#include <cstdarg>
#include <cxxabi.h>
#include <deque>
#include <dlfcn.h>
#include <fcntl.h>
#include <functional>
#include <iostream>
#include <map>
#include <semaphore.h>
#include <set>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
using namespace llvm;
typedef uint64_t u64;
typedef uint32_t u32;
typedef uint8_t u8;

// ------------------------------------------------------------ arena memory
static const u64 ARENA = 0x100000000000ull, ASIZE = 3ull << 30;
static u8 *FLAGS;   // 1 byte per byte: 0 invalid, 1 concrete, 3 symbolic, 8 freed
static u64 *SYM;    // expr id | byteidx<<32
static u64 CODE = 0x200000000000ull;
static inline bool inArena(u64 a) { return a - ARENA < ASIZE; }
static inline u8 &fl(u64 a) { return FLAGS[a - ARENA]; }
static inline u64 &sy(u64 a) { return SYM[a - ARENA]; }
static const u64 GLOB_END = ARENA + (256ull << 20);
static const u64 STK0 = GLOB_END, STK0_SZ = 128ull << 20;
static const u64 COSTK_SZ = 2ull << 20; static const int MAXCO = 320;
static const u64 COSTK = STK0 + STK0_SZ;
static const u64 HEAP = COSTK + COSTK_SZ * MAXCO;
static u64 globTop = ARENA + 64, heapTop = HEAP + 64;
static std::deque<u64> *freeLists; // by size class /16
static const unsigned NCLS = 4096;

extern "C" void *__libc_malloc(size_t);
extern "C" void __libc_free(void *);

static u64 heapAlloc(u64 n) {
  u64 sz = (n + 15) & ~15ull; if (!sz) sz = 16;
  u64 cls = sz / 16, a;
  if (cls < NCLS && freeLists[cls].size() > 32) {
    a = freeLists[cls].front(); freeLists[cls].pop_front();
  } else {
    a = heapTop + 16;
    heapTop = a + sz + 16;
    if (heapTop > ARENA + ASIZE) { fprintf(stderr, "symx: arena exhausted\n"); abort(); }
  }
  ((u64 *)a)[-2] = n; ((u64 *)a)[-1] = 0xA110CA7Eull; // header (flags stay 0)
  memset(&fl(a), 1, n);
  memset((void *)a, 0, n);
  return a;
}
static bool heapValid(u64 a) { return inArena(a) && a >= HEAP && ((u64 *)a)[-1] == 0xA110CA7Eull; }
static void heapFree(u64 a) {
  u64 n = ((u64 *)a)[-2];
  ((u64 *)a)[-1] = 0xDEADull;
  memset(&fl(a), 8, n);
  u64 sz = (n + 15) & ~15ull; if (!sz) sz = 16;
  if (sz / 16 < NCLS) freeLists[sz / 16].push_back(a);
}
// native code may free arena memory
void operator delete(void *p) noexcept { if (!p) return; if (inArena((u64)p)) { if (heapValid((u64)p)) heapFree((u64)p); return; } free(p); }
void operator delete[](void *p) noexcept { operator delete(p); }
void operator delete(void *p, size_t) noexcept { operator delete(p); }
void operator delete[](void *p, size_t) noexcept { operator delete(p); }

// ------------------------------------------------------------ shared state
struct Shared {
  sem_t slots;
  std::atomic<u64> paths, forks, queries, qsat, qunsat, qunk, solver_us, instrs, checks, checksSym, checksConst, violations, incomplete, timeouts, natsym, modelbad, maxpc, nsample;
  std::atomic<int> stop;
  struct { char name[64]; std::atomic<u64> n; } reach[256];
  std::atomic<int> nreach;
  struct { char name[160]; std::atomic<u64> n; } why[64];
  std::atomic<int> nwhy;
  u8 funcs[1 << 17];
  std::atomic<u8> edges[4096 * 4096 / 8]; std::atomic<u64> nedge;
};
static Shared *SH;
static std::string OUTDIR = ".";
static double T_LIMIT = 600; static u64 MAXPATHS = ~0ull; static int JOBS = 8; static int MAXVIOL = 1;
static bool VERB = false; static bool HALT_ON_FIRST = true;
static u64 MAXINS = ~0ull;
static struct timespec T0;
static double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return (t.tv_sec - T0.tv_sec) + (t.tv_nsec - T0.tv_nsec) * 1e-9; }

// ------------------------------------------------------------ code structures
struct Slot { u64 c; E e; u32 pad; };
enum IOp : uint16_t {
  I_NOP, I_BIN, I_ICMP, I_FCMP, I_FBIN, I_FNEG, I_ZEXT, I_SEXT, I_TRUNC, I_SELECT, I_MOV, I_LOAD, I_STORE, I_GEP,
  I_BR, I_CBR, I_SWITCH, I_RET, I_CALL, I_UNREACH, I_ALLOCA, I_UNSUP, I_SI2F, I_UI2F, I_F2SI, I_F2UI, I_FEXT, I_FTRUNC,
  I_WBIN, I_WICMP, I_WZEXT, I_WSEXT, I_WTRUNC, I_RMW, I_CMPXCHG, I_LPAD, I_RESUME, I_ADDI, I_FADDR, I_LOAD8, I_ICMPBR, I_VAARG
};
struct Edge { int bb; std::vector<std::pair<int, int>> cp; };
struct Func; struct CallSite; struct GepI; struct SwitchI;
struct Ins {
  uint16_t op, w; int d, a, b, c; u64 imm; void *p;
};
struct GepI { std::vector<std::tuple<int, u64, unsigned>> idx; };
struct SwitchI { std::vector<std::pair<u64, int>> cases; std::vector<Edge> edges; };
struct BrI { Edge t, f; };
struct LpadI { std::vector<std::pair<int, Constant *>> clauses; bool cleanup; }; // kind 1 catch, 2 filter
typedef bool (*Handler)(struct CallSite &cs, std::vector<Slot> &args, Slot *ret); // true: handled, pc advanced
struct CallSite {
  Func *f = nullptr; int fop = 0; bool indirect = false;
  std::vector<int> args;          // flattened
  std::vector<u8> akind;          // 'i','d','f' per flattened slot
  std::vector<u8> aw;             // width
  std::vector<u64> byval;         // per IR arg: byval size or 0 (slot index aligned)
  int d = 0, nret = 0; u8 rkind = 'v'; unsigned rw = 64;
  bool invoke = false; Edge normal, unwind; unsigned nfixed = 0;
  const CallBase *cb = nullptr;
};
struct Func {
  Function *f; std::string name; u64 addr; int id; bool ready = false;
  std::vector<Ins> code; std::vector<int> bbStart; int nslots = 0; std::vector<int> argSlots; std::vector<u8> argw;
  std::vector<const Instruction *> src; std::vector<Slot> cpool;
  Handler h = nullptr; void *native = nullptr; bool decl = false; bool isva = false; bool hsearched = false;
};
struct Frame { Func *f; Slot *s; u32 ip; u64 sp; CallSite *cs; std::vector<Slot> *va; };
struct Co { std::vector<Frame> fr; Slot *base, *top; u64 sp, stkLo, stkHi; bool done = false; };
static std::vector<Co *> COS; static int curCo = 0;
static std::vector<Func *> FUNCS;
static DenseMap<const Function *, Func *> F2F;
static DenseMap<const Value *, u64> GADDR;
static Module *MOD; static const DataLayout *DL; static LLVMContext *CTX;
static u64 nins = 0;

// ------------------------------------------------------------ path state
static std::vector<E> PC; static std::unordered_map<E, int> KNOWN; static Model M;
struct Input { std::string name; int occ; E e; unsigned w; };
static std::vector<Input> INPUTS; static std::map<std::string, int> OCC;
static std::vector<std::string> CONCR; // concretisations notes
static std::vector<pid_t> KIDS;
static bool exitAllowed = false;
static int pathDepth = 0;

static void bump(decltype(SH->why) &tab, std::atomic<int> &n, const char *nm) {
  int k = n.load();
  for (int i = 0; i < k && i < 64; i++) if (!strncmp(tab[i].name, nm, 159)) { tab[i].n++; return; }
  k = n.fetch_add(1);
  if (k < 64) { strncpy(tab[k].name, nm, 159); tab[k].n++; }
}
static void incomplete(const std::string &why) { SH->incomplete++; bump(SH->why, SH->nwhy, why.c_str()); if (VERB) fprintf(stderr, "[incomplete] %s\n", why.c_str()); }
static void reach(const char *nm) {
  int k = std::min(SH->nreach.load(), 256);
  for (int i = 0; i < k; i++) if (!strncmp(SH->reach[i].name, nm, 63)) { SH->reach[i].n++; return; }
  k = SH->nreach.fetch_add(1);
  if (k < 256) { strncpy(SH->reach[k].name, nm, 63); SH->reach[k].n++; }
}
static void flushStats() {
  SH->instrs += nins; nins = 0;
  SH->queries += SST.queries; SH->qsat += SST.sat; SH->qunsat += SST.unsat; SH->qunk += SST.unknown; SH->solver_us += SST.us;
  memset(&SST, 0, sizeof SST);
}
[[noreturn]] static void endPath(bool counted = true) {
  if (counted) SH->paths++;
  u64 pcs = PC.size(); if (pcs > SH->maxpc) SH->maxpc = pcs;
  flushStats();
  fflush(stdout); fflush(stderr);
  sem_post(&SH->slots);
  for (pid_t k : KIDS) { int st; waitpid(k, &st, 0); if (!WIFEXITED(st) || WEXITSTATUS(st)) incomplete("child died abnormally"); }
  _exit(0);
}
static std::string locOf(const Frame &f) {
  const Instruction *I = f.ip < f.f->src.size() ? f.f->src[f.ip] : nullptr;
  std::string r = demangle(f.f->name);
  if (r.size() > 120) r = r.substr(0, 117) + "...";
  if (I && I->getDebugLoc()) {
    DILocation *d = I->getDebugLoc();
    r += " @ " + d->getFilename().str() + ":" + std::to_string(d->getLine());
    while ((d = d->getInlinedAt())) r += " <- " + d->getFilename().str() + ":" + std::to_string(d->getLine());
  }
  return r;
}
static std::string jesc(const std::string &s) { std::string r; for (char c : s) { if (c == '"' || c == '\\') r += '\\'; if (c == '\n') { r += "\\n"; continue; } if ((u8)c < 32) continue; r += c; } return r; }
static void recordViolation(const std::string &kind, const std::string &msg, const Model &m) {
  u64 k = SH->violations++;
  if ((int)k < MAXVIOL) {
    char fn[512]; snprintf(fn, sizeof fn, "%s/viol.%llu.json", OUTDIR.c_str(), (unsigned long long)k);
    std::string tmp = std::string(fn) + ".tmp";
    FILE *o = fopen(tmp.c_str(), "w");
    if (o) {
      fprintf(o, "{\"kind\":\"%s\",\"msg\":\"%s\",\"stack\":[", jesc(kind).c_str(), jesc(msg).c_str());
      Co *co = COS.empty() ? nullptr : COS[curCo]; bool first = true; int n = 0;
      if (co) for (int i = (int)co->fr.size() - 1; i >= 0 && n < 16; i--, n++) { fprintf(o, "%s\"%s\"", first ? "" : ",", jesc(locOf(co->fr[i])).c_str()); first = false; }
      fprintf(o, "],\"pc\":%zu,\"inputs\":[", PC.size());
      first = true;
      for (auto &in : INPUTS) { fprintf(o, "%s[\"%s\",%d,%llu]", first ? "" : ",", jesc(in.name).c_str(), in.occ, (unsigned long long)evalE(in.e, m)); first = false; }
      fprintf(o, "]}\n");
      fclose(o);
      rename(tmp.c_str(), fn);
    }
  }
  if (HALT_ON_FIRST && (int)SH->violations.load() >= MAXVIOL) SH->stop = 1;
}
[[noreturn]] static void naturalEnd() { // path ran to its end: keep a few models for native cross-validation
  u64 k = SH->nsample++;
  if (k < 5) {
    char fn[512]; snprintf(fn, sizeof fn, "%s/sample.%llu.json", OUTDIR.c_str(), (unsigned long long)k);
    if (FILE *o = fopen(fn, "w")) {
      fprintf(o, "{\"inputs\":["); bool first = true;
      for (auto &in : INPUTS) { fprintf(o, "%s[\"%s\",%d,%llu]", first ? "" : ",", jesc(in.name).c_str(), in.occ, (unsigned long long)evalE(in.e, M)); first = false; }
      fprintf(o, "]}\n"); fclose(o);
    }
  }
  endPath();
}
[[noreturn]] static void violationEnd(const std::string &kind, const std::string &msg) {
  recordViolation(kind, msg, M);
  endPath();
}
[[noreturn]] static void unsupported(const std::string &why) { incomplete("unsupported: " + why); endPath(); }

// ------------------------------------------------------------ solver front
static void sliceFor(E extra, std::vector<E> &out) {
  static std::vector<u8> in; in.assign(VARS.size(), 0);
  for (u32 v : varsOf(extra)) in[v] = 1;
  std::vector<u8> used(PC.size(), 0);
  bool ch = true;
  while (ch) {
    ch = false;
    for (size_t i = 0; i < PC.size(); i++) if (!used[i]) {
      auto &vs = varsOf(PC[i]); bool hit = false;
      for (u32 v : vs) if (in[v]) { hit = true; break; }
      if (hit) { used[i] = 1; for (u32 v : vs) if (!in[v]) { in[v] = 1; ch = true; } out.push_back(PC[i]); }
    }
  }
  out.push_back(extra);
}
static E simpKnown(E e, int d = 0) { // use known booleans of the path condition
  Node n = NN[e];
  if (n.op == O_CONST) return e;
  auto it = KNOWN.find(e);
  if (it != KNOWN.end()) return mkConst(it->second, 1);
  if (n.w != 1 || d > 12) return e;
  switch (n.op) {
  case O_AND: case O_OR: case O_XOR: { E a = simpKnown(n.a, d + 1), b = simpKnown(n.b, d + 1); if (a == n.a && b == n.b) return e; return mkBin(n.op, a, b); }
  case O_ITE: { E c = simpKnown(n.a, d + 1); if (isC(c)) return simpKnown(cval(c) ? n.b : n.c, d + 1); E a = simpKnown(n.b, d + 1), b = simpKnown(n.c, d + 1); return mkIte(c, a, b); }
  }
  return e;
}
static Res query(E cond, Model &m2) { // PC && cond ; m2 <- full model
  std::vector<E> cs; sliceFor(cond, cs);
  m2 = M;
  Res r = solve(cs, m2);
  if (r == R_SAT) for (E e : cs) if (!evalE(e, m2)) { SH->modelbad++; return R_UNKNOWN; }
  return r;
}
static void addPC(E c) {
  if (isC(c)) return;
  Node n = NN[c];
  if (n.op == O_AND) { addPC(n.a); addPC(n.b); return; }
  if (KNOWN.count(c)) return;
  PC.push_back(c);
  KNOWN[c] = 1; KNOWN[mkNot(c)] = 0;
  if (n.op == O_XOR && isC(n.b)) { // not(x)
    Node x = NN[n.a];
    if (x.op == O_OR) { KNOWN[x.a] = 0; KNOWN[x.b] = 0; KNOWN[mkNot(x.a)] = 1; KNOWN[mkNot(x.b)] = 1; }
  }
}
static void checkStop() {
  if (SH->stop) endPath(false);
  if (now() > T_LIMIT) { SH->timeouts++; endPath(false); }
  if (SH->paths.load() > MAXPATHS) { SH->timeouts++; endPath(false); }
}
static bool decide(E cond) {
  if (isC(cond)) return cval(cond) != 0;
  cond = simpKnown(cond);
  if (isC(cond)) return cval(cond) != 0;
  checkStop();
  bool side = evalE(cond, M) != 0;
  E other = side ? mkNot(cond) : cond;
  Model m2;
  Res r = query(other, m2);
  if (r == R_UNSAT) { KNOWN[cond] = side; KNOWN[mkNot(cond)] = !side; return side; }
  if (r == R_UNKNOWN) { incomplete("solver unknown at branch"); addPC(side ? cond : mkNot(cond)); return side; }
  // both feasible: fork
  SH->forks++;
  flushStats();
  bool par = sem_trywait(&SH->slots) == 0;
  fflush(stdout); fflush(stderr);
  pid_t p = fork();
  if (p < 0) { if (par) sem_post(&SH->slots); incomplete("fork failed"); addPC(side ? cond : mkNot(cond)); return side; }
  if (p == 0) {
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    KIDS.clear(); nins = 0; memset(&SST, 0, sizeof SST);
    pathDepth++;
    addPC(other); M = m2;
    return !side;
  }
  if (par) {
    KIDS.push_back(p);
  } else {
    int st; waitpid(p, &st, 0); // child took over our slot and posted it back
    if (!WIFEXITED(st) || WEXITSTATUS(st)) { incomplete("child died abnormally"); sem_post(&SH->slots); }
    sem_wait(&SH->slots);
    checkStop();
  }
  addPC(side ? cond : mkNot(cond));
  return side;
}
// enumerate all feasible values (fork per value)
static u64 concretise(E e, const char *why, int limit = 4096) {
  if (isC(e)) return (u64)cval(e);
  for (int i = 0;; i++) {
    u64 v = (u64)evalE(e, M);
    E c = mkCmp(O_EQ, e, mkConst(v, W(e)));
    if (i >= limit) { incomplete(std::string("concretised after limit: ") + why); addPC(c); return v; }
    if (decide(c)) return v;
  }
}
static u64 pickOne(E e, const char *why) {
  if (isC(e)) return (u64)cval(e);
  u64 v = (u64)evalE(e, M);
  E c = mkCmp(O_EQ, e, mkConst(v, W(e)));
  Model m2;
  if (query(mkNot(c), m2) == R_UNSAT) return v;
  incomplete(std::string("concretised: ") + why);
  addPC(c);
  return v;
}
static inline E ex(const Slot &s, unsigned w) { return s.e ? s.e : mkConst(s.c, w); }
static inline Slot sl(u64 c) { return Slot{c, 0, 0}; }
static inline Slot se(E e) { if (isC(e)) return Slot{(u64)cval(e), 0, 0}; return Slot{0, e, 0}; }
static inline u64 mask64(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
static u64 conc(const Slot &s, unsigned w, const char *why) { return s.e ? concretise(s.e, why) : s.c; }

// ------------------------------------------------------------ memory
static std::string memDesc(u64 a) {
  char b[128];
  const char *k = a < 4096 ? "null" : !inArena(a) ? "wild" : fl(a) == 8 ? "freed heap" : a < GLOB_END ? "global" : a < HEAP ? "stack" : "heap";
  snprintf(b, sizeof b, "address 0x%llx (%s region)", (unsigned long long)a, k);
  return b;
}
static std::vector<std::pair<u64, u64>> NATMAP;
static void memCheck(u64 a, u64 n, bool wr) {
  if (inArena(a)) {
    for (u64 i = 0; i < n; i++) if (!(fl(a + i) & 1)) violationEnd("memory", std::string(wr ? "out-of-bounds write of " : "out-of-bounds read of ") + std::to_string(n) + " bytes, " + memDesc(a + i));
  } else if (a < 65536 || a >= (1ull << 47)) violationEnd("memory", std::string(wr ? "invalid write " : "invalid read ") + memDesc(a));
}
static Slot loadC(u64 a, unsigned n) {
  if (__builtin_expect(inArena(a), 1)) {
    u64 f = 0; const u8 *fp = &fl(a);
    if (n == 8) { f = *(const u64 *)fp; if (f == 0x0101010101010101ull) return sl(*(u64 *)a); }
    else if (n == 4) { f = *(const u32 *)fp; if (f == 0x01010101u) return sl(*(u32 *)a); }
    else if (n == 1) { if (*fp == 1) return sl(*(u8 *)a); }
    bool allc = true;
    for (unsigned i = 0; i < n; i++) { if (!(fp[i] & 1)) memCheck(a, n, false); if (fp[i] != 1) allc = false; }
    if (allc) { u64 v = 0; memcpy(&v, (void *)a, n); return sl(v); }
    // symbolic: assemble
    E r = 0;
    for (unsigned i = 0; i < n; i++) {
      E b;
      if (fp[i] == 3) { u64 s = sy(a + i); E e = (E)s; unsigned bi = s >> 32; b = mkExtract(e, bi * 8, 8); }
      else b = mkConst(*(u8 *)(a + i), 8);
      r = r ? mkConcat(b, r) : b;
    }
    return se(r);
  }
  if (a < 65536 || a >= (1ull << 47)) memCheck(a, n, false);
  if ((a ^ CODE) >> 32 == 0) violationEnd("memory", "read of code address");
  u64 v = 0; memcpy(&v, (void *)a, n); return sl(v);
}
static void storeC(u64 a, const Slot &s, unsigned n) {
  if (__builtin_expect(inArena(a), 1)) {
    u8 *fp = &fl(a);
    bool ok = true;
    if (n == 8) { ok = (*(u64 *)fp & 0x0101010101010101ull) == 0x0101010101010101ull; }
    else if (n == 4) { ok = (*(u32 *)fp & 0x01010101u) == 0x01010101u; }
    else for (unsigned i = 0; i < n; i++) if (!(fp[i] & 1)) ok = false;
    if (!ok) memCheck(a, n, true);
    if (!s.e) {
      if (n == 8) { *(u64 *)a = s.c; *(u64 *)fp = 0x0101010101010101ull; }
      else if (n == 4) { *(u32 *)a = (u32)s.c; *(u32 *)fp = 0x01010101u; }
      else if (n == 1) { *(u8 *)a = (u8)s.c; *fp = 1; }
      else { memcpy((void *)a, &s.c, n); memset(fp, 1, n); }
    } else {
      E e = s.e;
      if (W(e) < n * 8) e = mkZExt(e, n * 8);
      for (unsigned i = 0; i < n; i++) {
        E b = mkExtract(e, i * 8, 8);
        if (isC(b)) { *(u8 *)(a + i) = (u8)cval(b); fp[i] = 1; }
        else if (NN[b].op == O_EXTRACT && NN[b].k % 8 == 0) { sy(a + i) = (u64)NN[b].a | (u64)(NN[b].k / 8) << 32; fp[i] = 3; }
        else { sy(a + i) = b; fp[i] = 3; }
      }
    }
    return;
  }
  if (a < 65536 || a >= (1ull << 47)) memCheck(a, n, true);
  u64 v = s.e ? pickOne(s.e, "store of symbolic value to native memory") : s.c;
  memcpy((void *)a, &v, n);
}
static void objBounds(u64 a, u64 &lo, u64 &hi) { lo = a; hi = a; while (lo > ARENA && (fl(lo - 1) & 1) && a - lo < (1 << 22)) lo--; while ((fl(hi) & 1) && hi - a < (1 << 22)) hi++; }
// candidate concrete addresses for a symbolic pointer; guards are addr==cand
static void collectConst(E e, std::vector<u64> &out, bool &ok, int d = 0) {
  Node n = NN[e];
  if (n.op == O_CONST) { out.push_back((u64)n.k); if (out.size() > 512) ok = false; return; }
  if (n.op == O_ITE && ok && d < 4000) { collectConst(n.b, out, ok, d + 1); if (ok) collectConst(n.c, out, ok, d + 1); return; }
  ok = false;
}
static std::vector<u64> resolvePtr(E addr, unsigned n, bool wr) {
  std::vector<u64> c; bool ok = true;
  collectConst(addr, c, ok);
  if (ok) {
    std::sort(c.begin(), c.end()); c.erase(std::unique(c.begin(), c.end()), c.end());
    std::vector<u64> good;
    for (u64 a : c) {
      bool v = inArena(a);
      if (v) for (unsigned i = 0; i < n; i++) if (!(fl(a + i) & 1)) v = false;
      if (v) { good.push_back(a); continue; }
      if (!inArena(a) && a > 65536 && a < (1ull << 47)) { good.push_back(a); continue; }
      if (decide(mkCmp(O_EQ, addr, mkConst(a, 64)))) { memCheck(a, n, wr); return {a}; }
    }
    return good;
  }
  u64 a = (u64)evalE(addr, M);
  if (!inArena(a)) { // wild or native under the model
    if (a < 65536 || a >= (1ull << 47)) {
      if (decide(mkCmp(O_ULT, addr, mkConst(65536, 64)))) memCheck((u64)evalE(addr, M), n, wr);
      return resolvePtr(addr, n, wr);
    }
    u64 v = concretise(addr, "symbolic pointer outside arena", 64);
    return {v};
  }
  if (!(fl(a) & 1)) { // model hits invalid memory: is it the whole story?
    if (decide(mkCmp(O_EQ, addr, mkConst(a, 64)))) { memCheck(a, n, wr); }
    return resolvePtr(addr, n, wr);
  }
  u64 lo, hi; objBounds(a, lo, hi);
  if (hi - lo < n) { if (decide(mkCmp(O_EQ, addr, mkConst(a, 64)))) memCheck(a, n, wr); return resolvePtr(addr, n, wr); }
  E inb = mkBin(O_AND, mkCmp(O_ULE, mkConst(lo, 64), addr), mkCmp(O_ULE, addr, mkConst(hi - n, 64)));
  if (!decide(inb)) return resolvePtr(addr, n, wr);
  unsigned tz = knownTrailingZeros(mkBin(O_SUB, addr, mkConst(a, 64)));
  u64 stride = tz >= 20 ? (1 << 20) : 1ull << tz;
  // tighten with solver: min and max by bisection when large
  u64 first = a - ((a - lo) / stride) * stride;
  std::vector<u64> cand;
  u64 cnt = (hi - n >= first) ? (hi - n - first) / stride + 1 : 0;
  if (cnt <= 24) { for (u64 x = first; x + n <= hi; x += stride) cand.push_back(x); return cand; }
  // enumerate feasible values with the solver
  std::vector<u64> vals; E ruled = mkConst(1, 1); Model m2;
  vals.push_back(a); ruled = mkNot(mkCmp(O_EQ, addr, mkConst(a, 64)));
  while (vals.size() < 256) {
    Res r = query(ruled, m2);
    if (r != R_SAT) { if (r == R_UNKNOWN) incomplete("solver unknown resolving pointer"); return vals; }
    u64 v = (u64)evalE(addr, m2);
    vals.push_back(v);
    ruled = mkBin(O_AND, ruled, mkNot(mkCmp(O_EQ, addr, mkConst(v, 64))));
  }
  if (cnt <= 4096) { for (u64 x = first; x + n <= hi; x += stride) cand.push_back(x); return cand; }
  incomplete("symbolic pointer with >4096 targets, restricted");
  E any = mkConst(0, 1);
  for (u64 v : vals) any = mkBin(O_OR, any, mkCmp(O_EQ, addr, mkConst(v, 64)));
  addPC(any);
  return vals;
}
static Slot loadS(const Slot &p, unsigned n) {
  if (!p.e) return loadC(p.c, n);
  E addr = p.e;
  std::vector<u64> c = resolvePtr(addr, n, false);
  if (c.size() == 1) return loadC(c[0], n);
  if (c.empty()) unsupported("unresolvable pointer");
  E r = ex(loadC(c[0], n), n * 8);
  for (size_t i = 1; i < c.size(); i++) r = mkIte(mkCmp(O_EQ, addr, mkConst(c[i], 64)), ex(loadC(c[i], n), n * 8), r);
  return se(r);
}
static void storeS(const Slot &p, const Slot &v, unsigned n) {
  if (!p.e) { storeC(p.c, v, n); return; }
  E addr = p.e;
  std::vector<u64> c = resolvePtr(addr, n, true);
  if (c.size() == 1) { storeC(c[0], v, n); return; }
  if (c.empty()) unsupported("unresolvable pointer");
  E ve = ex(v, n * 8); if (W(ve) < n * 8) ve = mkZExt(ve, n * 8);
  for (u64 a : c) storeC(a, se(mkIte(mkCmp(O_EQ, addr, mkConst(a, 64)), ve, ex(loadC(a, n), n * 8))), n);
}
static void copyMem(u64 d, u64 s, u64 n) {
  if (!n) return;
  bool da = inArena(d), sa = inArena(s);
  memCheck(s, n, false); memCheck(d, n, true);
  if (da && sa) {
    bool symb = false;
    const u8 *f = &fl(s);
    for (u64 i = 0; i < n; i++) if (f[i] & 2) { symb = true; break; }
    memmove((void *)d, (void *)s, n);
    if (symb) { memmove(&SYM[d - ARENA], &SYM[s - ARENA], n * 8); memmove(&fl(d), &fl(s), n); }
    else memset(&fl(d), 1, n);
  } else if (da) { memmove((void *)d, (void *)s, n); memset(&fl(d), 1, n); }
  else {
    for (u64 i = 0; i < n; i++) if (sa && (fl(s + i) & 2)) { Slot v = loadC(s + i, 1); *(u8 *)(s + i) = (u8)pickOne(ex(v, 8), "copy to native memory"); fl(s + i) = 1; }
    memmove((void *)d, (void *)s, n);
  }
}
static bool hasSym(u64 a, u64 n) { if (!inArena(a)) return false; for (u64 i = 0; i < n; i++) if (fl(a + i) & 2) return true; return false; }

// ------------------------------------------------------------ types / constants
static void flatten(Type *T, std::vector<unsigned> &ws, std::vector<u8> *kinds = nullptr) {
  auto add = [&](unsigned w, u8 k) { ws.push_back(w); if (kinds) kinds->push_back(k); };
  if (T->isVoidTy()) return;
  if (auto *I = dyn_cast<IntegerType>(T)) { unsigned w = I->getBitWidth(); while (w > 64) { add(64, 'i'); w -= 64; } add(w, 'i'); return; }
  if (T->isPointerTy()) { add(64, 'i'); return; }
  if (T->isDoubleTy()) { add(64, 'd'); return; }
  if (T->isFloatTy()) { add(32, 'f'); return; }
  if (T->isX86_FP80Ty()) { add(64, 'x'); return; } // kept as double precision
  if (auto *S = dyn_cast<StructType>(T)) { for (Type *e : S->elements()) flatten(e, ws, kinds); return; }
  if (auto *A = dyn_cast<ArrayType>(T)) { for (u64 i = 0; i < A->getNumElements(); i++) flatten(A->getElementType(), ws, kinds); return; }
  if (auto *V = dyn_cast<FixedVectorType>(T)) { for (unsigned i = 0; i < V->getNumElements(); i++) flatten(V->getElementType(), ws, kinds); return; }
  add(64, 'i'); // token/metadata
}
static unsigned nsl(Type *T) { std::vector<unsigned> w; flatten(T, w); return w.size(); }
// byte offsets of each flattened leaf
static void leafOffsets(Type *T, u64 base, std::vector<std::pair<u64, unsigned>> &out) { // (offset, nbytes)
  if (auto *I = dyn_cast<IntegerType>(T)) { unsigned w = I->getBitWidth(), o = 0; while (w > 64) { out.push_back({base + o, 8}); o += 8; w -= 64; } out.push_back({base + o, (w + 7) / 8}); return; }
  if (T->isPointerTy() || T->isDoubleTy()) { out.push_back({base, 8}); return; }
  if (T->isFloatTy()) { out.push_back({base, 4}); return; }
  if (T->isX86_FP80Ty()) { out.push_back({base, 10}); return; }
  if (auto *S = dyn_cast<StructType>(T)) { auto *L = DL->getStructLayout(S); for (unsigned i = 0; i < S->getNumElements(); i++) leafOffsets(S->getElementType(i), base + L->getElementOffset(i), out); return; }
  if (auto *A = dyn_cast<ArrayType>(T)) { u64 es = DL->getTypeAllocSize(A->getElementType()); for (u64 i = 0; i < A->getNumElements(); i++) leafOffsets(A->getElementType(), base + i * es, out); return; }
  if (auto *V = dyn_cast<FixedVectorType>(T)) { u64 es = DL->getTypeSizeInBits(V->getElementType()); for (unsigned i = 0; i < V->getNumElements(); i++) { leafOffsets(V->getElementType(), base + i * es / 8, out); } return; }
  out.push_back({base, 8});
}
static Func *getFunc(const Function *F) {
  auto it = F2F.find(F);
  if (it != F2F.end()) return it->second;
  Func *f = new Func; f->f = const_cast<Function *>(F); f->name = F->getName().str(); f->id = FUNCS.size(); f->decl = F->isDeclaration(); f->isva = F->isVarArg();
  f->addr = CODE + 16ull * (f->id + 1);
  if (f->decl && !F->isIntrinsic()) { f->native = dlsym(RTLD_DEFAULT, f->name.c_str()); if (f->native) f->addr = (u64)f->native; }
  FUNCS.push_back(f); F2F[F] = f;
  return f;
}
static u64 globalAddr(const GlobalValue *G) {
  if (auto *F = dyn_cast<Function>(G)) return getFunc(F)->addr;
  if (auto *A = dyn_cast<GlobalAlias>(G)) return globalAddr(cast<GlobalValue>(A->getAliaseeObject()));
  auto it = GADDR.find(G);
  if (it != GADDR.end()) return it->second;
  fprintf(stderr, "symx: no address for %s\n", G->getName().str().c_str());
  return 0;
}
static std::vector<Slot> evalConst(const Constant *C);
static u64 constOffset(const GEPOperator *G) { APInt off(64, 0); G->accumulateConstantOffset(*DL, off); return off.getSExtValue(); }
static std::vector<Slot> evalConst(const Constant *C) {
  std::vector<Slot> r;
  if (auto *I = dyn_cast<ConstantInt>(C)) { const APInt &v = I->getValue(); unsigned w = v.getBitWidth(); for (unsigned o = 0; o < w; o += 64) r.push_back(sl(v.extractBitsAsZExtValue(std::min(64u, w - o), o))); return r; }
  if (auto *F = dyn_cast<ConstantFP>(C)) {
    if (F->getType()->isX86_FP80Ty()) { bool li; APFloat v = F->getValueAPF(); v.convert(APFloat::IEEEdouble(), APFloat::rmNearestTiesToEven, &li); return {sl(v.bitcastToAPInt().getZExtValue())}; }
    return {sl(F->getValueAPF().bitcastToAPInt().getZExtValue())}; }
  if (isa<ConstantPointerNull>(C)) return {sl(0)};
  if (isa<UndefValue>(C) || isa<ConstantAggregateZero>(C) || isa<ConstantTokenNone>(C)) { r.assign(nsl(C->getType()), sl(0)); return r; }
  if (auto *G = dyn_cast<GlobalValue>(C)) return {sl(globalAddr(G))};
  if (auto *A = dyn_cast<ConstantAggregate>(C)) { for (auto &o : A->operands()) { auto x = evalConst(cast<Constant>(o)); r.insert(r.end(), x.begin(), x.end()); } return r; }
  if (auto *D = dyn_cast<ConstantDataSequential>(C)) { for (unsigned i = 0; i < D->getNumElements(); i++) { auto x = evalConst(D->getElementAsConstant(i)); r.insert(r.end(), x.begin(), x.end()); } return r; }
  if (auto *X = dyn_cast<ConstantExpr>(C)) {
    switch (X->getOpcode()) {
    case Instruction::GetElementPtr: { u64 b = evalConst(X->getOperand(0))[0].c; return {sl(b + constOffset(cast<GEPOperator>(X)))}; }
    case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::BitCast: case Instruction::AddrSpaceCast: { auto v = evalConst(X->getOperand(0)); if (X->getType()->isIntegerTy()) v[0].c &= mask64(X->getType()->getIntegerBitWidth()); return v; }
    case Instruction::Trunc: { auto v = evalConst(X->getOperand(0)); v.resize(1); v[0].c &= mask64(X->getType()->getIntegerBitWidth()); return v; }
    case Instruction::Add: return {sl(evalConst(X->getOperand(0))[0].c + evalConst(X->getOperand(1))[0].c)};
    case Instruction::Sub: return {sl((evalConst(X->getOperand(0))[0].c - evalConst(X->getOperand(1))[0].c) & mask64(DL->getTypeSizeInBits(X->getType())))};
    case Instruction::Xor: return {sl(evalConst(X->getOperand(0))[0].c ^ evalConst(X->getOperand(1))[0].c)};
    case Instruction::ICmp: { u64 a = evalConst(X->getOperand(0))[0].c, b = evalConst(X->getOperand(1))[0].c; return {sl(X->getPredicate() == CmpInst::ICMP_EQ ? a == b : a != b)}; }
    default: break;
    }
  }
  std::string s; raw_string_ostream os(s); C->print(os);
  fprintf(stderr, "symx: unsupported constant %s\n", s.c_str());
  r.assign(std::max(1u, nsl(C->getType())), sl(0));
  return r;
}
static void initMem(u64 a, const Constant *C) {
  if (isa<ConstantAggregateZero>(C) || isa<UndefValue>(C)) return;
  if (auto *D = dyn_cast<ConstantDataSequential>(C)) { StringRef s = D->getRawDataValues(); memcpy((void *)a, s.data(), s.size()); return; }
  Type *T = C->getType();
  if (auto *A = dyn_cast<ConstantArray>(C)) { u64 es = DL->getTypeAllocSize(A->getType()->getElementType()); for (unsigned i = 0; i < A->getNumOperands(); i++) initMem(a + i * es, A->getOperand(i)); return; }
  if (auto *S = dyn_cast<ConstantStruct>(C)) { auto *L = DL->getStructLayout(S->getType()); for (unsigned i = 0; i < S->getNumOperands(); i++) initMem(a + L->getElementOffset(i), S->getOperand(i)); return; }
  if (auto *F = dyn_cast<ConstantFP>(C)) if (F->getType()->isX86_FP80Ty()) { APInt b = F->getValueAPF().bitcastToAPInt(); u64 lo = b.extractBitsAsZExtValue(64, 0), hi = b.extractBitsAsZExtValue(16, 64); memcpy((void *)a, &lo, 8); memcpy((void *)(a + 8), &hi, 2); return; }
  std::vector<std::pair<u64, unsigned>> lo; leafOffsets(T, 0, lo);
  auto v = evalConst(C);
  for (size_t i = 0; i < v.size() && i < lo.size(); i++) memcpy((void *)(a + lo[i].first), &v[i].c, std::min(8u, lo[i].second));
}

// ------------------------------------------------------------ translation
static std::map<std::string, Handler> HANDLERS;
static void setupHandlers();
struct Translator {
  Func *F; DenseMap<const Value *, int> vals; DenseMap<const BasicBlock *, int> bbid; std::map<u64, int> cmap;
  const Instruction *curI = nullptr;
  int newSlots(unsigned n) { int r = F->nslots; F->nslots += n; return r; }
  int cslot(u64 v) { auto it = cmap.find(v); if (it != cmap.end()) return it->second; F->cpool.push_back(sl(v)); int id = -(int)F->cpool.size(); cmap[v] = id; return id; }
  std::vector<int> ops(const Value *V) {
    std::vector<int> r;
    if (auto *C = dyn_cast<Constant>(V)) { for (auto &s : evalConst(C)) r.push_back(cslot(s.c)); return r; }
    if (isa<MetadataAsValue>(V) || isa<InlineAsm>(V)) { r.push_back(cslot(0)); return r; }
    auto it = vals.find(V);
    int base = it->second; unsigned n = nsl(V->getType());
    for (unsigned i = 0; i < n; i++) r.push_back(base + i);
    return r;
  }
  int op1(const Value *V) { return ops(V)[0]; }
  Ins &emit(uint16_t op, unsigned w, int d, int a = 0, int b = 0, int c = 0, u64 imm = 0, void *p = nullptr) {
    F->code.push_back(Ins{op, (uint16_t)w, d, a, b, c, imm, p}); F->src.push_back(curI); return F->code.back();
  }
  Edge edge(const BasicBlock *from, const BasicBlock *to) {
    Edge e; e.bb = bbid[to];
    for (auto &P : to->phis()) { auto o = ops(P.getIncomingValueForBlock(from)); int d = vals[&P]; for (size_t i = 0; i < o.size(); i++) e.cp.push_back({d + (int)i, o[i]}); }
    // order-safe parallel copy is done at runtime when needed
    return e;
  }
  void unsup(const std::string &s) { emit(I_UNSUP, 0, 0, 0, 0, 0, 0, new std::string(s)); }
  static int binop(unsigned o) {
    switch (o) {
    case Instruction::Add: return O_ADD; case Instruction::Sub: return O_SUB; case Instruction::Mul: return O_MUL; case Instruction::UDiv: return O_UDIV; case Instruction::SDiv: return O_SDIV;
    case Instruction::URem: return O_UREM; case Instruction::SRem: return O_SREM; case Instruction::And: return O_AND; case Instruction::Or: return O_OR; case Instruction::Xor: return O_XOR;
    case Instruction::Shl: return O_SHL; case Instruction::LShr: return O_LSHR; case Instruction::AShr: return O_ASHR; }
    return -1;
  }
  void translate() {
    Function &f = *F->f;
    int id = 0;
    for (auto &A : f.args()) { unsigned n = nsl(A.getType()); int s = newSlots(n); vals[&A] = s; for (unsigned i = 0; i < n; i++) F->argSlots.push_back(s + i); std::vector<unsigned> w; flatten(A.getType(), w); for (auto x : w) F->argw.push_back(x); }
    for (auto &B : f) { bbid[&B] = id++; for (auto &I : B) if (!I.getType()->isVoidTy()) vals[&I] = newSlots(nsl(I.getType())); }
    for (auto &B : f) { F->bbStart.push_back(F->code.size()); for (auto &I : B) { curI = &I; inst(I, B); } }
    F->ready = true;
  }
  void callInst(const CallBase &CB, const BasicBlock &B) {
    CallSite *cs = new CallSite; cs->cb = &CB;
    const Value *callee = CB.getCalledOperand()->stripPointerCastsAndAliases();
    if (auto *fn = dyn_cast<Function>(callee)) {
      if (fn->isIntrinsic()) {
        switch (fn->getIntrinsicID()) {
        case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::dbg_label: case Intrinsic::dbg_assign: case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::assume: case Intrinsic::donothing: case Intrinsic::var_annotation: case Intrinsic::prefetch: case Intrinsic::invariant_start: case Intrinsic::invariant_end: case Intrinsic::sideeffect: return;
        default: break; }
      }
      cs->f = getFunc(fn);
    } else if (isa<InlineAsm>(callee)) { // treat as no-op (barriers)
      if (!CB.getType()->isVoidTy()) unsup("inline asm with result"); else {}
      return;
    } else { cs->indirect = true; cs->fop = op1(CB.getCalledOperand()); }
    for (unsigned i = 0; i < CB.arg_size(); i++) {
      const Value *A = CB.getArgOperand(i);
      std::vector<unsigned> ws; std::vector<u8> ks; flatten(A->getType(), ws, &ks);
      auto o = ops(A);
      u64 bv = CB.isByValArgument(i) ? (u64)DL->getTypeAllocSize(CB.getParamByValType(i)) : 0;
      for (size_t j = 0; j < o.size(); j++) { cs->args.push_back(o[j]); cs->akind.push_back(ks[j]); cs->aw.push_back(ws[j]); cs->byval.push_back(bv); }
      if (i < CB.getFunctionType()->getNumParams()) cs->nfixed = cs->args.size();
    }
    std::vector<unsigned> ws; std::vector<u8> ks; flatten(CB.getType(), ws, &ks);
    cs->nret = ws.size(); if (ws.size()) { cs->rkind = ks[0]; cs->rw = ws[0]; cs->d = vals[&CB]; }
    if (auto *II = dyn_cast<InvokeInst>(&CB)) { cs->invoke = true; cs->normal = edge(&B, II->getNormalDest()); cs->unwind = edge(&B, II->getUnwindDest()); }
    emit(I_CALL, 0, cs->d, 0, 0, 0, 0, cs);
  }
  void inst(const Instruction &I, const BasicBlock &B) {
    Type *T = I.getType();
    int d = T->isVoidTy() ? 0 : vals[&I];
    if (isa<PHINode>(I)) return;
    if (auto *BO = dyn_cast<BinaryOperator>(&I)) {
      auto a = ops(I.getOperand(0)), b = ops(I.getOperand(1));
      Type *ST = T->getScalarType();
      if (ST->isIntegerTy()) {
        unsigned w = ST->getIntegerBitWidth(); int o = binop(I.getOpcode());
        if (w <= 64) { for (size_t i = 0; i < a.size(); i++) emit(I_BIN, w, d + i, a[i], b[i], o); }
        else if (w <= 128) emit(I_WBIN, w, d, a[0], b[0], o, ((u64)(u32)a[1] << 32) | (u32)b[1]);
        else unsup("wide binop");
      } else if (ST->isX86_FP80Ty()) unsup("x86_fp80 arithmetic");
      else for (size_t i = 0; i < a.size(); i++) emit(I_FBIN, ST->isDoubleTy() ? 64 : 32, d + i, a[i], b[i], I.getOpcode());
      return;
    }
    switch (I.getOpcode()) {
    case Instruction::FNeg: { auto a = ops(I.getOperand(0)); for (size_t i = 0; i < a.size(); i++) emit(I_FNEG, T->getScalarType()->isDoubleTy() ? 64 : 32, d + i, a[i]); return; }
    case Instruction::ICmp: {
      auto *C = cast<ICmpInst>(&I); auto a = ops(I.getOperand(0)), b = ops(I.getOperand(1)); Type *ST = I.getOperand(0)->getType()->getScalarType();
      unsigned w = ST->isPointerTy() ? 64 : ST->getIntegerBitWidth();
      if (w <= 64) for (size_t i = 0; i < a.size(); i++) emit(I_ICMP, w, d + i, a[i], b[i], C->getPredicate());
      else if (w <= 128) emit(I_WICMP, w, d, a[0], b[0], C->getPredicate(), ((u64)(u32)a[1] << 32) | (u32)b[1]);
      else if (C->isEquality()) { // chain of ands
        int t = newSlots(2); unsigned k = a.size();
        emit(I_ICMP, 64, t, a[0], b[0], CmpInst::ICMP_EQ);
        for (unsigned i = 1; i < k; i++) { emit(I_ICMP, 64, t + 1, a[i], b[i], CmpInst::ICMP_EQ); emit(I_BIN, 1, t, t, t + 1, O_AND); }
        if (C->getPredicate() == CmpInst::ICMP_EQ) emit(I_MOV, 1, d, t); else emit(I_BIN, 1, d, t, cslot(1), O_XOR);
      } else unsup("wide icmp");
      return; }
    case Instruction::FCmp: { auto *C = cast<FCmpInst>(&I); auto a = ops(I.getOperand(0)), b = ops(I.getOperand(1)); Type *ST = I.getOperand(0)->getType()->getScalarType(); for (size_t i = 0; i < a.size(); i++) emit(I_FCMP, ST->isFloatTy() ? 32 : 64, d + i, a[i], b[i], C->getPredicate()); return; }
    case Instruction::Select: {
      auto c = ops(I.getOperand(0)), a = ops(I.getOperand(1)), b = ops(I.getOperand(2)); std::vector<unsigned> ws; flatten(T, ws);
      bool vec = c.size() > 1;
      for (size_t i = 0; i < a.size(); i++) emit(I_SELECT, ws[i], d + i, vec ? c[i] : c[0], a[i], b[i]);
      return; }
    case Instruction::ZExt: case Instruction::SExt: case Instruction::Trunc: {
      auto a = ops(I.getOperand(0)); unsigned wf = I.getOperand(0)->getType()->getScalarSizeInBits(), wt = T->getScalarSizeInBits();
      if (wf <= 64 && wt <= 64) { for (size_t i = 0; i < a.size(); i++) emit(I.getOpcode() == Instruction::ZExt ? I_ZEXT : I.getOpcode() == Instruction::SExt ? I_SEXT : I_TRUNC, wt, d + i, a[i], wf); return; }
      if (T->isVectorTy()) { unsup("wide vector cast"); return; }
      if (I.getOpcode() == Instruction::Trunc) { if (wt <= 64) emit(I_TRUNC, wt, d, a[0], wf > 64 ? 64 : wf); else { unsigned n = (wt + 63) / 64; for (unsigned i = 0; i < n; i++) if (i + 1 < n || wt % 64 == 0) emit(I_MOV, 64, d + i, a[i]); else emit(I_TRUNC, wt % 64, d + i, a[i], 64); } return; }
      if (I.getOpcode() == Instruction::ZExt) { // limbs
        unsigned nf = a.size(), nt = (wt + 63) / 64;
        for (unsigned i = 0; i < nt; i++) { unsigned lw = i + 1 < nt || wt % 64 == 0 ? 64 : wt % 64; if (i < nf) { unsigned fw = i + 1 < nf || wf % 64 == 0 ? 64 : wf % 64; emit(I_ZEXT, lw, d + i, a[i], fw); } else emit(I_MOV, lw, d + i, cslot(0)); }
        return; }
      if (wf <= 64 && wt <= 128) { emit(I_SEXT, 64, d, a[0], wf); int t = newSlots(1); emit(I_BIN, 64, t, d, cslot(63), O_ASHR); if (wt == 128) emit(I_MOV, 64, d + 1, t); else emit(I_TRUNC, wt - 64, d + 1, t, 64); return; }
      unsup("wide cast"); return; }
    case Instruction::BitCast: {
      auto a = ops(I.getOperand(0)); std::vector<unsigned> wa, wd; flatten(I.getOperand(0)->getType(), wa); flatten(T, wd);
      if (wa == wd) { for (size_t i = 0; i < a.size(); i++) emit(I_MOV, 64, d + i, a[i]); return; }
      // through memory-like concat: only handle total <= 64 or equal limbs
      unsigned tot = 0; for (auto w : wa) tot += w;
      if (tot <= 64) {
        int acc = newSlots(1), t = newSlots(1); emit(I_ZEXT, tot, acc, a[0], wa[0]); unsigned sh = wa[0];
        for (size_t i = 1; i < a.size(); i++) { emit(I_ZEXT, tot, t, a[i], wa[i]); emit(I_BIN, tot, t, t, cslot(sh), O_SHL); emit(I_BIN, tot, acc, acc, t, O_OR); sh += wa[i]; }
        sh = 0;
        for (size_t i = 0; i < wd.size(); i++) { if (wd[i] == tot) emit(I_MOV, 64, d + i, acc); else { emit(I_BIN, tot, t, acc, cslot(sh), O_LSHR); emit(I_TRUNC, wd[i], d + i, t, tot); } sh += wd[i]; }
        return;
      }
      unsup("bitcast"); return; }
    case Instruction::PtrToInt: case Instruction::IntToPtr: {
      auto a = ops(I.getOperand(0)); unsigned wf = I.getOperand(0)->getType()->getScalarType()->isPointerTy() ? 64 : I.getOperand(0)->getType()->getScalarSizeInBits(), wt = T->getScalarType()->isPointerTy() ? 64 : T->getScalarSizeInBits();
      for (size_t i = 0; i < a.size(); i++) if (wf == wt) emit(I_MOV, 64, d + i, a[i]); else if (wf < wt) emit(I_ZEXT, wt, d + i, a[i], wf); else emit(I_TRUNC, wt, d + i, a[i], wf);
      return; }
    case Instruction::AddrSpaceCast: case Instruction::Freeze: { auto a = ops(I.getOperand(0)); for (size_t i = 0; i < a.size(); i++) emit(I_MOV, 64, d + i, a[i]); return; }
    case Instruction::SIToFP: case Instruction::UIToFP: { auto a = ops(I.getOperand(0)); unsigned wf = I.getOperand(0)->getType()->getScalarSizeInBits(); if (wf > 64) { unsup("wide int to fp"); return; } for (size_t i = 0; i < a.size(); i++) emit(I.getOpcode() == Instruction::SIToFP ? I_SI2F : I_UI2F, T->getScalarType()->isFloatTy() ? 32 : 64, d + i, a[i], wf); return; }
    case Instruction::FPToSI: case Instruction::FPToUI: { auto a = ops(I.getOperand(0)); unsigned wt = T->getScalarSizeInBits(); if (wt > 64) { unsup("fp to wide int"); return; } for (size_t i = 0; i < a.size(); i++) emit(I.getOpcode() == Instruction::FPToSI ? I_F2SI : I_F2UI, wt, d + i, a[i], I.getOperand(0)->getType()->getScalarType()->isFloatTy() ? 32 : 64); return; }
    case Instruction::FPExt: { auto a = ops(I.getOperand(0)); bool ff = I.getOperand(0)->getType()->getScalarType()->isFloatTy(); for (size_t i = 0; i < a.size(); i++) if (ff) emit(I_FEXT, 64, d + i, a[i]); else emit(I_MOV, 64, d + i, a[i]); return; }
    case Instruction::FPTrunc: { auto a = ops(I.getOperand(0)); bool tf = T->getScalarType()->isFloatTy(); for (size_t i = 0; i < a.size(); i++) if (tf) emit(I_FTRUNC, 32, d + i, a[i]); else emit(I_MOV, 64, d + i, a[i]); return; }
    case Instruction::Load: {
      int p = op1(I.getOperand(0)); std::vector<std::pair<u64, unsigned>> lo; leafOffsets(T, 0, lo); std::vector<unsigned> ws; flatten(T, ws);
      if (auto *V = dyn_cast<FixedVectorType>(T)) if (V->getElementType()->isIntegerTy() && V->getElementType()->getIntegerBitWidth() % 8) { unsup("sub-byte vector load"); return; }
      for (size_t i = 0; i < lo.size(); i++) { emit(I_LOAD, ws[i], d + i, p, lo[i].second, 0, lo[i].first); }
      return; }
    case Instruction::Store: {
      Type *VT = I.getOperand(0)->getType(); auto v = ops(I.getOperand(0)); int p = op1(I.getOperand(1)); std::vector<std::pair<u64, unsigned>> lo; leafOffsets(VT, 0, lo); std::vector<unsigned> ws; flatten(VT, ws);
      if (auto *V = dyn_cast<FixedVectorType>(VT)) if (V->getElementType()->isIntegerTy() && V->getElementType()->getIntegerBitWidth() % 8) { unsup("sub-byte vector store"); return; }
      for (size_t i = 0; i < lo.size(); i++) emit(I_STORE, ws[i], v[i], p, lo[i].second, 0, lo[i].first);
      return; }
    case Instruction::GetElementPtr: {
      if (T->isVectorTy()) { unsup("vector gep"); return; }
      auto *G = cast<GetElementPtrInst>(&I); int base = op1(G->getPointerOperand()); u64 off = 0; GepI *gi = new GepI;
      for (auto it = gep_type_begin(G); it != gep_type_end(G); ++it) {
        const Value *ix = it.getOperand();
        if (StructType *S = it.getStructTypeOrNull()) off += DL->getStructLayout(S)->getElementOffset(cast<ConstantInt>(ix)->getZExtValue());
        else { u64 es = DL->getTypeAllocSize(it.getIndexedType()); if (auto *ci = dyn_cast<ConstantInt>(ix)) off += es * ci->getSExtValue(); else gi->idx.push_back({op1(ix), es, ix->getType()->getIntegerBitWidth()}); }
      }
      if (gi->idx.empty()) { delete gi; emit(I_ADDI, 64, d, base, 0, 0, off); }
      else emit(I_GEP, 64, d, base, 0, 0, off, gi);
      return; }
    case Instruction::Alloca: { auto *A = cast<AllocaInst>(&I); u64 es = DL->getTypeAllocSize(A->getAllocatedType()); emit(I_ALLOCA, 64, d, op1(A->getArraySize()), A->getAlign().value(), 0, es); return; }
    case Instruction::Br: {
      auto *Br = cast<BranchInst>(&I); BrI *b = new BrI;
      if (Br->isUnconditional()) { b->t = edge(&B, Br->getSuccessor(0)); emit(I_BR, 0, 0, 0, 0, 0, 0, b); }
      else { b->t = edge(&B, Br->getSuccessor(0)); b->f = edge(&B, Br->getSuccessor(1)); emit(I_CBR, 0, 0, op1(Br->getCondition()), 0, 0, 0, b); }
      return; }
    case Instruction::Switch: {
      auto *S = cast<SwitchInst>(&I); SwitchI *s = new SwitchI; s->edges.push_back(edge(&B, S->getDefaultDest()));
      for (auto &c : S->cases()) { s->cases.push_back({c.getCaseValue()->getZExtValue(), (int)s->edges.size()}); s->edges.push_back(edge(&B, c.getCaseSuccessor())); }
      emit(I_SWITCH, S->getCondition()->getType()->getIntegerBitWidth(), 0, op1(S->getCondition()), 0, 0, 0, s); return; }
    case Instruction::Ret: { auto *R = cast<ReturnInst>(&I); if (R->getReturnValue()) { auto o = ops(R->getReturnValue()); auto *v = new std::vector<int>(o); emit(I_RET, 0, 0, 0, 0, 0, o.size(), v); } else emit(I_RET, 0, 0, 0, 0, 0, 0, nullptr); return; }
    case Instruction::Call: case Instruction::Invoke: callInst(cast<CallBase>(I), B); if (auto *II = dyn_cast<InvokeInst>(&I)) { if (F->code.empty() || F->code.back().op != I_CALL || F->src.back() != &I) { BrI *b = new BrI; b->t = edge(&B, II->getNormalDest()); emit(I_BR, 0, 0, 0, 0, 0, 0, b); } } return;
    case Instruction::Unreachable: emit(I_UNREACH, 0, 0); return;
    case Instruction::ExtractValue: { auto *X = cast<ExtractValueInst>(&I); auto a = ops(I.getOperand(0)); unsigned off = 0; Type *t = I.getOperand(0)->getType(); for (unsigned ix : X->indices()) { if (auto *S = dyn_cast<StructType>(t)) { for (unsigned k = 0; k < ix; k++) off += nsl(S->getElementType(k)); t = S->getElementType(ix); } else { auto *A = cast<ArrayType>(t); off += ix * nsl(A->getElementType()); t = A->getElementType(); } } for (unsigned i = 0; i < nsl(T); i++) emit(I_MOV, 64, d + i, a[off + i]); return; }
    case Instruction::InsertValue: { auto *X = cast<InsertValueInst>(&I); auto a = ops(I.getOperand(0)), v = ops(I.getOperand(1)); unsigned off = 0; Type *t = T; for (unsigned ix : X->indices()) { if (auto *S = dyn_cast<StructType>(t)) { for (unsigned k = 0; k < ix; k++) off += nsl(S->getElementType(k)); t = S->getElementType(ix); } else { auto *A = cast<ArrayType>(t); off += ix * nsl(A->getElementType()); t = A->getElementType(); } } for (unsigned i = 0; i < a.size(); i++) emit(I_MOV, 64, d + i, (i >= off && i < off + v.size()) ? v[i - off] : a[i]); return; }
    case Instruction::ExtractElement: { auto a = ops(I.getOperand(0)); unsigned k = nsl(T); if (auto *ci = dyn_cast<ConstantInt>(I.getOperand(1))) { for (unsigned i = 0; i < k; i++) emit(I_MOV, 64, d + i, a[ci->getZExtValue() * k + i]); } else { int ix = op1(I.getOperand(1)); unsigned wi = I.getOperand(1)->getType()->getIntegerBitWidth(); unsigned n = a.size() / k; int t = newSlots(1); std::vector<unsigned> ws; flatten(T, ws); emit(I_MOV, 64, d, a[0]); for (unsigned i = 1; i < n; i++) { emit(I_ICMP, wi, t, ix, cslot(i), CmpInst::ICMP_EQ); emit(I_SELECT, ws[0], d, t, a[i], d); } } return; }
    case Instruction::InsertElement: { auto a = ops(I.getOperand(0)), v = ops(I.getOperand(1)); if (auto *ci = dyn_cast<ConstantInt>(I.getOperand(2))) { unsigned k = v.size(), o = ci->getZExtValue() * k; for (unsigned i = 0; i < a.size(); i++) emit(I_MOV, 64, d + i, (i >= o && i < o + k) ? v[i - o] : a[i]); } else unsup("variable insertelement"); return; }
    case Instruction::ShuffleVector: { auto *S = cast<ShuffleVectorInst>(&I); auto a = ops(I.getOperand(0)), b = ops(I.getOperand(1)); auto m = S->getShuffleMask(); for (unsigned i = 0; i < m.size(); i++) emit(I_MOV, 64, d + i, m[i] < 0 ? cslot(0) : (unsigned)m[i] < a.size() ? a[m[i]] : b[m[i] - a.size()]); return; }
    case Instruction::AtomicRMW: { auto *A = cast<AtomicRMWInst>(&I); unsigned w = T->getScalarSizeInBits(); if (T->isPointerTy()) w = 64; emit(I_RMW, w, d, op1(A->getPointerOperand()), op1(A->getValOperand()), A->getOperation()); return; }
    case Instruction::AtomicCmpXchg: { auto *A = cast<AtomicCmpXchgInst>(&I); Type *VT = A->getNewValOperand()->getType(); unsigned w = VT->isPointerTy() ? 64 : VT->getScalarSizeInBits(); emit(I_CMPXCHG, w, d, op1(A->getPointerOperand()), op1(A->getCompareOperand()), op1(A->getNewValOperand())); return; }
    case Instruction::Fence: return;
    case Instruction::LandingPad: { auto *L = cast<LandingPadInst>(&I); LpadI *l = new LpadI; l->cleanup = L->isCleanup(); for (unsigned i = 0; i < L->getNumClauses(); i++) l->clauses.push_back({L->isCatch(i) ? 1 : 2, L->getClause(i)}); emit(I_LPAD, 0, d, 0, 0, 0, 0, l); return; }
    case Instruction::Resume: { auto o = ops(I.getOperand(0)); emit(I_RESUME, 0, 0, o[0], o[1]); return; }
    }
    unsup(std::string("instruction ") + I.getOpcodeName());
  }
};
static void prepare(Func *f) {
  if (f->ready || f->decl) return;
  Translator t; t.F = f; t.translate();
}

// ------------------------------------------------------------ interpreter
static inline const Slot &G(const Frame &f, int i) { return i >= 0 ? f.s[i] : f.f->cpool[-i - 1]; }
static Slot icmpS(int pred, const Slot &a, const Slot &b, unsigned w) {
  if (!a.e && !b.e) {
    u64 x = a.c, y = b.c; int64_t sx_ = w >= 64 ? (int64_t)x : (int64_t)(x << (64 - w)) >> (64 - w), sy_ = w >= 64 ? (int64_t)y : (int64_t)(y << (64 - w)) >> (64 - w);
    switch (pred) {
    case CmpInst::ICMP_EQ: return sl(x == y); case CmpInst::ICMP_NE: return sl(x != y);
    case CmpInst::ICMP_UGT: return sl(x > y); case CmpInst::ICMP_UGE: return sl(x >= y); case CmpInst::ICMP_ULT: return sl(x < y); case CmpInst::ICMP_ULE: return sl(x <= y);
    case CmpInst::ICMP_SGT: return sl(sx_ > sy_); case CmpInst::ICMP_SGE: return sl(sx_ >= sy_); case CmpInst::ICMP_SLT: return sl(sx_ < sy_); case CmpInst::ICMP_SLE: return sl(sx_ <= sy_); }
  }
  E x = ex(a, w), y = ex(b, w); E r;
  switch (pred) {
  case CmpInst::ICMP_EQ: r = mkCmp(O_EQ, x, y); break; case CmpInst::ICMP_NE: r = mkNot(mkCmp(O_EQ, x, y)); break;
  case CmpInst::ICMP_UGT: r = mkCmp(O_ULT, y, x); break; case CmpInst::ICMP_UGE: r = mkCmp(O_ULE, y, x); break; case CmpInst::ICMP_ULT: r = mkCmp(O_ULT, x, y); break; case CmpInst::ICMP_ULE: r = mkCmp(O_ULE, x, y); break;
  case CmpInst::ICMP_SGT: r = mkCmp(O_SLT, y, x); break; case CmpInst::ICMP_SGE: r = mkCmp(O_SLE, y, x); break; case CmpInst::ICMP_SLT: r = mkCmp(O_SLT, x, y); break; default: r = mkCmp(O_SLE, x, y); }
  return se(r);
}
static Slot fcmpS(int pred, const Slot &a, const Slot &b, unsigned w) {
  if (!a.e && !b.e) {
    double x = w == 64 ? asd(a.c) : asf(a.c), y = w == 64 ? asd(b.c) : asf(b.c); bool u = std::isnan(x) || std::isnan(y); bool r = false;
    switch (pred) {
    case CmpInst::FCMP_FALSE: r = false; break; case CmpInst::FCMP_TRUE: r = true; break; case CmpInst::FCMP_ORD: r = !u; break; case CmpInst::FCMP_UNO: r = u; break;
    case CmpInst::FCMP_OEQ: r = x == y; break; case CmpInst::FCMP_ONE: r = !u && x != y; break; case CmpInst::FCMP_OGT: r = x > y; break; case CmpInst::FCMP_OGE: r = x >= y; break; case CmpInst::FCMP_OLT: r = x < y; break; case CmpInst::FCMP_OLE: r = x <= y; break;
    case CmpInst::FCMP_UEQ: r = u || x == y; break; case CmpInst::FCMP_UNE: r = u || x != y; break; case CmpInst::FCMP_UGT: r = u || x > y; break; case CmpInst::FCMP_UGE: r = u || x >= y; break; case CmpInst::FCMP_ULT: r = u || x < y; break; case CmpInst::FCMP_ULE: r = u || x <= y; break; }
    return sl(r);
  }
  E x = ex(a, w), y = ex(b, w);
  auto oeq = [&] { return mkF(O_FOEQ, 1, x, y); }; auto olt = [&](E p, E q) { return mkF(O_FOLT, 1, p, q); }; auto ole = [&](E p, E q) { return mkF(O_FOLE, 1, p, q); }; auto uno = [&] { return mkF(O_FUNO, 1, x, y); };
  E r;
  switch (pred) {
  case CmpInst::FCMP_ORD: r = mkNot(uno()); break; case CmpInst::FCMP_UNO: r = uno(); break;
  case CmpInst::FCMP_OEQ: r = oeq(); break; case CmpInst::FCMP_ONE: r = mkBin(O_OR, olt(x, y), olt(y, x)); break;
  case CmpInst::FCMP_OGT: r = olt(y, x); break; case CmpInst::FCMP_OGE: r = ole(y, x); break; case CmpInst::FCMP_OLT: r = olt(x, y); break; case CmpInst::FCMP_OLE: r = ole(x, y); break;
  case CmpInst::FCMP_UEQ: r = mkNot(mkBin(O_OR, olt(x, y), olt(y, x))); break; case CmpInst::FCMP_UNE: r = mkNot(oeq()); break;
  case CmpInst::FCMP_UGT: r = mkNot(ole(x, y)); break; case CmpInst::FCMP_UGE: r = mkNot(olt(x, y)); break; case CmpInst::FCMP_ULT: r = mkNot(ole(y, x)); break; case CmpInst::FCMP_ULE: r = mkNot(olt(y, x)); break;
  default: r = mkConst(pred == CmpInst::FCMP_TRUE, 1); }
  return se(r);
}
static Slot binS(int op, const Slot &a, const Slot &b, unsigned w) {
  if (!a.e && !b.e) {
    u64 x = a.c, y = b.c, m = mask64(w);
    switch (op) {
    case O_ADD: return sl((x + y) & m); case O_SUB: return sl((x - y) & m); case O_MUL: return sl((x * y) & m);
    case O_AND: return sl(x & y); case O_OR: return sl(x | y); case O_XOR: return sl(x ^ y);
    case O_SHL: return sl(y >= w ? 0 : (x << y) & m); case O_LSHR: return sl(y >= w ? 0 : x >> y);
    case O_UDIV: case O_UREM: case O_SDIV: case O_SREM: if (!y) violationEnd("arithmetic", "division by zero"); break;
    }
    return sl((u64)foldOp(op, w, w, x, y, 0, 0, w));
  }
  E x = ex(a, w), y = ex(b, w);
  if (op == O_UDIV || op == O_UREM || op == O_SDIV || op == O_SREM) { E z = mkCmp(O_EQ, y, mkConst(0, w)); if (decide(z)) violationEnd("arithmetic", "division by zero"); }
  return se(mkBin(op, x, y));
}
static Frame *FR; // current frame
static Co *CO;
static inline void take(Edge &e) {
  Frame &f = *FR;
  if (e.cp.size() == 1) { f.s[e.cp[0].first] = G(f, e.cp[0].second); }
  else if (e.cp.size()) {
    Slot tmp[64]; std::vector<Slot> big; Slot *t = tmp; size_t n = e.cp.size();
    if (n > 64) { big.resize(n); t = big.data(); }
    for (size_t i = 0; i < n; i++) t[i] = G(f, e.cp[i].second);
    for (size_t i = 0; i < n; i++) f.s[e.cp[i].first] = t[i];
  }
  f.ip = f.f->bbStart[e.bb];
}
static void pushFrame(Func *fn, const std::vector<Slot> &args, CallSite *cs) {
  prepare(fn);
  Co &co = *CO;
  if (co.fr.size() > 20000) violationEnd("memory", "call stack overflow (unbounded recursion)");
  Frame f; f.f = fn; f.s = co.top; f.ip = 0; f.sp = co.sp; f.cs = cs; f.va = nullptr;
  co.top += fn->nslots;
  if (co.top - co.base > (1 << 22)) violationEnd("memory", "call stack overflow");
  size_t na = fn->argSlots.size();
  for (size_t i = 0; i < na && i < args.size(); i++) f.s[fn->argSlots[i]] = args[i];
  if (fn->isva && args.size() > na) f.va = new std::vector<Slot>(args.begin() + na, args.end());
  co.fr.push_back(f);
  FR = &co.fr.back();
  if (fn->id < (1 << 17)) SH->funcs[fn->id] = 1;
}
static u64 stackAlloc(u64 n, u64 align) {
  Co &co = *CO;
  u64 a = (co.sp + 16 + align - 1) & ~(align - 1);
  if (align < 16) a = (co.sp + 16 + 15) & ~15ull;
  u64 end = a + n + 16;
  if (end > co.stkHi) violationEnd("memory", "stack overflow");
  memset(&fl(co.sp), 0, a - co.sp);
  memset(&fl(a), 1, n); memset((void *)a, 0, n); memset(&fl(a + n), 0, 16);
  co.sp = end;
  return a;
}
static void popFrame() {
  Co &co = *CO; Frame &f = co.fr.back();
  if (co.sp > f.sp) { memset(&fl(f.sp), 0, co.sp - f.sp); co.sp = f.sp; }
  co.top = f.s; delete f.va;
  co.fr.pop_back();
  FR = co.fr.empty() ? nullptr : &co.fr.back();
}
static void afterCall(CallSite *cs) { // advance caller past a completed call
  if (cs->invoke) take(cs->normal); else FR->ip++;
}
// -------- exceptions
struct Exc { u64 obj, tinfo; bool native; };
static std::vector<Exc> caught; static u64 curExObj = 0, curExTi = 0;
static std::map<u64, int> TYPEID; static int typeId(u64 ti) { auto it = TYPEID.find(ti); if (it != TYPEID.end()) return it->second; int k = TYPEID.size() + 1; TYPEID[ti] = k; return k; }
static bool tiMatch(u64 catchTi, u64 throwTi, u64 obj) {
  if (!catchTi || catchTi == throwTi) return true;
  const std::type_info *c = (const std::type_info *)catchTi, *t = (const std::type_info *)throwTi;
  if (!throwTi) return false;
  void *adj = (void *)obj;
  return c->__do_catch(t, &adj, 1);
}
static std::string tiName(u64 ti) { if (!ti) return "?"; const char *n = ((const std::type_info *)ti)->name(); int st; char *d = abi::__cxa_demangle(n, 0, 0, &st); std::string r = d ? d : n; free(d); return r; }
static int pendSel; static u64 pendObj;
static void unwind(u64 obj, u64 ti) {
  // check there is a handler; otherwise uncaught
  std::string where = locOf(*FR);
  curExObj = obj; curExTi = ti;
  // first frame is the thrower: FR's current instruction is the call that threw
  std::string trace;
  Co &co = *CO;
  bool any = false;
  for (int i = (int)co.fr.size() - 1; i >= 0 && !any; i--) {
    Frame &f = co.fr[i]; Ins &in = f.f->code[f.ip];
    if (in.op == I_CALL && ((CallSite *)in.p)->invoke) {
      CallSite *cs = (CallSite *)in.p; LpadI *L = nullptr;
      for (int k = f.f->bbStart[cs->unwind.bb]; k < (int)f.f->code.size(); k++) if (f.f->code[k].op == I_LPAD) { L = (LpadI *)f.f->code[k].p; break; }
      if (L) for (auto &c : L->clauses) { if (c.first == 1) { u64 ct = evalConst(c.second)[0].c; if (tiMatch(ct, ti, obj)) any = true; } else any = true; }
    }
  }
  if (!any) violationEnd("exception", "uncaught exception of type " + tiName(ti) + " thrown at " + where);
  while (FR) {
    Ins &in = FR->f->code[FR->ip];
    if (in.op == I_CALL && ((CallSite *)in.p)->invoke) {
      CallSite *cs = (CallSite *)in.p; LpadI *L = nullptr;
      for (int k = FR->f->bbStart[cs->unwind.bb]; k < (int)FR->f->code.size(); k++) if (FR->f->code[k].op == I_LPAD) { L = (LpadI *)FR->f->code[k].p; break; }
      int sel = -1;
      if (L) { for (auto &c : L->clauses) { if (c.first == 1) { u64 ct = evalConst(c.second)[0].c; if (tiMatch(ct, ti, obj)) { sel = typeId(ct); break; } } else { sel = 0; } } if (sel < 0 && L->cleanup) sel = 0; }
      if (sel >= 0) { pendSel = sel; pendObj = obj; take(cs->unwind); return; }
    }
    popFrame();
  }
}
// -------- native calls
extern "C" u64 symx_native(void *fn, u64 *gp, double *fp, u64 *stk, u64 nstk, double *fret);
asm(R"(
.text
.globl symx_native
.type symx_native,@function
symx_native:
.cfi_startproc
  pushq %rbp
.cfi_def_cfa_offset 16
.cfi_offset %rbp,-16
  movq %rsp,%rbp
.cfi_def_cfa_register %rbp
  pushq %rbx
  pushq %r12
.cfi_offset %rbx,-24
.cfi_offset %r12,-32
  movq %rdi,%r10
  movq %rsi,%r11
  movq %r9,%r12
  movq %r8,%rax
  addq $1,%rax
  andq $-2,%rax
  leaq (,%rax,8),%rax
  subq %rax,%rsp
  xorq %rbx,%rbx
1: cmpq %r8,%rbx
  jge 2f
  movq (%rcx,%rbx,8),%rax
  movq %rax,(%rsp,%rbx,8)
  incq %rbx
  jmp 1b
2:
  movsd 0(%rdx),%xmm0
  movsd 8(%rdx),%xmm1
  movsd 16(%rdx),%xmm2
  movsd 24(%rdx),%xmm3
  movsd 32(%rdx),%xmm4
  movsd 40(%rdx),%xmm5
  movsd 48(%rdx),%xmm6
  movsd 56(%rdx),%xmm7
  movq 0(%r11),%rdi
  movq 8(%r11),%rsi
  movq 16(%r11),%rdx
  movq 24(%r11),%rcx
  movq 32(%r11),%r8
  movq 40(%r11),%r9
  movl $8,%eax
  callq *%r10
  movsd %xmm0,0(%r12)
  movq %rdx,8(%r12)
  leaq -16(%rbp),%rsp
  popq %r12
  popq %rbx
  popq %rbp
.cfi_def_cfa %rsp,8
  ret
.cfi_endproc
.size symx_native,.-symx_native
)");
static std::set<std::string> PURE; // natives that never look at data bytes behind pointers
static bool isPrintLike(const std::string &n) {
  return n.rfind("_ZNSols", 0) == 0 || n.rfind("_ZStls", 0) == 0 || n.rfind("_ZNSo9_M_insert", 0) == 0 || n.rfind("_ZSt16__ostream_insert", 0) == 0 || n.rfind("_ZNSo3put", 0) == 0 || n.rfind("_ZNSo5write", 0) == 0 || n.rfind("_ZSt4endl", 0) == 0 || n.rfind("_ZNSo5flush", 0) == 0;
}
static void concretiseObj(u64 a, const std::string &who) {
  if (!inArena(a) || !(fl(a) & 1)) return;
  u64 lo, hi; objBounds(a, lo, hi);
  if (hi - a > 4096) hi = a + 4096;
  bool any = false;
  for (u64 i = a; i < hi; i++) if (fl(i) & 2) { Slot v = loadC(i, 1); u64 x = v.e ? pickOne(v.e, ("native call " + who).c_str()) : v.c; *(u8 *)i = (u8)x; fl(i) = 1; any = true; }
  if (any) SH->natsym++;
}
static void callNative(void *fn, const std::string &name, CallSite &cs, std::vector<Slot> &args) {
  u64 gp[6] = {0}; double fp[8] = {0}; std::vector<u64> stk; int ng = 0, nf = 0;
  bool pr = isPrintLike(name), pure = PURE.count(name) || name.rfind("_ZSt18_Rb_tree", 0) == 0 || name.rfind("_ZSt29_Rb_tree", 0) == 0 || name.rfind("_ZSt28_Rb_tree", 0) == 0 || name.rfind("_ZNSt8__detail15_List_node", 0) == 0 || name.rfind("_ZNKSt8__detail20_Prime", 0) == 0 || name.rfind("_ZSt18_Rb", 0) == 0;
  if (pr && !args.empty() && !args[0].e && (args[0].c == (u64)&std::cout || args[0].c == (u64)&std::cerr || args[0].c == (u64)&std::clog)) {
    if (cs.nret) FR->s[cs.d] = args[0];
    return;
  }
  for (size_t i = 0; i < args.size(); i++) {
    u64 v;
    if (args[i].e) { if (pr) v = (u64)evalE(args[i].e, M); else v = concretise(args[i].e, ("argument of native " + name).c_str(), 512); }
    else v = args[i].c;
    if (cs.akind[i] == 'i') {
      if (cs.aw[i] < 64 && cs.cb) { // respect signext
        if (cs.cb->arg_size() == args.size() && cs.cb->paramHasAttr(i, Attribute::SExt)) { unsigned w = cs.aw[i]; v = (u64)((int64_t)(v << (64 - w)) >> (64 - w)); }
      }
      if (!pure && cs.aw[i] == 64) {
        if (pr) { u64 b = v; if (inArena(b) && (fl(b) & 1)) { u64 lo, hi; objBounds(b, lo, hi); for (u64 k = b; k < hi && k < b + 4096; k++) if (fl(k) & 2) *(u8 *)k = (u8)evalE(ex(loadC(k, 1), 8), M); } }
        else concretiseObj(v, name);
      }
      if (cs.byval[i]) { u64 n = (cs.byval[i] + 7) / 8; for (u64 k = 0; k < n; k++) stk.push_back(((u64 *)v)[k]); }
      else if (ng < 6) gp[ng++] = v; else stk.push_back(v);
    } else if (cs.akind[i] == 'd' || cs.akind[i] == 'f') { double dd; memcpy(&dd, &v, 8); if (nf < 8) fp[nf++] = dd; else stk.push_back(v); }
    else { long double ld = asd(v); u64 b[2] = {0, 0}; memcpy(b, &ld, 10); if (stk.size() % 2) stk.push_back(0); stk.push_back(b[0]); stk.push_back(b[1]); }
  }
  u64 fret[2]; u64 r = 0;
  bool threw = false; std::string what; const std::type_info *ti = nullptr;
  if (cs.rkind == 'x') unsupported("native call returning long double: " + name);
  try { r = symx_native(fn, gp, fp, stk.data(), stk.size(), (double *)fret); }
  catch (std::exception &e) { threw = true; what = e.what(); ti = &typeid(e); }
  catch (...) { threw = true; ti = abi::__cxa_current_exception_type(); }
  if (threw) { u64 o = heapAlloc(64); unwind(o, (u64)ti); pendObj = o; CO->fr.size(); throw 1; }
  if (cs.nret) {
    if (cs.rkind == 'i') { FR->s[cs.d] = sl(r & mask64(cs.rw)); if (cs.nret > 1) FR->s[cs.d + 1] = sl(fret[1]); }
    else { FR->s[cs.d] = sl(cs.rkind == 'f' ? fret[0] & 0xffffffff : fret[0]); if (cs.nret > 1) FR->s[cs.d + 1] = sl(r); }
  }
}
static void doCall(CallSite &cs, Func *fn, u64 addr);
static bool intrinsic(CallSite &cs, std::vector<Slot> &a);
static void switchCo(int id) { curCo = id; CO = COS[id]; FR = CO->fr.empty() ? nullptr : &CO->fr.back(); }
static std::string cstr(u64 p, bool concr = true) {
  std::string s;
  for (u64 i = 0; i < 65536; i++) { Slot c = loadC(p + i, 1); u64 v = c.e ? (concr ? pickOne(c.e, "C string") : (u64)evalE(c.e, M)) : c.c; if (!v) break; s += (char)v; }
  return s;
}
static std::unordered_map<u64, Func *> ADDR2F;
static Func *funcAt(u64 a) {
  if (a > CODE && (a - CODE) / 16 - 1 < FUNCS.size() && (a - CODE) % 16 == 0) return FUNCS[(a - CODE) / 16 - 1];
  return nullptr;
}
static void doCall(CallSite &cs, Func *fn, u64 addr) {
  static thread_local std::vector<Slot> args;
  std::vector<Slot> local; std::vector<Slot> &A = local;
  A.resize(cs.args.size());
  for (size_t i = 0; i < cs.args.size(); i++) A[i] = G(*FR, cs.args[i]);
  if (!fn) {
    fn = funcAt(addr);
    if (!fn) {
      if (addr < 65536 || addr >= (1ull << 47) || inArena(addr)) violationEnd("memory", "call through invalid function pointer " + memDesc(addr));
      Dl_info di; std::string nm = "native";
      if (dladdr((void *)addr, &di) && di.dli_sname) nm = di.dli_sname;
      auto it = HANDLERS.find(nm);
      if (it != HANDLERS.end()) { if (it->second(cs, A, cs.nret ? &FR->s[cs.d] : nullptr)) return; afterCall(&cs); return; }
      Frame *f0 = FR; (void)f0;
      try { callNative((void *)addr, nm, cs, A); } catch (int) { return; }
      afterCall(&cs);
      return;
    }
  }
  if (fn->decl) {
    if (!fn->hsearched) { auto it = HANDLERS.find(fn->name); if (it != HANDLERS.end()) fn->h = it->second; fn->hsearched = true; }
    if (fn->h) { if (fn->h(cs, A, cs.nret ? &FR->s[cs.d] : nullptr)) return; afterCall(&cs); return; }
    if (fn->f->isIntrinsic()) { if (!intrinsic(cs, A)) return; afterCall(&cs); return; }
    if (fn->name.find("__throw_") != std::string::npos) {
      // _ZSt20__throw_length_errorPKc -> std::length_error
      std::string k = fn->name.substr(fn->name.find("__throw_") + 8); while (!k.empty() && (k.back() == 'c' || k.back() == 'K' || k.back() == 'P' || k.back() == 'v' || k.back() == 'z')) k.pop_back();
      if (k.size() > 4 && k.substr(k.size() - 4) == "_fmt") k.resize(k.size() - 4);
      std::string ti = "_ZTISt" + std::to_string(k.size()) + k; void *t = dlsym(RTLD_DEFAULT, ti.c_str());
      u64 o = heapAlloc(64); unwind(o, (u64)t); return;
    }
    if (fn->native) { try { callNative(fn->native, fn->name, cs, A); } catch (int) { return; } afterCall(&cs); return; }
    unsupported("external function " + demangle(fn->name));
  }
  if (!fn->hsearched) { auto it = HANDLERS.find(fn->name); if (it != HANDLERS.end() && fn->name.rfind("sx_", 0) == 0) fn->h = it->second; fn->hsearched = true; }
  if (fn->h) { if (fn->h(cs, A, cs.nret ? &FR->s[cs.d] : nullptr)) return; afterCall(&cs); return; }
  for (size_t i = 0; i < cs.byval.size(); i++) if (cs.byval[i]) { u64 n = cs.byval[i]; u64 t = stackAlloc(n, 16); copyMem(t, A[i].c, n); A[i] = sl(t); }
  pushFrame(fn, A, &cs);
}
static Slot roundS(const Slot &x, unsigned w, int mode) { if (!x.e) return sl((u64)foldOp(O_FRND, w, w, x.c, 0, 0, mode, 0)); return se(mkF(O_FRND, w, x.e, 0, mode)); }
static bool intrinsic(CallSite &cs, std::vector<Slot> &a) { // returns true: caller advances
  Intrinsic::ID id = cs.f ? cs.f->f->getIntrinsicID() : Intrinsic::not_intrinsic;
  Slot *d = cs.nret ? &FR->s[cs.d] : nullptr; unsigned w = cs.rw;
  switch (id) {
  case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: {
    u64 n = conc(a[2], 64, "memcpy size");
    if (a[0].e || a[1].e) { u64 i = 0; for (; i + 8 <= n; i += 8) { Slot s1 = a[1], d1 = a[0]; if (s1.e) s1 = se(mkBin(O_ADD, s1.e, mkConst(i, 64))); else s1.c += i; if (d1.e) d1 = se(mkBin(O_ADD, d1.e, mkConst(i, 64))); else d1.c += i; storeS(d1, loadS(s1, 8), 8); } for (; i < n; i++) { Slot s1 = a[1], d1 = a[0]; if (s1.e) s1 = se(mkBin(O_ADD, s1.e, mkConst(i, 64))); else s1.c += i; if (d1.e) d1 = se(mkBin(O_ADD, d1.e, mkConst(i, 64))); else d1.c += i; storeS(d1, loadS(s1, 1), 1); } return true; }
    copyMem(a[0].c, a[1].c, n); return true; }
  case Intrinsic::memset: case Intrinsic::memset_inline: {
    u64 n = conc(a[2], 64, "memset size"), p = conc(a[0], 64, "memset ptr"); if (!n) return true; memCheck(p, n, true);
    if (!a[1].e) { memset((void *)p, (int)a[1].c, n); if (inArena(p)) memset(&fl(p), 1, n); } else for (u64 i = 0; i < n; i++) storeC(p + i, a[1], 1);
    return true; }
  case Intrinsic::expect: case Intrinsic::expect_with_probability: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: case Intrinsic::threadlocal_address: case Intrinsic::ssa_copy: *d = a[0]; return true;
  case Intrinsic::is_constant: *d = sl(0); return true;
  case Intrinsic::objectsize: *d = sl(~0ull & mask64(w)); return true;
  case Intrinsic::stacksave: *d = sl(CO->sp); return true;
  case Intrinsic::stackrestore: if (CO->sp > a[0].c) { memset(&fl(a[0].c), 0, CO->sp - a[0].c); CO->sp = a[0].c; } return true;
  case Intrinsic::trap: case Intrinsic::debugtrap: case Intrinsic::ubsantrap: violationEnd("abort", "trap executed");
  case Intrinsic::eh_typeid_for: *d = sl(typeId(a[0].c)); return true;
  case Intrinsic::umax: *d = se(mkIte(ex(icmpS(CmpInst::ICMP_UGT, a[0], a[1], w), 1), ex(a[0], w), ex(a[1], w))); return true;
  case Intrinsic::umin: *d = se(mkIte(ex(icmpS(CmpInst::ICMP_ULT, a[0], a[1], w), 1), ex(a[0], w), ex(a[1], w))); return true;
  case Intrinsic::smax: *d = se(mkIte(ex(icmpS(CmpInst::ICMP_SGT, a[0], a[1], w), 1), ex(a[0], w), ex(a[1], w))); return true;
  case Intrinsic::smin: *d = se(mkIte(ex(icmpS(CmpInst::ICMP_SLT, a[0], a[1], w), 1), ex(a[0], w), ex(a[1], w))); return true;
  case Intrinsic::abs: *d = se(mkIte(ex(icmpS(CmpInst::ICMP_SLT, a[0], sl(0), w), 1), mkBin(O_SUB, mkConst(0, w), ex(a[0], w)), ex(a[0], w))); return true;
  case Intrinsic::uadd_sat: { E s = mkBin(O_ADD, ex(a[0], w), ex(a[1], w)); *d = se(mkIte(mkCmp(O_ULT, s, ex(a[0], w)), mkConst(~(u128)0, w), s)); return true; }
  case Intrinsic::usub_sat: { *d = se(mkIte(mkCmp(O_ULT, ex(a[0], w), ex(a[1], w)), mkConst(0, w), mkBin(O_SUB, ex(a[0], w), ex(a[1], w)))); return true; }
  case Intrinsic::uadd_with_overflow: case Intrinsic::usub_with_overflow: case Intrinsic::umul_with_overflow: case Intrinsic::sadd_with_overflow: case Intrinsic::ssub_with_overflow: case Intrinsic::smul_with_overflow: {
    if (w > 64) unsupported("wide overflow intrinsic");
    bool sg = id == Intrinsic::sadd_with_overflow || id == Intrinsic::ssub_with_overflow || id == Intrinsic::smul_with_overflow;
    int op = (id == Intrinsic::uadd_with_overflow || id == Intrinsic::sadd_with_overflow) ? O_ADD : (id == Intrinsic::usub_with_overflow || id == Intrinsic::ssub_with_overflow) ? O_SUB : O_MUL;
    unsigned ww = op == O_MUL ? w * 2 : w + 2; E x = ex(a[0], w), y = ex(a[1], w);
    E xx = sg ? mkSExt(x, ww) : mkZExt(x, ww), yy = sg ? mkSExt(y, ww) : mkZExt(y, ww); E r = mkBin(op, xx, yy); E lo = mkExtract(r, 0, w);
    E bk = sg ? mkSExt(lo, ww) : mkZExt(lo, ww);
    d[0] = se(lo); d[1] = se(mkNot(mkCmp(O_EQ, bk, r))); return true; }
  case Intrinsic::ctpop: { if (!a[0].e) { *d = sl(__builtin_popcountll(a[0].c)); return true; } E r = mkConst(0, w); for (unsigned i = 0; i < w; i++) r = mkBin(O_ADD, r, mkZExt(mkExtract(a[0].e, i, 1), w)); *d = se(r); return true; }
  case Intrinsic::ctlz: { if (!a[0].e) { *d = sl(a[0].c ? __builtin_clzll(a[0].c) - (64 - w) : w); return true; } E r = mkConst(w, w); for (unsigned i = 0; i < w; i++) r = mkIte(mkExtract(a[0].e, i, 1), mkConst(w - 1 - i, w), r); *d = se(r); return true; }
  case Intrinsic::cttz: { if (!a[0].e) { *d = sl(a[0].c ? __builtin_ctzll(a[0].c) : w); return true; } E r = mkConst(w, w); for (int i = w - 1; i >= 0; i--) r = mkIte(mkExtract(a[0].e, i, 1), mkConst(i, w), r); *d = se(r); return true; }
  case Intrinsic::bswap: { E x = ex(a[0], w), r = 0; for (unsigned i = 0; i < w; i += 8) { E b = mkExtract(x, i, 8); r = r ? mkConcat(r, b) : b; } *d = se(r); return true; }
  case Intrinsic::bitreverse: { E x = ex(a[0], w), r = 0; for (unsigned i = 0; i < w; i++) { E b = mkExtract(x, i, 1); r = r ? mkConcat(r, b) : b; } *d = se(r); return true; }
  case Intrinsic::fshl: case Intrinsic::fshr: {
    if (a[2].e) { // symbolic amount
      if (2 * w > 128) unsupported("wide funnel shift");
      E s = mkBin(O_UREM, a[2].e, mkConst(w, w)); E cat = mkConcat(ex(a[0], w), ex(a[1], w)); E s2 = mkZExt(s, 2 * w);
      *d = se(id == Intrinsic::fshl ? mkExtract(mkBin(O_SHL, cat, s2), w, w) : mkExtract(mkBin(O_LSHR, cat, s2), 0, w)); return true; }
    unsigned s = a[2].c % w; if (!s) { *d = id == Intrinsic::fshl ? a[0] : a[1]; return true; }
    unsigned ls = id == Intrinsic::fshl ? s : w - s; // result = a0<<ls | a1>>(w-ls)
    *d = se(mkConcat(mkExtract(ex(a[0], w), 0, w - ls), mkExtract(ex(a[1], w), w - ls, ls))); return true; }
  case Intrinsic::fabs: { if (!a[0].e) *d = sl(a[0].c & (w == 64 ? ~(1ull << 63) : 0x7fffffffull)); else *d = se(mkBin(O_AND, a[0].e, mkConst(w == 64 ? ~(1ull << 63) : 0x7fffffffull, w))); return true; }
  case Intrinsic::floor: *d = roundS(a[0], w, 3); return true;
  case Intrinsic::ceil: *d = roundS(a[0], w, 2); return true;
  case Intrinsic::trunc: *d = roundS(a[0], w, 4); return true;
  case Intrinsic::round: *d = roundS(a[0], w, 1); return true;
  case Intrinsic::rint: case Intrinsic::nearbyint: case Intrinsic::roundeven: *d = roundS(a[0], w, 0); return true;
  case Intrinsic::sqrt: if (!a[0].e) *d = sl((u64)foldOp(O_FSQRT, w, w, a[0].c, 0, 0, 0, 0)); else *d = se(mkF(O_FSQRT, w, a[0].e)); return true;
  case Intrinsic::fmuladd: case Intrinsic::fma: { E m = mkF(O_FMUL, w, ex(a[0], w), ex(a[1], w)); *d = se(mkF(O_FADD, w, m, ex(a[2], w))); return true; }
  case Intrinsic::minnum: case Intrinsic::maxnum: { Slot c = fcmpS(id == Intrinsic::minnum ? CmpInst::FCMP_OLT : CmpInst::FCMP_OGT, a[0], a[1], w); *d = se(mkIte(ex(c, 1), ex(a[0], w), ex(a[1], w))); return true; }
  case Intrinsic::copysign: { u64 sm = w == 64 ? 1ull << 63 : 0x80000000ull; *d = se(mkBin(O_OR, mkBin(O_AND, ex(a[0], w), mkConst(~sm, w)), mkBin(O_AND, ex(a[1], w), mkConst(sm, w)))); return true; }
  case Intrinsic::pow: case Intrinsic::exp: case Intrinsic::exp2: case Intrinsic::log: case Intrinsic::log2: case Intrinsic::log10: case Intrinsic::sin: case Intrinsic::cos: {
    u64 x = conc(a[0], w, "libm argument"), y = a.size() > 1 ? conc(a[1], w, "libm argument") : 0; double p = w == 64 ? asd(x) : asf(x), q = w == 64 ? asd(y) : asf(y), r;
    switch (id) { case Intrinsic::pow: r = pow(p, q); break; case Intrinsic::exp: r = exp(p); break; case Intrinsic::exp2: r = exp2(p); break; case Intrinsic::log: r = log(p); break; case Intrinsic::log2: r = log2(p); break; case Intrinsic::log10: r = log10(p); break; case Intrinsic::sin: r = sin(p); break; default: r = cos(p); }
    *d = sl(w == 64 ? dbits(r) : fbits((float)r)); return true; }
  case Intrinsic::powi: { u64 x = conc(a[0], w, "powi"), y = conc(a[1], 32, "powi"); double r = pow(w == 64 ? asd(x) : asf(x), (int)y); *d = sl(w == 64 ? dbits(r) : fbits((float)r)); return true; }
  case Intrinsic::ldexp: { u64 x = conc(a[0], w, "ldexp"), y = conc(a[1], 32, "ldexp"); double r = ldexp(w == 64 ? asd(x) : asf(x), (int)y); *d = sl(w == 64 ? dbits(r) : fbits((float)r)); return true; }
  case Intrinsic::is_fpclass: { u64 x = conc(a[0], cs.aw[0], "fpclass"); double v = cs.aw[0] == 64 ? asd(x) : asf(x); u64 t = a[1].c; bool r = false; if (std::isnan(v)) r = t & 3; else if (std::isinf(v)) r = t & (v < 0 ? 4 : 512); else if (v == 0) r = t & (std::signbit(v) ? 0x20 : 0x40); else r = t & (v < 0 ? (std::isnormal(v) ? 8 : 16) : (std::isnormal(v) ? 256 : 128)); *d = sl(r); return true; }
  case Intrinsic::vastart: {
    std::vector<Slot> *va = FR->va; u64 n = va ? va->size() : 0; u64 area = heapAlloc(n * 8 + 8); for (u64 i = 0; i < n; i++) storeC(area + 8 * i, (*va)[i], 8);
    u64 p = a[0].c; storeC(p, sl(48), 4); storeC(p + 4, sl(176), 4); storeC(p + 8, sl(area), 8); storeC(p + 16, sl(0), 8); return true; }
  case Intrinsic::vaend: return true;
  case Intrinsic::vacopy: copyMem(a[0].c, a[1].c, 24); return true;
  case Intrinsic::vector_reduce_add: case Intrinsic::vector_reduce_or: case Intrinsic::vector_reduce_and: case Intrinsic::vector_reduce_xor: case Intrinsic::vector_reduce_mul: {
    int op = id == Intrinsic::vector_reduce_add ? O_ADD : id == Intrinsic::vector_reduce_or ? O_OR : id == Intrinsic::vector_reduce_and ? O_AND : id == Intrinsic::vector_reduce_mul ? O_MUL : O_XOR; Slot r = a[0]; for (size_t i = 1; i < a.size(); i++) r = binS(op, r, a[i], w); *d = r; return true; }
  default: unsupported("intrinsic " + (cs.f ? cs.f->name : std::string("?")));
  }
}
static Slot fbin(unsigned o, const Slot &a, const Slot &b, unsigned w) {
  int op = o == Instruction::FAdd ? O_FADD : o == Instruction::FSub ? O_FSUB : o == Instruction::FMul ? O_FMUL : o == Instruction::FDiv ? O_FDIV : -1;
  if (op < 0) { u64 x = conc(a, w, "frem"), y = conc(b, w, "frem"); double r = fmod(w == 64 ? asd(x) : asf(x), w == 64 ? asd(y) : asf(y)); return sl(w == 64 ? dbits(r) : fbits((float)r)); }
  if (!a.e && !b.e) return sl((u64)foldOp(op, w, w, a.c, b.c, 0, 0, w));
  return se(mkF(op, w, ex(a, w), ex(b, w)));
}
static E wide(const Slot &lo, const Slot &hi, unsigned w) { return mkConcat(ex(hi, w - 64), ex(lo, 64)); }
static u64 tick = 0;
static void run() { // until current path ends; returns when main coroutine's last frame returns
  while (true) {
    Frame &f = *FR; const Ins &I = f.f->code[f.ip];
    nins++;
    if ((++tick & 0xfffff) == 0) { checkStop(); if (nins > MAXINS) { incomplete("instruction budget"); endPath(); } }
    switch (I.op) {
    case I_NOP: f.ip++; break;
    case I_MOV: f.s[I.d] = G(f, I.a); f.ip++; break;
    case I_BIN: f.s[I.d] = binS(I.c, G(f, I.a), G(f, I.b), I.w); f.ip++; break;
    case I_ICMP: f.s[I.d] = icmpS(I.c, G(f, I.a), G(f, I.b), I.w); f.ip++; break;
    case I_FCMP: f.s[I.d] = fcmpS(I.c, G(f, I.a), G(f, I.b), I.w); f.ip++; break;
    case I_FBIN: f.s[I.d] = fbin(I.c, G(f, I.a), G(f, I.b), I.w); f.ip++; break;
    case I_FNEG: { const Slot &a = G(f, I.a); u64 m = I.w == 64 ? 1ull << 63 : 0x80000000ull; if (!a.e) f.s[I.d] = sl(a.c ^ m); else f.s[I.d] = se(mkBin(O_XOR, a.e, mkConst(m, I.w))); f.ip++; break; }
    case I_ZEXT: { const Slot &a = G(f, I.a); f.s[I.d] = a.e ? se(mkZExt(a.e, I.w)) : sl(a.c); f.ip++; break; }
    case I_SEXT: { const Slot &a = G(f, I.a); unsigned wf = I.b; f.s[I.d] = a.e ? se(mkSExt(a.e, I.w)) : sl((u64)((int64_t)(a.c << (64 - wf)) >> (64 - wf)) & mask64(I.w)); f.ip++; break; }
    case I_TRUNC: { const Slot &a = G(f, I.a); f.s[I.d] = a.e ? se(mkExtract(a.e, 0, I.w)) : sl(a.c & mask64(I.w)); f.ip++; break; }
    case I_SELECT: { const Slot &c = G(f, I.a); if (!c.e) f.s[I.d] = c.c ? G(f, I.b) : G(f, I.c); else f.s[I.d] = se(mkIte(simpKnown(c.e), ex(G(f, I.b), I.w), ex(G(f, I.c), I.w))); f.ip++; break; }
    case I_LOAD: {
      Slot p = G(f, I.a); if (p.e) { if (I.imm) p = se(mkBin(O_ADD, p.e, mkConst(I.imm, 64))); } else p.c += I.imm;
      if (I.b == 10) { u64 a = conc(p, 64, "fp80 load"); memCheck(a, 10, false); long double ld = 0; memcpy(&ld, (void *)a, 10); f.s[I.d] = sl(dbits((double)ld)); f.ip++; break; }
      Slot v = loadS(p, I.b);
      if (I.w < (unsigned)I.b * 8) { if (v.e) v = se(mkExtract(v.e, 0, I.w)); else v.c &= mask64(I.w); }
      f.s[I.d] = v; f.ip++; break; }
    case I_STORE: {
      Slot p = G(f, I.a); if (p.e) { if (I.imm) p = se(mkBin(O_ADD, p.e, mkConst(I.imm, 64))); } else p.c += I.imm;
      if (I.b == 10) { u64 a = conc(p, 64, "fp80 store"); memCheck(a, 10, true); long double ld = asd(conc(G(f, I.d), 64, "fp80 store")); memcpy((void *)a, &ld, 10); if (inArena(a)) memset(&fl(a), 1, 10); f.ip++; break; }
      storeS(p, G(f, I.d), I.b); f.ip++; break; }
    case I_ADDI: { const Slot &a = G(f, I.a); f.s[I.d] = a.e ? se(mkBin(O_ADD, a.e, mkConst(I.imm, 64))) : sl(a.c + I.imm); f.ip++; break; }
    case I_GEP: {
      Slot b = G(f, I.a); u64 off = I.imm; E sym = 0;
      for (auto &t : ((GepI *)I.p)->idx) { const Slot &x = G(f, std::get<0>(t)); unsigned w = std::get<2>(t); if (!x.e) off += std::get<1>(t) * (w < 64 ? (u64)((int64_t)(x.c << (64 - w)) >> (64 - w)) : x.c); else { E e = mkBin(O_MUL, mkSExt(x.e, 64), mkConst(std::get<1>(t), 64)); sym = sym ? mkBin(O_ADD, sym, e) : e; } }
      if (!b.e && !sym) f.s[I.d] = sl(b.c + off);
      else { E e = ex(b, 64); if (sym) e = mkBin(O_ADD, sym, e); f.s[I.d] = se(mkBin(O_ADD, e, mkConst(off, 64))); }
      f.ip++; break; }
    case I_BR: take(((BrI *)I.p)->t); break;
    case I_CBR: { const Slot &c = G(f, I.a); bool t = c.e ? decide(c.e) : c.c; take(t ? ((BrI *)I.p)->t : ((BrI *)I.p)->f); break; }
    case I_SWITCH: {
      SwitchI *s = (SwitchI *)I.p; Slot c = G(f, I.a); int e = 0;
      if (!c.e) { for (auto &k : s->cases) if (k.first == c.c) { e = k.second; break; } }
      else for (auto &k : s->cases) if (decide(mkCmp(O_EQ, c.e, mkConst(k.first, I.w)))) { e = k.second; break; }
      take(s->edges[e]); break; }
    case I_RET: {
      Slot rv[64]; size_t n = I.imm; std::vector<int> *o = (std::vector<int> *)I.p;
      if (n > 64) unsupported("large return aggregate");
      for (size_t i = 0; i < n; i++) rv[i] = G(f, (*o)[i]);
      CallSite *cs = f.cs; popFrame();
      if (!cs) { // bottom of coroutine
        if (curCo == 0) return;
        CO->done = true; switchCo(0); break;
      }
      for (size_t i = 0; i < n && i < (size_t)cs->nret; i++) FR->s[cs->d + i] = rv[i];
      afterCall(cs);
      break; }
    case I_CALL: {
      CallSite *cs = (CallSite *)I.p; u64 addr = 0;
      if (cs->indirect) { Slot s = G(f, cs->fop); addr = s.e ? concretise(s.e, "function pointer", 256) : s.c; }
      doCall(*cs, cs->f, addr); break; }
    case I_UNREACH: violationEnd("unreachable", "reached code the compiler assumed unreachable");
    case I_ALLOCA: { u64 n = conc(G(f, I.a), 64, "alloca size"); f.s[I.d] = sl(stackAlloc(n * I.imm, I.b)); f.ip++; break; }
    case I_SI2F: { const Slot &a = G(f, I.a); unsigned wf = I.b; f.s[I.d] = a.e ? se(mkF(O_SI2F, I.w, a.e)) : sl((u64)foldOp(O_SI2F, I.w, wf, a.c, 0, 0, 0, 0)); f.ip++; break; }
    case I_UI2F: { const Slot &a = G(f, I.a); unsigned wf = I.b; f.s[I.d] = a.e ? se(mkF(O_UI2F, I.w, a.e)) : sl((u64)foldOp(O_UI2F, I.w, wf, a.c, 0, 0, 0, 0)); f.ip++; break; }
    case I_F2SI: { const Slot &a = G(f, I.a); f.s[I.d] = a.e ? se(mkF(O_F2SI, I.w, a.e)) : sl((u64)foldOp(O_F2SI, I.w, I.b, a.c, 0, 0, 0, 0)); f.ip++; break; }
    case I_F2UI: { const Slot &a = G(f, I.a); f.s[I.d] = a.e ? se(mkF(O_F2UI, I.w, a.e)) : sl((u64)foldOp(O_F2UI, I.w, I.b, a.c, 0, 0, 0, 0)); f.ip++; break; }
    case I_FEXT: { const Slot &a = G(f, I.a); f.s[I.d] = a.e ? se(mkF(O_FEXT, 64, a.e)) : sl(dbits((double)asf(a.c))); f.ip++; break; }
    case I_FTRUNC: { const Slot &a = G(f, I.a); f.s[I.d] = a.e ? se(mkF(O_FTRUNC, 32, a.e)) : sl(fbits((float)asd(a.c))); f.ip++; break; }
    case I_WBIN: {
      int a1 = (int)(u32)(I.imm >> 32), b1 = (int)(u32)I.imm; E x = wide(G(f, I.a), G(f, a1), I.w), y = wide(G(f, I.b), G(f, b1), I.w);
      if ((I.c == O_UDIV || I.c == O_UREM || I.c == O_SDIV || I.c == O_SREM) && decide(mkCmp(O_EQ, y, mkConst(0, I.w)))) violationEnd("arithmetic", "division by zero");
      E r = mkBin(I.c, x, y); f.s[I.d] = se(mkExtract(r, 0, 64)); f.s[I.d + 1] = se(mkExtract(r, 64, I.w - 64)); f.ip++; break; }
    case I_WICMP: {
      int a1 = (int)(u32)(I.imm >> 32), b1 = (int)(u32)I.imm; E x = wide(G(f, I.a), G(f, a1), I.w), y = wide(G(f, I.b), G(f, b1), I.w); E r;
      switch (I.c) {
      case CmpInst::ICMP_EQ: r = mkCmp(O_EQ, x, y); break; case CmpInst::ICMP_NE: r = mkNot(mkCmp(O_EQ, x, y)); break;
      case CmpInst::ICMP_UGT: r = mkCmp(O_ULT, y, x); break; case CmpInst::ICMP_UGE: r = mkCmp(O_ULE, y, x); break; case CmpInst::ICMP_ULT: r = mkCmp(O_ULT, x, y); break; case CmpInst::ICMP_ULE: r = mkCmp(O_ULE, x, y); break;
      case CmpInst::ICMP_SGT: r = mkCmp(O_SLT, y, x); break; case CmpInst::ICMP_SGE: r = mkCmp(O_SLE, y, x); break; case CmpInst::ICMP_SLT: r = mkCmp(O_SLT, x, y); break; default: r = mkCmp(O_SLE, x, y); }
      f.s[I.d] = se(r); f.ip++; break; }
    case I_RMW: {
      Slot p = G(f, I.a); unsigned n = (I.w + 7) / 8; Slot old = loadS(p, n), v = G(f, I.b), r;
      switch (I.c) { case AtomicRMWInst::Xchg: r = v; break; case AtomicRMWInst::Add: r = binS(O_ADD, old, v, I.w); break; case AtomicRMWInst::Sub: r = binS(O_SUB, old, v, I.w); break; case AtomicRMWInst::And: r = binS(O_AND, old, v, I.w); break; case AtomicRMWInst::Or: r = binS(O_OR, old, v, I.w); break; default: unsupported("atomicrmw"); }
      storeS(p, r, n); f.s[I.d] = old; f.ip++; break; }
    case I_CMPXCHG: { Slot p = G(f, I.a); unsigned n = (I.w + 7) / 8; Slot old = loadS(p, n); Slot eq = icmpS(CmpInst::ICMP_EQ, old, G(f, I.b), I.w); if (eq.e ? decide(eq.e) : eq.c) { storeS(p, G(f, I.c), n); f.s[I.d + 1] = sl(1); } else f.s[I.d + 1] = sl(0); f.s[I.d] = old; f.ip++; break; }
    case I_LPAD: f.s[I.d] = sl(pendObj); f.s[I.d + 1] = sl(pendSel); f.ip++; break;
    case I_RESUME: { u64 o = G(f, I.a).c; u64 ti = curExTi; popFrame(); // continue unwinding from caller
      if (!FR) violationEnd("exception", "exception escaped"); unwind(o, ti); break; }
    case I_UNSUP: unsupported(*(std::string *)I.p + " in " + demangle(f.f->name));
    default: unsupported("opcode");
    }
  }
}
// ------------------------------------------------------------ handlers
#define H(n) HANDLERS[n] = [](CallSite & cs, std::vector<Slot> &a, Slot *r) -> bool
static u64 CA(std::vector<Slot> &a, size_t i, const char *w) { return a[i].e ? concretise(a[i].e, w) : a[i].c; }
static bool doFree(u64 p) {
  if (!p) return true;
  if (inArena(p)) { if (!heapValid(p)) violationEnd("memory", (((u64 *)p)[-1] == 0xDEADull ? "double free of " : "free of non-heap pointer ") + memDesc(p)); heapFree(p); return true; }
  free((void *)p); return true;
}
static void setupHandlers() {
  H("malloc") { *r = sl(heapAlloc(CA(a, 0, "malloc size"))); return false; };
  HANDLERS["_Znwm"] = HANDLERS["_Znam"] = HANDLERS["malloc"];
  HANDLERS["_ZnwmRKSt9nothrow_t"] = HANDLERS["_ZnamRKSt9nothrow_t"] = HANDLERS["malloc"];
  H("_ZnwmSt11align_val_t") { u64 n = CA(a, 0, "new size"), al = CA(a, 1, "align"); (void)al; *r = sl(heapAlloc(n)); return false; };
  HANDLERS["_ZnamSt11align_val_t"] = HANDLERS["_ZnwmSt11align_val_t"];
  H("aligned_alloc") { *r = sl(heapAlloc(CA(a, 1, "size"))); return false; };
  H("calloc") { *r = sl(heapAlloc(CA(a, 0, "calloc") * CA(a, 1, "calloc"))); return false; };
  H("realloc") { u64 p = CA(a, 0, "realloc"), n = CA(a, 1, "realloc"); u64 q = heapAlloc(n); if (p) { u64 o = ((u64 *)p)[-2]; copyMem(q, p, std::min(o, n)); doFree(p); } *r = sl(q); return false; };
  H("free") { doFree(CA(a, 0, "free")); return false; };
  for (const char *n : {"_ZdlPv", "_ZdaPv", "_ZdlPvm", "_ZdaPvm", "_ZdlPvSt11align_val_t", "_ZdaPvSt11align_val_t", "_ZdlPvmSt11align_val_t", "_ZdaPvmSt11align_val_t", "_ZdlPvRKSt9nothrow_t"}) HANDLERS[n] = HANDLERS["free"];
  H("memcpy") { u64 n = CA(a, 2, "memcpy size"), d = CA(a, 0, "memcpy dst"), s = CA(a, 1, "memcpy src"); copyMem(d, s, n); if (r) *r = a[0]; return false; };
  HANDLERS["memmove"] = HANDLERS["memcpy"];
  H("memset") { u64 n = CA(a, 2, "memset size"), d = CA(a, 0, "memset dst"); Slot v = a[1]; if (v.e) v = se(mkExtract(v.e, 0, 8)); if (n) memCheck(d, n, true); if (!v.e) { memset((void *)d, (int)v.c, n); if (inArena(d) && n) memset(&fl(d), 1, n); } else for (u64 i = 0; i < n; i++) storeC(d + i, v, 1); if (r) *r = a[0]; return false; };
  H("memcmp") {
    u64 n = CA(a, 2, "memcmp size"), p = CA(a, 0, "memcmp"), q = CA(a, 1, "memcmp");
    if (!n) { *r = sl(0); return false; }
    memCheck(p, n, false); memCheck(q, n, false);
    if (!hasSym(p, n) && !hasSym(q, n)) { *r = sl((u32)memcmp((void *)p, (void *)q, n)); return false; }
    E res = mkConst(0, 32);
    for (int64_t i = n - 1; i >= 0; i--) { E x = ex(loadC(p + i, 1), 8), y = ex(loadC(q + i, 1), 8); res = mkIte(mkCmp(O_EQ, x, y), res, mkBin(O_SUB, mkZExt(x, 32), mkZExt(y, 32))); }
    *r = se(res); return false; };
  HANDLERS["bcmp"] = HANDLERS["memcmp"];
  H("strlen") { u64 p = CA(a, 0, "strlen"); u64 i = 0; for (;; i++) { Slot c = loadC(p + i, 1); if (!c.e) { if (!c.c) break; } else if (decide(mkCmp(O_EQ, c.e, mkConst(0, 8)))) break; } *r = sl(i); return false; };
  auto scmp = [](std::vector<Slot> &a, Slot *r, u64 n) {
    u64 p = CA(a, 0, "strcmp"), q = CA(a, 1, "strcmp");
    for (u64 i = 0; i < n; i++) {
      Slot x = loadC(p + i, 1), y = loadC(q + i, 1);
      if (!x.e && !y.e) { if (x.c != y.c) { *r = sl((u32)((int)x.c - (int)y.c)); return; } if (!x.c) break; continue; }
      E X = ex(x, 8), Y = ex(y, 8);
      if (!decide(mkCmp(O_EQ, X, Y))) { *r = se(mkBin(O_SUB, mkZExt(X, 32), mkZExt(Y, 32))); return; }
      if (decide(mkCmp(O_EQ, X, mkConst(0, 8)))) break;
    }
    *r = sl(0);
  };
  static auto SC = scmp;
  H("strcmp") { SC(a, r, ~0ull); return false; };
  H("strncmp") { SC(a, r, CA(a, 2, "strncmp n")); return false; };
  H("memchr") { u64 p = CA(a, 0, "memchr"), n = CA(a, 2, "memchr n"); Slot ch = a[1]; if (ch.e) ch = se(mkExtract(ch.e, 0, 8)); else ch.c &= 255; for (u64 i = 0; i < n; i++) { Slot c = loadC(p + i, 1); Slot q = icmpS(CmpInst::ICMP_EQ, c, ch, 8); if (q.e ? decide(q.e) : q.c) { *r = sl(p + i); return false; } } *r = sl(0); return false; };
  H("strchr") { u64 p = CA(a, 0, "strchr"); Slot ch = a[1]; if (ch.e) ch = se(mkExtract(ch.e, 0, 8)); else ch.c &= 255; for (u64 i = 0;; i++) { Slot c = loadC(p + i, 1); Slot q = icmpS(CmpInst::ICMP_EQ, c, ch, 8); if (q.e ? decide(q.e) : q.c) { *r = sl(p + i); return false; } q = icmpS(CmpInst::ICMP_EQ, c, sl(0), 8); if (q.e ? decide(q.e) : q.c) { *r = sl(0); return false; } } };
  H("strcpy") { u64 d = CA(a, 0, "strcpy"), s = CA(a, 1, "strcpy"); for (u64 i = 0;; i++) { Slot c = loadC(s + i, 1); storeC(d + i, c, 1); Slot q = icmpS(CmpInst::ICMP_EQ, c, sl(0), 8); if (q.e ? decide(q.e) : q.c) break; } *r = a[0]; return false; };
  H("abort") { violationEnd("abort", "abort() called"); };
  HANDLERS["_ZSt9terminatev"] = HANDLERS["__cxa_pure_virtual"] = HANDLERS["__cxa_call_unexpected"] = HANDLERS["__clang_call_terminate"] = HANDLERS["abort"];
  H("__assert_fail") { violationEnd("assert", "assertion failed: " + cstr(CA(a, 0, "string arg")) + " at " + cstr(CA(a, 1, "string arg")) + ":" + std::to_string(a[2].c)); };
  H("exit") { if (exitAllowed) { reach("exit"); naturalEnd(); } violationEnd("exit", "exit(" + std::to_string((int)a[0].c) + ") called"); };
  HANDLERS["_exit"] = HANDLERS["quick_exit"] = HANDLERS["exit"];
  H("__cxa_atexit") { if (r) *r = sl(0); return false; };
  HANDLERS["atexit"] = HANDLERS["__cxa_thread_atexit"] = HANDLERS["__cxa_atexit"];
  H("__cxa_guard_acquire") { u64 p = a[0].c; Slot v = loadC(p, 1); *r = sl(v.c ? 0 : 1); return false; };
  H("__cxa_guard_release") { storeC(a[0].c, sl(1), 1); return false; };
  H("__cxa_guard_abort") { return false; };
  H("__cxa_allocate_exception") { *r = sl(heapAlloc(CA(a, 0, "exc"))); return false; };
  H("__cxa_free_exception") { return false; };
  H("__cxa_throw") { unwind(a[0].c, a[1].c); return true; };
  H("__cxa_begin_catch") { caught.push_back({a[0].c, curExTi, false}); *r = a[0]; return false; };
  H("__cxa_end_catch") { if (!caught.empty()) caught.pop_back(); return false; };
  H("__cxa_get_exception_ptr") { *r = a[0]; return false; };
  H("__cxa_rethrow") { Exc e = caught.empty() ? Exc{0, 0, false} : caught.back(); if (!caught.empty()) caught.pop_back(); unwind(e.obj, e.tinfo); return true; };
  H("_ZSt18uncaught_exceptionv") { *r = sl(0); return false; };
  H("_ZSt19uncaught_exceptionsv") { *r = sl(0); return false; };
  H("__gxx_personality_v0") { return false; };
  H("printf") { if (r) *r = sl(0); return false; };
  for (const char *n : {"puts", "putchar", "fputs", "fputc", "fwrite", "fprintf", "vprintf", "vfprintf", "perror", "fflush", "_ZNSo5flushEv"}) HANDLERS[n] = HANDLERS["printf"];
  H("_ZNSo5flushEv") { *r = a[0]; return false; };
  H("usleep") { if (r) *r = sl(0); return false; };
  HANDLERS["sleep"] = HANDLERS["usleep"];
  for (const char *n : {"floor", "ceil", "trunc", "round", "rint", "nearbyint", "sqrt", "fabs", "floorf", "ceilf", "truncf", "roundf", "sqrtf", "fabsf"}) (void)n;
#define RND(nm, w, k) H(nm) { *r = roundS(a[0], w, k); return false; }
  RND("floor", 64, 3); RND("ceil", 64, 2); RND("trunc", 64, 4); RND("round", 64, 1); RND("rint", 64, 0); RND("nearbyint", 64, 0);
  RND("floorf", 32, 3); RND("ceilf", 32, 2); RND("truncf", 32, 4); RND("roundf", 32, 1);
  H("sqrt") { *r = a[0].e ? se(mkF(O_FSQRT, 64, a[0].e)) : sl(dbits(sqrt(asd(a[0].c)))); return false; };
  // ---- harness API
  H("sx_in") {
    std::string nm = cstr(CA(a, 0, "string arg")); unsigned w = (unsigned)a[1].c; int occ = OCC[nm]++;
    E e = mkVar(w, nm + "#" + std::to_string(occ)); INPUTS.push_back({nm, occ, e, w});
    *r = se(mkZExt(e, 64)); return false; };
  H("sx_assume") {
    if (!a[0].e) { if (!a[0].c) endPath(false); return false; }
    E c = simpKnown(a[0].e); if (isC(c)) { if (!cval(c)) endPath(false); return false; }
    if (!evalE(c, M)) { Model m2; Res q = query(c, m2); if (q == R_UNSAT) endPath(false); if (q == R_UNKNOWN) { incomplete("solver unknown at assume"); endPath(false); } M = m2; }
    addPC(c); return false; };
  H("sx_check") {
    SH->checks++;
    if (!a[0].e) { if (a[0].c) { SH->checksConst++; return false; } violationEnd("check", cstr(CA(a, 1, "string arg"))); }
    E c = simpKnown(a[0].e);
    if (isC(c)) { if (cval(c)) { SH->checksSym++; return false; } violationEnd("check", cstr(CA(a, 1, "string arg"))); }
    SH->checksSym++;
    if (!evalE(c, M)) { // current model already refutes
      recordViolation("check", cstr(CA(a, 1, "string arg")), M);
      checkStop();
      Model m2; if (query(c, m2) != R_SAT) endPath(); M = m2; addPC(c); return false;
    }
    Model m2; Res q = query(mkNot(c), m2);
    if (q == R_UNSAT) { KNOWN[c] = 1; KNOWN[mkNot(c)] = 0; return false; }
    if (q == R_UNKNOWN) { incomplete("solver unknown at check"); addPC(c); return false; }
    recordViolation("check", cstr(CA(a, 1, "string arg")), m2); checkStop(); addPC(c); return false; };
  H("sx_fork") { *r = a[0].e ? sl(concretise(a[0].e, "sx_fork")) : a[0]; return false; };
  H("sx_may") { *r = sl(0); if (!a[0].e) { *r = sl(a[0].c != 0); return false; } E c = simpKnown(a[0].e); if (isC(c)) { *r = sl(cval(c) != 0); return false; } if (evalE(c, M)) { *r = sl(1); return false; } Model m2; Res q = query(c, m2); if (q == R_UNKNOWN) incomplete("solver unknown at sx_may"); *r = sl(q != R_UNSAT); return false; };
  H("sx_edge") { if (a[0].e || a[1].e || a[0].c >= 4096 || a[1].c >= 4096) { incomplete("edge outside the table"); return false; } u64 i = a[0].c * 4096 + a[1].c; u8 b = 1 << (i & 7); if (!(SH->edges[i >> 3].fetch_or(b) & b)) SH->nedge++; return false; };
  H("sx_ite") { if (!a[0].e) *r = a[0].c ? a[1] : a[2]; else *r = se(mkIte(a[0].e, ex(a[1], 64), ex(a[2], 64))); return false; };
  H("sx_reach") { reach(cstr(CA(a, 0, "string arg")).c_str()); return false; };
  H("sx_fail") { violationEnd("check", cstr(CA(a, 0, "string arg"))); };
  H("sx_end") { naturalEnd(); };
  H("sx_symbolic") { *r = sl(1); return false; };
  H("sx_is_sym") { *r = sl(a[0].e != 0); return false; };
  H("sx_allow_exit") { exitAllowed = a[0].c; return false; };
  H("sx_debug") { if (VERB) { std::string s = cstr(CA(a, 0, "string arg")); if (a[1].e) fprintf(stderr, "[dbg %d] %s = %s\n", getpid(), s.c_str(), toSmt(a[1].e).c_str()); else fprintf(stderr, "[dbg %d] %s = %lld\n", getpid(), s.c_str(), (long long)a[1].c); } return false; };
  H("sx_str") { if (VERB) fprintf(stderr, "[str] %s\n", cstr(CA(a, 0, "string arg")).c_str()); return false; };
  H("sx_co_new") {
    int id = COS.size(); if (id >= MAXCO) unsupported("too many coroutines");
    Co *c = new Co; u64 n = 1 << 16; c->base = c->top = (Slot *)mmap(0, n * sizeof(Slot) * 16, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); c->fr.reserve(256); c->stkLo = c->sp = COSTK + COSTK_SZ * id; c->stkHi = c->stkLo + COSTK_SZ; COS.push_back(c);
    Func *fn = funcAt(CA(a, 0, "co fn")); if (!fn) unsupported("coroutine entry");
    *r = sl(id); FR->ip++; int me = curCo;
    switchCo(id); pushFrame(fn, {a[1]}, nullptr); switchCo(me); return true; };
  H("sx_co_reset") {
    int id = (int)CA(a, 0, "co id"); Func *fn = funcAt(CA(a, 1, "co fn")); if (!fn) unsupported("coroutine entry"); if (id == curCo) unsupported("coroutine resets itself");
    FR->ip++; int me = curCo; switchCo(id); while (!CO->fr.empty()) popFrame(); CO->done = false; CO->sp = CO->stkLo;
    pushFrame(fn, {a[2]}, nullptr); switchCo(me); return true; };
  H("sx_co_switch") { int id = (int)CA(a, 0, "co id"); if (COS[id]->done) return false; FR->ip++; switchCo(id); return true; };
  H("sx_co_cur") { *r = sl(curCo); return false; };
  H("sx_co_done") { *r = sl(COS[CA(a, 0, "co id")]->done); return false; };
  for (const char *n : {"_ZSt18_Rb_tree_incrementPSt18_Rb_tree_node_base", "strtol"}) PURE.insert(n);
  PURE.erase("strtol");
}
static void segv(int sig, siginfo_t *si, void *) {
  char b[128]; snprintf(b, sizeof b, "signal %d at address %p", sig, si->si_addr);
  if (!COS.empty()) { u64 a = (u64)si->si_addr; if (a == 0 || !inArena(a)) recordViolation("memory", std::string("invalid access, ") + b, M); }
  incomplete(std::string("engine signal: ") + b);
  endPath();
}
static int rootRun(const std::vector<std::string> &entry) {
  Co *c = new Co; c->base = c->top = (Slot *)mmap(0, (1ull << 23) * sizeof(Slot), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); c->fr.reserve(20100); c->stkLo = c->sp = STK0; c->stkHi = STK0 + STK0_SZ; COS.push_back(c); CO = c;
  // global constructors
  if (GlobalVariable *GC = MOD->getGlobalVariable("llvm.global_ctors")) if (auto *A = dyn_cast_or_null<ConstantArray>(GC->getInitializer())) {
    std::vector<std::pair<u64, Function *>> v;
    for (auto &o : A->operands()) { auto *S = cast<ConstantStruct>(o); if (auto *F = dyn_cast<Function>(S->getOperand(1)->stripPointerCasts())) v.push_back({cast<ConstantInt>(S->getOperand(0))->getZExtValue(), F}); }
    std::stable_sort(v.begin(), v.end(), [](auto &x, auto &y) { return x.first < y.first; });
    for (auto &p : v) { pushFrame(getFunc(p.second), {}, nullptr); run(); }
  }
  for (auto &e : entry) {
    Function *F = MOD->getFunction(e);
    if (!F) { fprintf(stderr, "symx: no entry %s\n", e.c_str()); incomplete("no entry function"); endPath(); }
    pushFrame(getFunc(F), {}, nullptr); run();
  }
  naturalEnd();
}
int main(int argc, char **argv) {
  struct rlimit rl; getrlimit(RLIMIT_STACK, &rl);
  if (rl.rlim_cur != RLIM_INFINITY && rl.rlim_cur < (2000ull << 20) && !getenv("SYMX_STACK")) { rl.rlim_cur = std::min<rlim_t>(rl.rlim_max, 2000ull << 20); setrlimit(RLIMIT_STACK, &rl); setenv("SYMX_STACK", "1", 1); execv("/proc/self/exe", argv); }
  clock_gettime(CLOCK_MONOTONIC, &T0);
  std::vector<std::string> entry; std::string file;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    auto nx = [&] { return std::string(argv[++i]); };
    if (a == "--entry") entry.push_back(nx()); else if (a == "--out") OUTDIR = nx(); else if (a == "--time") T_LIMIT = atof(nx().c_str()); else if (a == "--jobs") JOBS = atoi(nx().c_str()); else if (a == "--max-viol") MAXVIOL = atoi(nx().c_str());
    else if (a == "--max-paths") MAXPATHS = atoll(nx().c_str()); else if (a == "--max-ins") MAXINS = atoll(nx().c_str()); else if (a == "--qtime") SOLVER_TIMEOUT_MS = atoi(nx().c_str()); else if (a == "-v") VERB = true; else if (a == "--keep-going") HALT_ON_FIRST = false; else file = a;
  }
  if (entry.empty()) entry.push_back("harness");
  SH = (Shared *)mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  sem_init(&SH->slots, 1, JOBS);
  if (mmap((void *)ARENA, ASIZE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0) != (void *)ARENA) { perror("arena"); return 3; }
  FLAGS = (u8 *)mmap(0, ASIZE + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  SYM = (u64 *)mmap(0, ASIZE * 8, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (FLAGS == MAP_FAILED || SYM == MAP_FAILED) { perror("shadow"); return 3; }
  freeLists = new std::deque<u64>[NCLS];
  LLVMContext ctx; CTX = &ctx; SMDiagnostic err; auto m = parseIRFile(file, err, ctx);
  if (!m) { err.print("symx", errs()); return 3; }
  MOD = m.get(); DL = &m->getDataLayout();
  setupHandlers();
  // globals
  for (auto &g : m->globals()) {
    if (g.getName().starts_with("llvm.")) continue;
    u64 n = DL->getTypeAllocSize(g.getValueType());
    if (g.isDeclaration()) { if (void *p = dlsym(RTLD_DEFAULT, g.getName().str().c_str())) { GADDR[&g] = (u64)p; continue; } }
    u64 al = std::max<u64>(16, g.getAlign().valueOrOne().value()); u64 a = (globTop + 16 + al - 1) & ~(al - 1);
    globTop = a + n + 16; if (globTop > GLOB_END) { fprintf(stderr, "symx: globals too big\n"); return 3; }
    memset(&fl(a), 1, n); GADDR[&g] = a;
  }
  for (auto &g : m->globals()) if (g.hasInitializer() && !g.getName().starts_with("llvm.")) initMem(GADDR[&g], g.getInitializer());
  stack_t ss; ss.ss_sp = malloc(1 << 20); ss.ss_size = 1 << 20; ss.ss_flags = 0; sigaltstack(&ss, 0);
  struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_sigaction = segv; sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER;
  fflush(stdout);
  double tload = now();
  // force translation of everything so that ids agree between processes
  for (auto &F : *m) getFunc(&F);
  pid_t p = fork();
  if (p == 0) { prctl(PR_SET_PDEATHSIG, SIGKILL); for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL}) sigaction(s, &sa, 0); sem_wait(&SH->slots); rootRun(entry); }
  int st; waitpid(p, &st, 0);
  if (!WIFEXITED(st) || WEXITSTATUS(st)) incomplete("root path died abnormally");
  // stats
  std::string sf = OUTDIR + "/stats.json"; FILE *o = fopen(sf.c_str(), "w");
  if (!o) o = stdout;
  fprintf(o, "{\"paths\":%llu,\"forks\":%llu,\"instructions\":%llu,\"queries\":%llu,\"sat\":%llu,\"unsat\":%llu,\"unknown\":%llu,\"solver_s\":%.3f,\"wall_s\":%.3f,\"load_s\":%.3f,\"checks\":%llu,\"checks_solver\":%llu,\"checks_concrete\":%llu,\"violations\":%llu,\"incomplete\":%llu,\"timeouts\":%llu,\"modelbad\":%llu,\"max_path_condition\":%llu,\"stopped\":%d,",
          (unsigned long long)SH->paths, (unsigned long long)SH->forks, (unsigned long long)SH->instrs, (unsigned long long)SH->queries, (unsigned long long)SH->qsat, (unsigned long long)SH->qunsat, (unsigned long long)SH->qunk, SH->solver_us / 1e6, now(), tload, (unsigned long long)SH->checks, (unsigned long long)SH->checksSym, (unsigned long long)SH->checksConst, (unsigned long long)SH->violations, (unsigned long long)SH->incomplete, (unsigned long long)SH->timeouts, (unsigned long long)SH->modelbad, (unsigned long long)SH->maxpc, (int)SH->stop);
  fprintf(o, "\"reach\":{"); for (int i = 0; i < std::min(256, (int)SH->nreach); i++) fprintf(o, "%s\"%s\":%llu", i ? "," : "", jesc(SH->reach[i].name).c_str(), (unsigned long long)SH->reach[i].n);
  if (SH->nedge) { fprintf(o, "},\"edges\":["); bool f1 = true; for (u64 i = 0; i < 4096ull * 4096; i++) if (SH->edges[i >> 3] >> (i & 7) & 1) { fprintf(o, "%s[%llu,%llu]", f1 ? "" : ",", (unsigned long long)(i >> 12), (unsigned long long)(i & 4095)); f1 = false; } fprintf(o, "],\"incomplete_why\":{"); }
  else fprintf(o, "},\"incomplete_why\":{"); for (int i = 0; i < std::min(64, (int)SH->nwhy); i++) fprintf(o, "%s\"%s\":%llu", i ? "," : "", jesc(SH->why[i].name).c_str(), (unsigned long long)SH->why[i].n);
  fprintf(o, "},\"functions\":["); bool first = true;
  for (auto *f : FUNCS) if (!f->decl && f->id < (1 << 17) && SH->funcs[f->id]) { std::string file; if (auto *sp = f->f->getSubprogram()) file = sp->getFilename().str(); fprintf(o, "%s[\"%s\",\"%s\"]", first ? "" : ",", jesc(demangle(f->name)).c_str(), jesc(file).c_str()); first = false; }
  fprintf(o, "]}\n"); if (o != stdout) fclose(o);
  return 0;
}
