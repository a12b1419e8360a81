// Hash-consed bit-vector expression DAG with an aggressive local simplifier.
// Everything is a bit-vector of width 1..128; a boolean is a width-1 vector.
#pragma once
#include <cassert>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <unordered_map>
#include <vector>
typedef uint32_t E; // node id; 0 = "no expression"
typedef unsigned __int128 u128;
typedef __int128 i128;
enum Op : uint8_t {
  O_NONE, O_CONST, O_VAR, O_ADD, O_SUB, O_MUL, O_UDIV, O_SDIV, O_UREM, O_SREM,
  O_AND, O_OR, O_XOR, O_SHL, O_LSHR, O_ASHR, O_CONCAT, O_EXTRACT, O_SEXT, O_ITE,
  O_EQ, O_ULT, O_ULE, O_SLT, O_SLE,
  // floating point on bit patterns (w = 32 or 64 operands)
  O_FADD, O_FSUB, O_FMUL, O_FDIV, O_FSQRT, O_FRND, // FRND: k = rounding mode (0 near-even,1 away,2 up,3 down,4 zero)
  O_FOEQ, O_FOLT, O_FOLE, O_FUNO, O_F2SI, O_F2UI, O_SI2F, O_UI2F, O_FEXT, O_FTRUNC
};
struct Node { uint8_t op; uint16_t w; E a, b, c; u128 k; };
extern std::vector<Node> NN;
static inline u128 maskw(unsigned w) { return w >= 128 ? ~(u128)0 : (((u128)1 << w) - 1); }
static inline i128 sx(u128 v, unsigned w) { if (w >= 128) return (i128)v; u128 s = (u128)1 << (w - 1); v &= maskw(w); return (i128)((v ^ s) - s); }
static inline double asd(u128 v) { uint64_t x = (uint64_t)v; double d; memcpy(&d, &x, 8); return d; }
static inline float asf(u128 v) { uint32_t x = (uint32_t)v; float d; memcpy(&d, &x, 4); return d; }
static inline uint64_t dbits(double d) { uint64_t x; memcpy(&x, &d, 8); return x; }
static inline uint32_t fbits(float d) { uint32_t x; memcpy(&x, &d, 4); return x; }

E mk(uint8_t op, unsigned w, E a = 0, E b = 0, E c = 0, u128 k = 0);
E mkConst(u128 v, unsigned w);
E mkVar(unsigned w, const std::string &name);
E mkBin(uint8_t op, E a, E b);
E mkCmp(uint8_t op, E a, E b);
E mkIte(E c, E a, E b);
E mkExtract(E a, unsigned lo, unsigned w);
E mkConcat(E hi, E lo);
E mkZExt(E a, unsigned w);
E mkSExt(E a, unsigned w);
E mkNot(E a); // boolean not (width 1) or bitwise
E mkF(uint8_t op, unsigned w, E a, E b = 0, u128 k = 0);
u128 foldOp(uint8_t op, unsigned w, unsigned wa, u128 a, u128 b, u128 c, u128 k, unsigned wb);
static inline bool isC(E e) { return NN[e].op == O_CONST; }
static inline u128 cval(E e) { return NN[e].k; }
static inline unsigned W(E e) { return NN[e].w; }

struct VarInfo { std::string name; unsigned w; E e; };
extern std::vector<VarInfo> VARS;
typedef std::vector<uint64_t> Model;
u128 evalE(E e, const Model &m);
const std::vector<uint32_t> &varsOf(E e);
u128 urangeMax(E e);        // cheap upper bound
unsigned knownTrailingZeros(E e);
