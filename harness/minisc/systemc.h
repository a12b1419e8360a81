// minisc: the subset of SystemC that rad-flow uses, written so that it can be executed
// symbolically (no branching on signal data).  Two-phase evaluate/update delta cycles,
// SC_METHODs before clocked threads, static sensitivity, synchronous reset restarts a
// clocked thread. Counterexamples are replayed against the real SystemC library.
#pragma once
#include <cassert>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <fstream>
#include <iomanip>
#include <iostream>
#include <limits>
#include <ostream>
#include <queue>
#include <map>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <utility>
#include <vector>
#include <algorithm>
#define MINISC 1
extern "C" {
int sx_co_new(void (*fn)(void *), void *arg);
void sx_co_switch(int id);
int sx_co_cur();
int sx_co_done(int id);
void sx_co_reset(int id, void (*fn)(void *), void *arg);
int sx_is_sym(uint64_t v);
}
namespace sc_core {
using std::ostream; using std::istream;
typedef uint64_t uint64; typedef int64_t int64;
enum sc_numrep { SC_NOBASE = 0, SC_BIN = 2, SC_OCT = 8, SC_DEC = 10, SC_HEX = 16 };
struct sc_report_error : std::runtime_error { sc_report_error(const char *m) : std::runtime_error(m) {} };
inline void sc_bounds(bool ok) { if (!ok) throw sc_report_error("sc_bv: out of bounds"); }

// ---------------------------------------------------------------- bit vectors
static inline uint64_t sc_m64(int n) { return n >= 64 ? ~0ull : n <= 0 ? 0 : ((1ull << n) - 1); }
struct bvbits { std::vector<uint64_t> w; int len = 0; };
template <class P> struct sc_proxy {
  const P &me() const { return static_cast<const P &>(*this); }
  uint64_t to_uint64() const { return me().word64(0); }
  unsigned to_uint() const { return (unsigned)me().word64(0); }
  unsigned long to_ulong() const { return (unsigned)me().word64(0); }
  int64_t to_int64() const { int n = me().length(); uint64_t v = me().word64(0); if (n >= 64) return (int64_t)v; return (int64_t)(v << (64 - n)) >> (64 - n); }
  int to_int() const { return (int)to_int64(); }
  long to_long() const { return (long)to_int64(); }
  bool or_reduce() const { uint64_t a = 0; for (int i = 0; i * 64 < me().length(); i++) a |= me().word64(i); return a != 0; }
  bool and_reduce() const { uint64_t a = 0; int n = me().length(); for (int i = 0; i * 64 < n; i++) a |= ~me().word64(i) & sc_m64(n - i * 64); return a == 0; }
  bool xor_reduce() const { uint64_t a = 0; for (int i = 0; i * 64 < me().length(); i++) a ^= me().word64(i); return __builtin_parityll(a); }
  bvbits bits() const { bvbits b; b.len = me().length(); for (int i = 0; i * 64 < b.len; i++) b.w.push_back(me().word64(i)); return b; }
  std::string to_string(sc_numrep r = SC_BIN, bool pre = true) const {
    std::string s; int n = me().length();
    if (r == SC_HEX) { for (int i = (n + 3) / 4 - 1; i >= 0; i--) s += "0123456789abcdef"[(me().word64(i / 16) >> (i % 16 * 4)) & 15]; return "0x0" + s; }
    for (int i = n - 1; i >= 0; i--) s += '0' + ((me().word64(i / 64) >> (i % 64)) & 1);
    return s;
  }
};
struct sc_subref_c : sc_proxy<sc_subref_c> { // read-only or read-write slice
  const uint64_t *p; int lo, n;
  sc_subref_c(const uint64_t *pp, int W, int hi, int l) : p(pp), lo(l), n(hi - l + 1) { sc_bounds(l >= 0 && hi >= l && hi < W); }
  int length() const { return n; }
  uint64_t word64(int i) const {
    int b = lo + i * 64, k = n - i * 64; if (k <= 0) return 0;
    int s = b % 64; uint64_t v = p[b / 64] >> s;
    if (s && k > 64 - s) v |= p[b / 64 + 1] << (64 - s);
    return v & sc_m64(k);
  }
  uint64_t operator[](int i) const { return (word64(i / 64) >> (i % 64)) & 1; }
};
struct sc_intv : sc_proxy<sc_intv> { // integer viewed as a vector of given length, sign extended
  int64_t v; bool neg; int n;
  sc_intv(uint64_t x, bool sgn, int len) : v((int64_t)x), neg(sgn && (int64_t)x < 0), n(len) {}
  int length() const { return n; }
  uint64_t word64(int i) const { int k = n - i * 64; if (k <= 0) return 0; return (i == 0 ? (uint64_t)v : (uint64_t)(neg ? ~0ull : 0)) & sc_m64(k); }
};
struct sc_strv : sc_proxy<sc_strv> { std::string s; sc_strv(const char *c) { if (c[0] == '0' && c[1] == 'b') c += 2; for (; *c; c++) if (*c != '_') s += *c; } int length() const { return s.size(); }
  uint64_t word64(int i) const { uint64_t v = 0; for (int b = 0; b < 64 && i * 64 + b < (int)s.size(); b++) if (s[s.size() - 1 - i * 64 - b] == '1') v |= 1ull << b; return v; } };
template <class P> inline void sc_store(uint64_t *d, int lo, int n, const sc_proxy<P> &src) { // d[lo+:n] = src zero-extended
  int nw = (n + 63) / 64; uint64_t tmp[256]; std::vector<uint64_t> big; uint64_t *t = tmp; if (nw > 256) { big.resize(nw); t = big.data(); }
  for (int i = 0; i < nw; i++) t[i] = src.me().word64(i);
  for (int i = 0; i < nw; i++) {
    int k = n - i * 64; if (k > 64) k = 64; uint64_t v = t[i] & sc_m64(k);
    int b = lo + i * 64, s = b % 64;
    d[b / 64] = (d[b / 64] & ~(sc_m64(k) << s)) | (v << s);
    if (s && s + k > 64) { int r = s + k - 64; d[b / 64 + 1] = (d[b / 64 + 1] & ~sc_m64(r)) | (v >> (64 - s)); }
  }
}
template <int W> class sc_bv; template <int W> class sc_uint; template <int W> class sc_int;
struct sc_bitref { uint64_t *p; int i; operator bool() const { return (p[i / 64] >> (i % 64)) & 1; } bool to_bool() const { return *this; } int to_int() const { return (bool)*this; }
  sc_bitref &operator=(bool b) { uint64_t m = 1ull << (i % 64); p[i / 64] = (p[i / 64] & ~m) | ((uint64_t)b << (i % 64)); return *this; }
  sc_bitref &operator=(const sc_bitref &o) { return *this = (bool)o; } };
struct sc_subref : sc_subref_c {
  uint64_t *q; int W;
  sc_subref(uint64_t *pp, int w, int hi, int l) : sc_subref_c(pp, w, hi, l), q(pp), W(w) {}
  template <class P> sc_subref &operator=(const sc_proxy<P> &s) { sc_store(q, lo, n, s); return *this; }
  sc_subref &operator=(const sc_subref &s) { sc_store(q, lo, n, s); return *this; }
  sc_subref &operator=(bool v) { sc_store(q, lo, n, sc_intv(v, false, n)); return *this; }
  sc_subref &operator=(int v) { sc_store(q, lo, n, sc_intv(v, true, n)); return *this; }
  sc_subref &operator=(unsigned v) { sc_store(q, lo, n, sc_intv(v, false, n)); return *this; }
  sc_subref &operator=(long v) { sc_store(q, lo, n, sc_intv(v, true, n)); return *this; }
  sc_subref &operator=(unsigned long v) { sc_store(q, lo, n, sc_intv(v, false, n)); return *this; }
  sc_subref &operator=(long long v) { sc_store(q, lo, n, sc_intv(v, true, n)); return *this; }
  sc_subref &operator=(unsigned long long v) { sc_store(q, lo, n, sc_intv(v, false, n)); return *this; }
  sc_subref &operator=(const char *v) { sc_store(q, lo, n, sc_strv(v)); return *this; }
  template <int X> sc_subref &operator=(const sc_uint<X> &v); template <int X> sc_subref &operator=(const sc_int<X> &v);
};
template <class A, class B> struct sc_concref : sc_proxy<sc_concref<A, B>> { const A &a; const B &b; sc_concref(const A &x, const B &y) : a(x), b(y) {}
  int length() const { return a.length() + b.length(); }
  uint64_t word64(int i) const { int lb = b.length(); uint64_t v = b.word64(i); int off = i * 64 - lb; // bit index in a of bit 0 of the word
    for (int k = 0; k * 64 < a.length(); k++) { int sh = k * 64 - off; if (sh <= -64 || sh >= 64) continue; v |= sh >= 0 ? a.word64(k) << sh : a.word64(k) >> -sh; } return v; } };
template <class A, class B> inline sc_concref<A, B> operator,(const sc_proxy<A> &a, const sc_proxy<B> &b) { return sc_concref<A, B>(a.me(), b.me()); }
struct sc_lvd : sc_proxy<sc_lvd> { std::vector<uint64_t> w; int n; sc_lvd(int l) : w((l + 63) / 64, 0), n(l) {} int length() const { return n; } uint64_t word64(int i) const { return i < (int)w.size() ? w[i] & sc_m64(n - i * 64) : 0; } };
template <int W> class sc_bv : public sc_proxy<sc_bv<W>> {
public:
  enum { NW = (W + 63) / 64 };
  uint64_t w[NW];
  sc_bv() { for (int i = 0; i < NW; i++) w[i] = 0; }
  sc_bv(const sc_bv &o) { for (int i = 0; i < NW; i++) w[i] = o.w[i]; }
  template <class P> sc_bv(const sc_proxy<P> &s) { asg(s); }
  sc_bv(int v) { asg(sc_intv(v, true, W)); } sc_bv(unsigned v) { asg(sc_intv(v, false, W)); } sc_bv(long v) { asg(sc_intv(v, true, W)); } sc_bv(unsigned long v) { asg(sc_intv(v, false, W)); }
  sc_bv(long long v) { asg(sc_intv(v, true, W)); } sc_bv(unsigned long long v) { asg(sc_intv(v, false, W)); } sc_bv(bool v) { uint64_t f = v ? ~0ull : 0; for (int i = 0; i < NW; i++) w[i] = f & sc_m64(W - i * 64); }
  sc_bv(const char *v) { asg(sc_strv(v)); }
  template <int X> sc_bv(const sc_uint<X> &v); template <int X> sc_bv(const sc_int<X> &v);
  sc_bv &operator=(const sc_bv &o) { for (int i = 0; i < NW; i++) w[i] = o.w[i]; return *this; }
  template <class P> sc_bv &operator=(const sc_proxy<P> &s) { asg(s); return *this; }
  sc_bv &operator=(int v) { asg(sc_intv(v, true, W)); return *this; } sc_bv &operator=(unsigned v) { asg(sc_intv(v, false, W)); return *this; }
  sc_bv &operator=(long v) { asg(sc_intv(v, true, W)); return *this; } sc_bv &operator=(unsigned long v) { asg(sc_intv(v, false, W)); return *this; }
  sc_bv &operator=(long long v) { asg(sc_intv(v, true, W)); return *this; } sc_bv &operator=(unsigned long long v) { asg(sc_intv(v, false, W)); return *this; }
  sc_bv &operator=(const char *v) { asg(sc_strv(v)); return *this; }
  template <int X> sc_bv &operator=(const sc_uint<X> &v); template <int X> sc_bv &operator=(const sc_int<X> &v);
  template <class P> void asg(const sc_proxy<P> &s) { uint64_t t[NW]; for (int i = 0; i < NW; i++) t[i] = s.me().word64(i) & sc_m64(W - i * 64); for (int i = 0; i < NW; i++) w[i] = t[i]; }
  int length() const { return W; }
  uint64_t word64(int i) const { return i < NW ? w[i] : 0; }
  sc_subref range(int hi, int lo) { return sc_subref(w, W, hi, lo); }
  sc_subref_c range(int hi, int lo) const { return sc_subref_c(w, W, hi, lo); }
  sc_subref operator()(int hi, int lo) { return range(hi, lo); } sc_subref_c operator()(int hi, int lo) const { return range(hi, lo); }
  sc_bitref operator[](int i) { sc_bounds(i >= 0 && i < W); return sc_bitref{w, i}; }
  bool operator[](int i) const { sc_bounds(i >= 0 && i < W); return (w[i / 64] >> (i % 64)) & 1; }
  sc_bitref bit(int i) { return (*this)[i]; }
  sc_bv operator~() const { sc_bv r; for (int i = 0; i < NW; i++) r.w[i] = ~w[i] & sc_m64(W - i * 64); return r; }
  sc_bv &operator<<=(int k) { sc_bv r; for (int i = 0; i < NW; i++) { int j = i - k / 64, s = k % 64; uint64_t v = j >= 0 ? w[j] << s : 0; if (s && j - 1 >= 0) v |= w[j - 1] >> (64 - s); r.w[i] = v & sc_m64(W - i * 64); } return *this = r; }
  sc_bv &operator>>=(int k) { sc_bv r; for (int i = 0; i < NW; i++) { int j = i + k / 64, s = k % 64; uint64_t v = j < NW ? w[j] >> s : 0; if (s && j + 1 < NW) v |= w[j + 1] << (64 - s); r.w[i] = v; } return *this = r; }
  sc_bv operator<<(int k) const { sc_bv r(*this); r <<= k; return r; } sc_bv operator>>(int k) const { sc_bv r(*this); r >>= k; return r; }
  template <class P> sc_bv &operator|=(const sc_proxy<P> &o) { for (int i = 0; i < NW; i++) w[i] = (w[i] | o.me().word64(i)) & sc_m64(W - i * 64); return *this; }
  template <class P> sc_bv &operator&=(const sc_proxy<P> &o) { for (int i = 0; i < NW; i++) w[i] &= o.me().word64(i); return *this; }
  template <class P> sc_bv &operator^=(const sc_proxy<P> &o) { for (int i = 0; i < NW; i++) w[i] = (w[i] ^ o.me().word64(i)) & sc_m64(W - i * 64); return *this; }
};
#define SC_BOP(op) template <class A, class B> inline sc_lvd operator op(const sc_proxy<A> &a, const sc_proxy<B> &b) { sc_lvd r(a.me().length()); for (size_t i = 0; i < r.w.size(); i++) r.w[i] = a.me().word64(i) op b.me().word64(i); return r; }
SC_BOP(&) SC_BOP(|) SC_BOP(^)
template <class A, class B> inline bool operator==(const sc_proxy<A> &a, const sc_proxy<B> &b) { int n = a.me().length(); if (n != b.me().length()) return false; uint64_t d = 0; for (int i = 0; i * 64 < n; i++) d |= a.me().word64(i) ^ b.me().word64(i); return d == 0; }
template <class A, class B> inline bool operator!=(const sc_proxy<A> &a, const sc_proxy<B> &b) { return !(a == b); }
#define SC_CMPI(T, S) template <class A> inline bool operator==(const sc_proxy<A> &a, T b) { return a == sc_intv((uint64_t)b, S, a.me().length()); } template <class A> inline bool operator!=(const sc_proxy<A> &a, T b) { return !(a == b); } \
  template <class A> inline bool operator==(T b, const sc_proxy<A> &a) { return a == b; } template <class A> inline bool operator!=(T b, const sc_proxy<A> &a) { return !(a == b); }
SC_CMPI(int, true) SC_CMPI(unsigned, false) SC_CMPI(long, true) SC_CMPI(unsigned long, false) SC_CMPI(long long, true) SC_CMPI(unsigned long long, false)
template <class A> inline bool operator==(const sc_proxy<A> &a, const char *b) { return a == sc_strv(b); }
template <class A> inline ostream &operator<<(ostream &o, const sc_proxy<A> &a) { return o << a.to_string(); }
template <int W> inline std::istream &operator>>(std::istream &i, sc_bv<W> &v) { std::string s; i >> s; v = s.c_str(); return i; }

template <int W> class sc_uint {
public:
  uint64_t v; void m() { v &= sc_m64(W); }
  sc_uint() : v(0) {} sc_uint(uint64_t x) : v(x) { m(); } sc_uint(const sc_uint &o) : v(o.v) {}
  template <class P> sc_uint(const sc_proxy<P> &p) : v(p.me().word64(0)) { m(); }
  template <int X> sc_uint(const sc_uint<X> &o) : v(o.v) { m(); }
  sc_uint &operator=(const sc_uint &o) { v = o.v; return *this; } sc_uint &operator=(uint64_t x) { v = x; m(); return *this; }
  sc_uint &operator=(int x) { v = (int64_t)x; m(); return *this; } sc_uint &operator=(unsigned x) { v = x; m(); return *this; } sc_uint &operator=(long long x) { v = x; m(); return *this; } sc_uint &operator=(long x) { v = x; m(); return *this; } sc_uint &operator=(unsigned long long x) { v = x; m(); return *this; }
  sc_uint &operator=(bool x) { v = x; return *this; } sc_uint &operator=(double x) { v = (uint64_t)(int64_t)x; m(); return *this; }
  template <class P> sc_uint &operator=(const sc_proxy<P> &p) { v = p.me().word64(0); m(); return *this; }
  template <int X> sc_uint &operator=(const sc_uint<X> &o) { v = o.v; m(); return *this; } template <int X> sc_uint &operator=(const sc_int<X> &o); 
  operator uint64_t() const { return v; }
  unsigned to_uint() const { return (unsigned)v; } int to_int() const { return (int)v; } uint64_t to_uint64() const { return v; } int64_t to_int64() const { return (int64_t)v; } double to_double() const { return (double)v; } long to_long() const { return (long)v; } unsigned long to_ulong() const { return v; }
  int length() const { return W; }
  std::string to_string(sc_numrep r = SC_DEC) const { return std::to_string(v); }
  sc_subref range(int hi, int lo) { return sc_subref(&v, W, hi, lo); } sc_subref_c range(int hi, int lo) const { return sc_subref_c(&v, W, hi, lo); }
  sc_subref operator()(int hi, int lo) { return range(hi, lo); }
  sc_bitref operator[](int i) { return sc_bitref{&v, i}; } bool operator[](int i) const { return (v >> i) & 1; } bool bit(int i) const { return (v >> i) & 1; }
  sc_uint &operator++() { v++; m(); return *this; } sc_uint operator++(int) { sc_uint o(*this); v++; m(); return o; } sc_uint &operator--() { v--; m(); return *this; } sc_uint operator--(int) { sc_uint o(*this); v--; m(); return o; }
  sc_uint &operator+=(uint64_t x) { v += x; m(); return *this; } sc_uint &operator-=(uint64_t x) { v -= x; m(); return *this; } sc_uint &operator*=(uint64_t x) { v *= x; m(); return *this; } sc_uint &operator|=(uint64_t x) { v |= x; m(); return *this; } sc_uint &operator&=(uint64_t x) { v &= x; return *this; } sc_uint &operator<<=(uint64_t x) { v <<= x; m(); return *this; } sc_uint &operator>>=(uint64_t x) { v >>= x; return *this; }
};
template <int W> class sc_int {
public:
  int64_t v; void m() { v = W >= 64 ? v : (int64_t)((uint64_t)v << (64 - W)) >> (64 - W); }
  sc_int() : v(0) {} sc_int(int64_t x) : v(x) { m(); } sc_int(const sc_int &o) : v(o.v) {}
  template <class P> sc_int(const sc_proxy<P> &p) : v((int64_t)p.me().word64(0)) { m(); }
  template <int X> sc_int(const sc_int<X> &o) : v(o.v) { m(); } template <int X> sc_int(const sc_uint<X> &o) : v((int64_t)o.v) { m(); }
  sc_int &operator=(const sc_int &o) { v = o.v; return *this; } sc_int &operator=(int64_t x) { v = x; m(); return *this; } sc_int &operator=(int x) { v = x; m(); return *this; } sc_int &operator=(unsigned x) { v = x; m(); return *this; } sc_int &operator=(unsigned long x) { v = (int64_t)x; m(); return *this; } sc_int &operator=(bool x) { v = x; m(); return *this; }
  sc_int &operator=(long long x) { v = x; m(); return *this; } sc_int &operator=(unsigned long long x) { v = (int64_t)x; m(); return *this; } sc_int &operator=(double x) { v = (int64_t)x; m(); return *this; } sc_int &operator=(float x) { v = (int64_t)x; m(); return *this; }
  template <class P> sc_int &operator=(const sc_proxy<P> &p) { v = (int64_t)p.me().word64(0); m(); return *this; }
  template <int X> sc_int &operator=(const sc_int<X> &o) { v = o.v; m(); return *this; } template <int X> sc_int &operator=(const sc_uint<X> &o) { v = (int64_t)o.v; m(); return *this; }
  operator int64_t() const { return v; }
  unsigned to_uint() const { return (unsigned)v; } int to_int() const { return (int)v; } uint64_t to_uint64() const { return (uint64_t)v; } int64_t to_int64() const { return v; } double to_double() const { return (double)v; } long to_long() const { return v; }
  int length() const { return W; }
  std::string to_string(sc_numrep r = SC_DEC) const { return std::to_string(v); }
  struct sref { sc_int *o; sc_subref s; template <class T> sref &operator=(const T &t) { s = t; o->m(); return *this; } operator uint64_t() const { return s.word64(0); } unsigned to_uint() const { return s.to_uint(); } int to_int() const { return (int)s.word64(0); } uint64_t to_uint64() const { return s.word64(0); } int length() const { return s.n; } };
  sc_subref_c range(int hi, int lo) const { return sc_subref_c((const uint64_t *)&v, W, hi, lo); }
  sref range(int hi, int lo) { return sref{this, sc_subref((uint64_t *)&v, W, hi, lo)}; }
  bool operator[](int i) const { return (v >> i) & 1; }
  sc_int &operator++() { v++; m(); return *this; } sc_int operator++(int) { sc_int o(*this); v++; m(); return o; } sc_int &operator--() { v--; m(); return *this; }
  sc_int &operator+=(int64_t x) { v += x; m(); return *this; } sc_int &operator-=(int64_t x) { v -= x; m(); return *this; } sc_int &operator*=(int64_t x) { v *= x; m(); return *this; }
};
template <int W> template <int X> sc_uint<W> &sc_uint<W>::operator=(const sc_int<X> &o) { v = (uint64_t)o.v; m(); return *this; }
template <int W> template <int X> sc_bv<W>::sc_bv(const sc_uint<X> &v) { asg(sc_intv(v.v, false, W)); }
template <int W> template <int X> sc_bv<W>::sc_bv(const sc_int<X> &v) { asg(sc_intv((uint64_t)v.v, true, W)); }
template <int W> template <int X> sc_bv<W> &sc_bv<W>::operator=(const sc_uint<X> &v) { asg(sc_intv(v.v, false, W)); return *this; }
template <int W> template <int X> sc_bv<W> &sc_bv<W>::operator=(const sc_int<X> &v) { asg(sc_intv((uint64_t)v.v, true, W)); return *this; }
template <int X> sc_subref &sc_subref::operator=(const sc_uint<X> &v) { sc_store(q, lo, n, sc_intv(v.v, false, n)); return *this; }
template <int X> sc_subref &sc_subref::operator=(const sc_int<X> &v) { sc_store(q, lo, n, sc_intv((uint64_t)v.v, true, n)); return *this; }
template <class A, int W> inline bool operator==(const sc_proxy<A> &a, const sc_uint<W> &b) { return a == sc_intv(b.v, false, a.me().length()); }
template <class A, int W> inline bool operator==(const sc_uint<W> &b, const sc_proxy<A> &a) { return a == sc_intv(b.v, false, a.me().length()); }
template <int W> inline ostream &operator<<(ostream &o, const sc_uint<W> &v) { return o << v.v; }
template <int W> inline ostream &operator<<(ostream &o, const sc_int<W> &v) { return o << v.v; }
template <int W> inline istream &operator>>(istream &i, sc_uint<W> &v) { long long x; if (i >> x) v = (uint64_t)x; return i; }
template <int W> inline istream &operator>>(istream &i, sc_int<W> &v) { long long x; if (i >> x) v = (int64_t)x; return i; }

// ---------------------------------------------------------------- kernel
struct sc_module; struct sc_proc;
struct sc_evlist { std::vector<sc_proc *> ps; };
typedef void (sc_module::*SC_ENTRY)();
struct sc_sigbase { virtual ~sc_sigbase() {} virtual void update() = 0; bool q = false; };
struct sc_proc { sc_module *m; SC_ENTRY f; bool thread; bool pend = false; bool init = true; int co = -1; struct sc_pb *rst = nullptr; bool rlev = true; struct sc_pb *clk = nullptr; int edge = 0; bool started = false; std::string nm; };
struct sc_clock;
struct sc_kernel {
  uint64_t t = 0; bool up = false, stopped = false; uint64_t deltas = 0;
  std::vector<sc_proc *> procs; std::deque<sc_proc *> rm, rt; std::vector<sc_sigbase *> upd; std::vector<sc_clock *> clks; std::vector<std::pair<sc_proc *, std::pair<struct sc_pb *, int>>> sens;
  sc_proc *cur = nullptr; int kco = 0; std::vector<struct sc_pb *> ports;
};
inline sc_kernel &sc_k() { static sc_kernel *k = new sc_kernel; return *k; }
inline void sc_trig(sc_evlist &e) { for (sc_proc *p : e.ps) if (!p->pend) { p->pend = true; (p->thread ? sc_k().rt : sc_k().rm).push_back(p); } }

enum sc_time_unit { SC_FS, SC_PS, SC_NS, SC_US, SC_MS, SC_SEC };
struct sc_time { uint64_t ps; sc_time() : ps(0) {} sc_time(double d, sc_time_unit u) { static const double f[] = {1e-3, 1, 1e3, 1e6, 1e9, 1e12}; ps = (uint64_t)(d * f[u] + 0.5); } uint64_t value() const { return ps; } double to_double() const { return (double)ps; } double to_seconds() const { return ps * 1e-12; }
  std::string to_string() const { return std::to_string(ps) + " ps"; } };
static const sc_time SC_ZERO_TIME;
inline sc_time sc_time_stamp() { sc_time t; t.ps = sc_k().t; return t; }
inline uint64_t sc_delta_count() { return sc_k().deltas; }
inline ostream &operator<<(ostream &o, const sc_time &t) { return o << t.ps << " ps"; }

struct sc_module_name { const char *s; sc_module_name(const char *c) : s(c) {} sc_module_name(const std::string &c) : s(strdup(c.c_str())) {} operator const char *() const { return s; } };
struct sc_object { std::string nm; sc_object() {} sc_object(const char *n) : nm(n) {} virtual ~sc_object() {} const char *name() const { return nm.c_str(); } const char *basename() const { return nm.c_str(); } };
// port or signal, untyped view
struct sc_pb { sc_pb *up_ = nullptr; virtual ~sc_pb() {} virtual sc_evlist *ev(int kind) { return nullptr; } // kind 0 any, 1 pos, 2 neg
  sc_pb *root() { sc_pb *p = this; while (p->up_) p = p->up_; return p; } virtual bool bval() { return false; } bool is_sig = false; };
struct sc_evfind { sc_pb *p; int kind; };
template <class T> struct sc_signal_inout_if { };
template <class T> inline bool sc_differs(const T &a, const T &b) { return !(const_cast<T &>(a) == b); }
enum sc_writer_policy { SC_ONE_WRITER, SC_MANY_WRITERS, SC_UNCHECKED_WRITERS };
template <class T> struct sc_sigv : sc_object, sc_pb, sc_sigbase {
  T cur, nxt; sc_evlist any, pos, neg;
  sc_sigv(const char *n = "") : sc_object(n), cur(), nxt() { is_sig = true; }
  sc_evlist *ev(int k) override { return k == 0 ? &any : k == 1 ? &pos : &neg; }
  bool bval() override { return tb(cur); }
  template <class X> static bool tb(const X &) { return false; } static bool tb(const bool &b) { return b; }
  const T &read() const { return cur; } operator const T &() const { return cur; }
  void write(const T &v) { nxt = v; if (!q) { q = true; sc_k().upd.push_back(this); } }
  void update() override {
    q = false;
    if (any.ps.empty() && pos.ps.empty() && neg.ps.empty()) { cur = nxt; return; }
    upd1(cur, nxt);
  }
  template <class X> void upd1(X &c, X &n) { bool d = sc_differs(c, n); 
#ifdef MINISC_EXACT_EVENTS
    if (d) {
#else
    if (sx_is_sym((uint64_t)d) || d) { // over-approximate: an event on an unchanged value is harmless for combinational methods
#endif
      c = n; sc_trig(any); } }
  void upd1(bool &c, bool &n) { if (c != n) { c = n; sc_trig(any); if (n) sc_trig(pos); else sc_trig(neg); } }
  bool posedge() const { return tb(cur); }
};
template <class T, sc_writer_policy P = SC_ONE_WRITER> struct sc_signal : sc_sigv<T> {
  sc_signal() {} explicit sc_signal(const char *n) : sc_sigv<T>(n) {} sc_signal(const char *n, const T &v) : sc_sigv<T>(n) { this->cur = this->nxt = v; }
  sc_signal &operator=(const T &v) { this->write(v); return *this; }
  sc_signal &operator=(const sc_signal &o) { this->write(o.read()); return *this; }
  sc_evfind pos() { return {this, 1}; } sc_evfind neg() { return {this, 2}; }
};
template <int W, sc_writer_policy P> bool operator<(const sc_signal<sc_uint<W>, P> &a, const sc_uint<W> &b) { return a.read().to_uint64() < b.to_uint64(); }
template <int W, sc_writer_policy P> bool operator<=(const sc_signal<sc_uint<W>, P> &a, const sc_uint<W> &b) { return a.read().to_uint64() <= b.to_uint64(); }
template <int W, sc_writer_policy P> bool operator>(const sc_signal<sc_uint<W>, P> &a, const sc_uint<W> &b) { return a.read().to_uint64() > b.to_uint64(); }
template <int W, sc_writer_policy P> bool operator>=(const sc_signal<sc_uint<W>, P> &a, const sc_uint<W> &b) { return a.read().to_uint64() >= b.to_uint64(); }
template <class T> struct sc_fifo : sc_object, sc_sigbase { // bounded channel with request/update semantics
  std::deque<T> d; int sz, vis = 0, nrd = 0, nwr = 0; explicit sc_fifo(int n = 16) : sz(n) {} explicit sc_fifo(const char *m, int n = 16) : sc_object(m), sz(n) {}
  void rq() { if (!q) { q = true; sc_k().upd.push_back(this); } } void update() override { q = false; vis = (int)d.size(); nrd = nwr = 0; }
  int num_available() const { return vis - nrd; } int num_free() const { return sz - vis - nwr; }
  bool nb_write(const T &v) { if (num_free() == 0) return false; d.push_back(v); nwr++; rq(); return true; }
  bool nb_read(T &v) { if (num_available() == 0) return false; v = d.front(); d.pop_front(); nrd++; rq(); return true; }
};
struct sc_clock : sc_signal<bool> {
  uint64_t per, hi, nextT; bool nextV;
  void mk(double p, sc_time_unit u) { per = sc_time(p, u).ps; hi = per / 2; nextT = 0; nextV = true; sc_k().clks.push_back(this); }
  sc_clock() { mk(1, SC_NS); } sc_clock(const char *n, double p, sc_time_unit u, double duty = 0.5) : sc_signal<bool>(n) { mk(p, u); hi = (uint64_t)(per * duty); }
  sc_clock(const char *n, const sc_time &t) : sc_signal<bool>(n) { mk((double)t.ps, SC_PS); }
  sc_clock(const char *n, double p, sc_time_unit u, double duty, double st, sc_time_unit su, bool pos = true) : sc_signal<bool>(n) { mk(p, u); hi = (uint64_t)(per * duty); nextT = sc_time(st, su).ps; }
  sc_time period() const { return sc_time((double)per, SC_PS); }
  ~sc_clock() { auto &c = sc_k().clks; c.erase(std::remove(c.begin(), c.end(), this), c.end()); }
};
template <class T> struct sc_port_b : sc_object, sc_pb {
  sc_sigv<T> *s = nullptr;
  sc_port_b(const char *n = "") : sc_object(n) {}
  sc_sigv<T> *sig() const { if (!s) { sc_pb *r = const_cast<sc_port_b *>(this)->root(); if (!r->is_sig) throw sc_report_error("port not bound"); const_cast<sc_port_b *>(this)->s = static_cast<sc_sigv<T> *>(r); } return s; }
  void bind(sc_pb &o) { up_ = &o; } void operator()(sc_pb &o) { up_ = &o; }
  const T &read() const { return sig()->cur; } operator const T &() const { return sig()->cur; }
  sc_evlist *ev(int k) override { return root()->ev(k); }
  bool bval() override { return root()->bval(); }
  sc_evfind pos() { return {this, 1}; } sc_evfind neg() { return {this, 2}; } sc_evfind value_changed() { return {this, 0}; }
};
template <class T> struct sc_in : sc_port_b<T> { sc_in() {} explicit sc_in(const char *n) : sc_port_b<T>(n) {} };
template <class T> struct sc_inout : sc_port_b<T> { sc_inout() {} explicit sc_inout(const char *n) : sc_port_b<T>(n) {}
  void write(const T &v) { this->sig()->write(v); } sc_inout &operator=(const T &v) { write(v); return *this; } sc_inout &operator=(const sc_inout &v) { write(v.read()); return *this; } void initialize(const T &v) { this->sig()->cur = this->sig()->nxt = v; } };
template <class T> struct sc_out : sc_inout<T> { sc_out() {} explicit sc_out(const char *n) : sc_inout<T>(n) {} sc_out &operator=(const T &v) { this->write(v); return *this; } sc_out &operator=(const sc_out &v) { this->write(v.read()); return *this; } };
typedef sc_in<bool> sc_in_clk;
template <class T> struct sc_vector : sc_object {
  std::vector<T *> v; sc_vector() {} explicit sc_vector(const char *n) : sc_object(n) {} sc_vector(const char *n, size_t k) : sc_object(n) { init(k); }
  template <class C> sc_vector(const char *n, size_t k, C c) : sc_object(n) { init(k, c); }
  ~sc_vector() { for (T *p : v) delete p; }
  template <class X = T> auto mk1(int) -> decltype(new X("")) { return new X(nm.c_str()); } template <class X = T> X *mk1(long) { return new X(); }
  void init(size_t k) { for (size_t i = 0; i < k; i++) v.push_back(mk1<T>(0)); }
  template <class C> void init(size_t k, C c) { for (size_t i = 0; i < k; i++) v.push_back(c((nm + std::to_string(i)).c_str(), i)); }
  T &operator[](size_t i) { sc_bounds(i < v.size()); return *v[i]; } const T &operator[](size_t i) const { sc_bounds(i < v.size()); return *v[i]; } T &at(size_t i) { return (*this)[i]; }
  struct it { typename std::vector<T *>::iterator i; T &operator*() { return **i; } it &operator++() { ++i; return *this; } bool operator!=(const it &o) const { return i != o.i; } bool operator==(const it &o) const { return i == o.i; } };
  it begin() { return {v.begin()}; } it end() { return {v.end()}; }
  size_t size() const { return v.size(); }
  template <class U> void bind(sc_vector<U> &o) { for (size_t i = 0; i < v.size(); i++) v[i]->bind(o[i]); } template <class U> void operator()(sc_vector<U> &o) { bind(o); }
};
struct sc_sens { sc_proc *p = nullptr; sc_sens &add(sc_pb *x, int k) { sc_k().sens.push_back({p, {x, k}}); return *this; }
  sc_sens &operator<<(sc_pb &x) { return add(&x, 0); } sc_sens &operator<<(const sc_pb &x) { return add(const_cast<sc_pb *>(&x), 0); } sc_sens &operator<<(sc_evfind e) { return add(e.p, e.kind); }
  template <class T> sc_sens &operator<<(sc_vector<T> &v) { for (size_t i = 0; i < v.size(); i++) *this << v[i]; return *this; } };
inline void sc_wait1() { sx_co_switch(sc_k().kco); }
struct sc_module : sc_object {
  sc_sens sensitive; sc_proc *last_ = nullptr;
  sc_module() {} sc_module(const char *n) : sc_object(n) {} sc_module(const std::string &n) : sc_object(n.c_str()) {} sc_module(const sc_module_name &n) : sc_object(n.s) {}
  virtual ~sc_module() {}
  virtual void before_end_of_elaboration() {} virtual void end_of_elaboration() {} virtual void start_of_simulation() {}
  sc_proc *mkp(SC_ENTRY f, bool th, const char *n) { sc_proc *p = new sc_proc; p->m = this; p->f = f; p->thread = th; p->nm = n; sc_k().procs.push_back(p); sensitive.p = p; last_ = p; return p; }
  void mkt(SC_ENTRY f, sc_evfind e, const char *n) { sc_proc *p = mkp(f, true, n); p->init = false; sc_k().sens.push_back({p, {e.p, e.kind}}); }
  void reset_signal_is(sc_pb &r, bool lev) { last_->rst = &r; last_->rlev = lev; } void reset_signal_is(const sc_pb &r, bool lev) { reset_signal_is(const_cast<sc_pb &>(r), lev); }
  void async_reset_signal_is(sc_pb &r, bool lev) { reset_signal_is(r, lev); }
  void dont_initialize() { last_->init = false; }
  void wait() { sc_wait1(); } void wait(int n) { for (int i = 0; i < n; i++) sc_wait1(); }
};
inline void wait() { sc_wait1(); } inline void wait(int n) { for (int i = 0; i < n; i++) sc_wait1(); }
inline void sc_thread_entry(void *a) { sc_proc *p = (sc_proc *)a; (p->m->*p->f)(); for (;;) sc_wait1(); }
inline void sc_runp(sc_proc *p) {
  sc_kernel &k = sc_k(); p->pend = false; k.cur = p;
  if (!p->thread) { (p->m->*p->f)(); k.cur = nullptr; return; }
  k.kco = sx_co_cur();
  bool r = p->rst && p->rst->bval() == p->rlev;
  if (p->co < 0) p->co = sx_co_new(sc_thread_entry, p);
  else if (r) sx_co_reset(p->co, sc_thread_entry, p);
  sx_co_switch(p->co);
  k.cur = nullptr;
}
inline void sc_crunch() {
  sc_kernel &k = sc_k();
  for (int guard = 0;; guard++) {
    if (guard > 2000) throw sc_report_error("minisc: delta cycle limit (combinational loop)");
    for (;;) { if (!k.rm.empty()) { sc_proc *p = k.rm.front(); k.rm.pop_front(); sc_runp(p); } else if (!k.rt.empty()) { sc_proc *p = k.rt.front(); k.rt.pop_front(); sc_runp(p); } else break; }
    std::vector<sc_sigbase *> u; u.swap(k.upd);
    if (!u.empty()) k.deltas++;
    for (sc_sigbase *s : u) s->update();
    if (k.rm.empty() && k.rt.empty() && k.upd.empty()) break;
  }
}
inline void sc_elab() {
  sc_kernel &k = sc_k(); if (k.up) return; k.up = true;
  for (auto &s : k.sens) { sc_evlist *e = s.second.first->ev(s.second.second); if (!e) throw sc_report_error("sensitivity to unbound port"); e->ps.push_back(s.first); }
  for (sc_proc *p : k.procs) if (p->init && !p->pend) { p->pend = true; (p->thread ? k.rt : k.rm).push_back(p); }
  std::vector<sc_sigbase *> u; u.swap(k.upd); for (sc_sigbase *s : u) s->update();
}
inline void sc_start(double d, sc_time_unit u) {
  sc_kernel &k = sc_k(); sc_elab(); uint64_t end = k.t + sc_time(d, u).ps; if (k.stopped) return;
  do {
    sc_crunch();
    uint64_t nt = ~0ull; for (sc_clock *c : k.clks) if (c->nextT < nt) nt = c->nextT;
    if (nt > end) break;
    k.t = nt;
    for (sc_clock *c : k.clks) if (c->nextT == nt) { c->write(c->nextV); c->nextT += c->nextV ? c->hi : c->per - c->hi; c->nextV = !c->nextV; }
  } while (k.t < end);
  k.t = end;
}
inline void sc_start(const sc_time &t) { sc_start((double)t.ps, SC_PS); }
inline void sc_stop() { sc_k().stopped = true; }
struct sc_trace_file {}; template <class T> inline void sc_trace(sc_trace_file *, const T &, const std::string &) {}
inline sc_trace_file *sc_create_vcd_trace_file(const char *) { return nullptr; } inline void sc_close_vcd_trace_file(sc_trace_file *) {}
} // namespace sc_core
namespace sc_dt { using namespace sc_core; }
using namespace sc_core;
using namespace std;
#define SC_MODULE(n) struct n : public ::sc_core::sc_module
#define SC_CTOR(n) n(::sc_core::sc_module_name nm_) : ::sc_core::sc_module(nm_)
#define SC_HAS_PROCESS(n) typedef n SC_CURRENT_USER_MODULE
#define SC_METHOD(f) this->mkp(static_cast<::sc_core::SC_ENTRY>(&SC_CURRENT_USER_MODULE::f), false, #f)
#define SC_CTHREAD(f, e) this->mkt(static_cast<::sc_core::SC_ENTRY>(&SC_CURRENT_USER_MODULE::f), e, #f)
#define SC_THREAD(f) this->mkp(static_cast<::sc_core::SC_ENTRY>(&SC_CURRENT_USER_MODULE::f), true, #f)
