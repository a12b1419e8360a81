// prints results of many sc_bv/sc_uint/sc_int operations; compiled against minisc and SystemC and diffed
#include <systemc.h>
#include <cstdint>
static uint64_t st = 88172645463325252ull; static uint64_t rn() { st ^= st << 13; st ^= st >> 7; st ^= st << 17; return st; }
template <class T> void pr(const char *n, const T &v) { std::cout << n << " " << v << "\n"; }
template <int W> void t() {
  for (int it = 0; it < 40; it++) {
    sc_bv<W> a, b; for (int i = 0; i < W; i++) { a[i] = (bool)(rn() & 1); b[i] = (bool)(rn() & 1); }
    std::cout << W << " a " << a << " u64 " << a.to_uint64() << " u " << a.to_uint() << " i " << a.to_int() << " i64 " << a.to_int64() << " ul " << a.to_ulong() << " l " << a.to_long() << "\n";
    int hi = rn() % W, lo = rn() % (hi + 1);
    pr("range", sc_bv<W>(a.range(hi, lo))); pr("ru", a.range(hi, lo).to_uint64()); pr("ri", a.range(hi, lo).to_int()); pr("ri64", a.range(hi,lo).to_int64()); pr("rui", a.range(hi, lo).to_uint());
    pr("or", a.or_reduce()); pr("and", a.and_reduce()); pr("xor", a.xor_reduce()); pr("bit", a[lo].to_bool());
    sc_bv<W> c = a; c.range(hi, lo) = b.range(hi, lo); pr("set", c);
    c = a; c.range(hi, lo) = (int)rn(); pr("seti", c); c = a; c.range(hi, lo) = (unsigned)rn(); pr("setu", c); c = a; c.range(hi, lo) = (uint64)rn(); pr("setul", c); c = a; c.range(hi, lo) = (int64)rn(); pr("setl", c);
    c = a; c.range(hi, lo) = b; pr("setb", c);
    int x = rn(); c = x; pr("asgi", c); c = (unsigned)x; pr("asgu", c); c = (int64)rn(); pr("asgl", c); c = (uint64)rn(); pr("asgul", c);
    pr("eq", a == b); pr("eqr", a.range(hi, lo) == b.range(hi, lo)); c = a; pr("eqs", c == a); pr("ne", a != b);
    pr("andop", sc_bv<W>(a & b)); pr("orop", sc_bv<W>(a | b)); pr("xorop", sc_bv<W>(a ^ b)); pr("not", sc_bv<W>(~a)); int sh = rn() % (W + 3); pr("shl", sc_bv<W>(a << sh)); pr("shr", sc_bv<W>(a >> sh));
    sc_bv<2 * W> d = (a, b); pr("cat", d); sc_bv<2 * W + 3> e; e = (a.range(hi, lo), b); pr("catr", e);
    sc_bv<W / 2 + 1> f; f = a; pr("trunc", f); sc_bv<W + 70> g; g = a; pr("ext", g); g = a.range(hi, lo); pr("extr", g);
    std::cout << a.to_string() << " " << a.range(hi, lo).to_string() << "\n";
    pr("bool", sc_bv<W>(true)); a = "1011"; pr("str", a); a = 5; pr("eqi", a == 5); a.range(hi,lo) = "01"; pr("rstr", a);
    sc_bv<W> z; z.range(hi, lo) = sc_uint<12>(rn()); pr("zu", z);
    z = sc_bv<W>(0); pr("z0", z); z = sc_uint<9>(rn()); pr("zu9", z); z = sc_int<9>(rn()); pr("zi9", z);
  }
}
template <int W> void ti() {
  for (int it = 0; it < 40; it++) {
    sc_int<W> a = (int64)rn(), b = (int64)rn(); sc_uint<W> u = rn(), v = rn(); sc_bv<64> w; for (int i = 0; i < 64; i++) w[i] = (bool)(rn() & 1);
    std::cout << W << " " << a << " " << b << " " << u << " " << v << "\n"; pr("+", a + b); pr("-", a - b); pr("*", a * b); pr("u+", u + v); pr("u-", u - v); pr("u*", u * v);
    sc_int<W> c; c = a + b; pr("c+", c); c = a * b; pr("c*", c); c += b; pr("c+=", c); u++; pr("u++", u); int hi = rn() % W, lo = rn() % (hi + 1);
    pr("ur", u.range(hi, lo).to_uint64()); c = w.range(lo + W < 64 ? lo + W - 1 : 63, lo).to_int(); pr("fromint", c); u = w.range(hi, lo).to_uint(); pr("fromuint", u); c = w; pr("cbv", c);
    pr("lt", a < b); pr("eq", a == b); pr("toint", a.to_int()); pr("u2", u.to_uint()); u[0] = 1; pr("ub", u); u.range(hi, lo) = 3; pr("usr", u);
  }
}
extern "C" void harness() { t<1>(); t<7>(); t<8>(); t<32>(); t<33>(); t<63>(); t<64>(); t<65>(); t<82>(); t<128>(); t<200>(); t<588>(); ti<5>(); ti<8>(); ti<16>(); ti<20>(); ti<32>(); }
