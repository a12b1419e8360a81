// register files: a read returns the newest write to that address applied in an earlier cycle
#include "simkit.hpp"
#include <register_file.hpp>
#ifdef PISO
#include <piso_register_file.hpp>
#endif
#ifndef DEPTH
#define DEPTH 2
#endif
#ifndef STEPS
#define STEPS 4
#endif
#ifndef STALLAT
#define STALLAT 2
#endif
#define W 2
extern "C" void harness() {
  sc_clock &clk = simkit_clock(); sc_signal<bool> rst("rst"), wen("wen"), stall("stall"); sc_signal<uint32_t> raddr("raddr"), waddr("waddr"); sc_signal<data_vector<EL>> wdata("wdata"), rdata("rdata");
  std::string nofile;
  register_file<EL> f("rf", 0, DEPTH, W, nofile); f.clk(clk); f.rst(rst); f.raddr(raddr); f.waddr(waddr); f.wen(wen); f.wdata(wdata); f.rdata(rdata); f.clk_en(stall);
  { std::vector<EL> z(W, 0); wdata.write(data_vector<EL>(z)); }
  rst.write(true); sk_begin(); sk_step(); rst.write(false); sk_step();
  struct Wr { bool en = false; uint32_t a = 0; EL d[W]; }; std::deque<Wr> wp(RF_WR_LATENCY, Wr()); std::deque<uint32_t> rp(RF_RD_LATENCY, 0);
  EL mem[DEPTH][W]; for (auto &r : mem) for (auto &e : r) e = 0; bool valid[DEPTH]; for (bool &v : valid) v = true;
  int held = 0; // cycles since the read address / write pipeline tail last changed
  for (int s = 0; s < STEPS; s++) {
#ifdef SUSTAINED
    bool w = true, st = false; uint32_t ra = 1, wa = 1; EL d[W]; d[0] = s == 0 ? (int)sx_in("d", 8) : (int)d[0]; static EL d0, d1; if (s == 0) { d0 = (int)sx_in("d", 8); d1 = (int)sx_in("d", 8); } d[0] = d0; d[1] = d1;
#elif defined(ONLYREADS) // one write, then only reads: nothing else changes
    static EL d0, d1; static uint32_t a0; if (s == 0) { d0 = (int)sx_in("d", 8); d1 = (int)sx_in("d", 8); a0 = sx_pick("waddr", 8, 0, DEPTH - 1); }
    bool w = s == 0, st = s == STALLAT ? sx_in("stall", 1) : 0; uint32_t ra = sx_pick("raddr", 8, 0, DEPTH - 1), wa = a0; EL d[W]; d[0] = d0; d[1] = d1;
#else
    bool w = sx_in("wen", 1), st = s == STALLAT ? sx_in("stall", 1) : 0; uint32_t ra = sx_pick("raddr", 8, 0, DEPTH - 1), wa = w ? sx_pick("waddr", 8, 0, DEPTH - 1) : 0;
    EL d[W]; for (int i = 0; i < W; i++) d[i] = (int)sx_in("d", 8);
#endif
    std::vector<EL> v(d, d + W); bool rs = false;
#ifdef RSTAT
    rs = s == RSTAT && sx_in("reset", 1); // a reset in mid-run
#endif
    wdata.write(data_vector<EL>(v)); wen.write(w); stall.write(st); raddr.write(ra); waddr.write(wa); rst.write(rs); sk_step();
    Wr cur = wp.front();
    if (rs) { // writes not yet through the pipeline are dropped
      if (cur.en) for (int a = 0; a < DEPTH; a++) for (int i = 0; i < W; i++) mem[a][i] = cur.a == (uint32_t)a ? cur.d[i] : mem[a][i];
      for (Wr &x : wp) x = Wr(); for (uint32_t &x : rp) x = 0; sx_reach("reset");
    } else if (!st) { // the write at the end of the pipeline completed in the previous cycle
      if (cur.en) for (int a = 0; a < DEPTH; a++) for (int i = 0; i < W; i++) mem[a][i] = cur.a == (uint32_t)a ? cur.d[i] : mem[a][i];
      wp.pop_front(); rp.pop_front(); Wr n; n.en = w; n.a = wa; for (int i = 0; i < W; i++) n.d[i] = d[i]; wp.push_back(n); rp.push_back(ra);
    }
    uint32_t a = rp.front(); cur = wp.front();
    data_vector<EL> o = rdata.read(); sx_check(o.size() == W, "register file word width");
    bool ok = true; 
    for (int i = 0; i < W; i++) { EL e = 0; for (int k = 0; k < DEPTH; k++) e = a == (uint32_t)k ? mem[k][i] : e; bool now = cur.en && cur.a == a; ok &= (o[i] == e) | (now & (o[i] == cur.d[i])); }
#ifdef SUSTAINED
    sx_check(ok, "register file returns the latest completed write while an identical write is held");
#else
    sx_check(ok, "register file read returns the latest completed write to that address");
#endif
    if (s == STEPS - 1) sx_reach("end");
  }
}
