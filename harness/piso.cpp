// parallel-in serial-out register file: wide words are written, one slice of a word is read per cycle
#include "simkit.hpp"
#include <piso_register_file.hpp>
#define NSL (DPE_NUM_TBS - 1)
typedef tb_input_precision EL;
extern "C" void harness() {
  sc_clock &clk = simkit_clock(); sc_signal<bool> rst("rst"), wen("wen"), stall("stall"); sc_signal<uint32_t> raddr("raddr"), waddr("waddr"); sc_signal<uint8_t> rid("rid"); sc_signal<data_vector<EL>> wdata("wdata"), rdata("rdata");
  std::string nofile; const int W = NSL * EPW; piso_register_file<EL> f("rf", 0, DEPTH, W, nofile); f.clk(clk); f.rst(rst); f.raddr(raddr); f.rd_id(rid); f.waddr(waddr); f.wen(wen); f.wdata(wdata); f.rdata(rdata); f.clk_en(stall);
  { std::vector<EL> z(W, 0); wdata.write(data_vector<EL>(z)); }
  rst.write(true); sk_begin(); sk_step(); rst.write(false); sk_step();
  typedef std::vector<EL> Word; std::vector<Word> mem(DEPTH, Word(W, EL(0))); struct Wr { bool en; uint32_t a; Word d; }; Wr none{false, 0, Word(W, EL(0))}; std::deque<Wr> wp(RF_WR_LATENCY, none); std::deque<Word> rp(RF_RD_LATENCY, Word(EPW, EL(0)));
  int since = 0;
  for (int s = 0; s < STEPS; s++) {
    bool w = sx_in("wen", 1), st = s == STALLAT && sx_in("stall", 1), rs = s == RSTAT && sx_in("reset", 1); uint32_t ra = sx_pick("raddr", 8, 0, DEPTH - 1), wa = w ? sx_pick("waddr", 8, 0, DEPTH - 1) : 0, sl = s == STEPS - RF_RD_LATENCY ? sx_pick("slice", 8, 0, NSL - 1) : 0;
    Word d; for (int i = 0; i < W; i++) d.push_back(EL((int)sx_in("d", 8)));
    wdata.write(data_vector<EL>(d)); wen.write(w); stall.write(st); rst.write(rs); raddr.write(ra); waddr.write(wa); rid.write(sl); sk_step();
    // read first: the write completing at this edge is seen by later reads
    Wr c = wp.front(); if (c.en) mem[c.a] = c.d;
    if (rs) { for (auto &x : wp) x = none; since = 0; sx_reach("reset"); }
    else { wp.pop_front(); wp.push_back({w, wa, d}); if (!st) { rp.pop_front(); rp.push_back(Word(mem[ra].begin() + sl * EPW, mem[ra].begin() + (sl + 1) * EPW)); since++; } }
    if (since >= RF_RD_LATENCY) { data_vector<EL> o = rdata.read(); bool ok = o.size() >= EPW; for (int i = 0; ok && i < EPW; i++) ok &= (int)o[i] == (int)rp.front()[i]; sx_check(ok, "a read returns the slice it names of the latest completed write to its address"); sx_reach("read"); }
  }
  sx_reach("end");
}
