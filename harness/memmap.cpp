// the memory controller's address split for every shipped memory configuration
#include "axiskit.hpp"
#include <mem_controller.hpp>
#include <fstream>
struct Top : sc_module { std::vector<aximm_master_port *> p; Top(const sc_module_name &n, int k) : sc_module(n) { for (int i = 0; i < k; i++) p.push_back(new aximm_master_port()); } };
static int lg(uint64_t x) { int r = 0; while ((1ull << r) < x) r++; return r; }
extern "C" void harness() {
  radsim_config.ResizeAll(1); std::string root = "root"; radsim_config.AddStringKnobShared("radsim_root_dir", root); sim_log.SetLogSettings(0, "sim.log"); std::vector<int> qs{64}; radsim_config.AddIntVectorKnobPerRad("dram_queue_sizes", qs, 0); RADSimDesignContext *ctx = new RADSimDesignContext(0);
  std::ifstream l("list.txt"); std::string n; int cnt = 0;
  while (std::getline(l, n)) {
    if (cnt++ % PARTS != PART) continue;
    dramsim3::Config c("root/sim/dram/DRAMsim3/configs/" + n + ".ini", ".", 0); std::string tag = n + ": "; auto lab = [&](const char *s) { return strdup((tag + s).c_str()); };
    std::vector<std::string> cf{n}; radsim_config.AddStringVectorKnobPerRad("dram_config_files", cf, 0); std::vector<double> per{c.BL * c.tCK / 2}; radsim_config.AddDoubleVectorKnobPerRad("dram_clk_periods", per, 0);
    std::string mn = "mem" + std::to_string(cnt); mem_controller &m = *new mem_controller(mn.c_str(), 0, ctx); int k = m.GetNumChannels(); sx_check(k == c.channels, lab("one port per memory channel"));
    int off = lg(m.GetAddressableWordSize()); sx_check((int)m.GetAddressableWordSize() == c.bus_width / 8 * c.BL, lab("a word is one burst"));
    int bits = off + lg(c.columns) - lg(c.BL) + lg(c.banks_per_group) + lg(c.rows) + lg(c.bankgroups) + lg(c.ranks); // what one channel holds
    uint64_t mask = (1ull << bits) - 1;
    for (int ch = 0; ch < k; ch += k > 1 ? k - 1 : 1) {
      uint64_t a = sx_in("addr", 64), b = sx_in("addr2", 64), x = m.AddressMapping(a, ch), y = m.AddressMapping(b, ch); dramsim3::Address d = c.AddressMapping(x);
      sx_check((d.channel == ch) & ((int)m.ChannelFromAddr(x) == ch), lab("an access stays on the channel of the port it came through"));
      uint64_t w = (a & mask) >> off; auto take = [&](int n) { uint64_t v = w & ((1ull << n) - 1); w >>= n; return v; }; (void)take;
      sx_check((x & ((1ull << off) - 1)) == (a & ((1ull << off) - 1)), lab("the offset in a word is kept"));
      sx_check((x == y) == ((a & mask) == (b & mask)), lab("different addresses of a channel are different locations"));
      sx_check(bits + lg(c.channels) >= 64 || (x >> (bits + lg(c.channels))) == 0, lab("every location lies in the memory"));
      dramsim3::Address e = c.AddressMapping(y); bool same = (d.rank == e.rank) & (d.bankgroup == e.bankgroup) & (d.bank == e.bank) & (d.row == e.row) & (d.column == e.column);
      sx_check(same == (((a ^ b) & mask) >> off == 0), lab("different words of a channel are different locations of the device"));
    }
    if (k > 1) { uint64_t a = sx_in("addr", 64), b = sx_in("addr2", 64); sx_check(m.AddressMapping(a, 0) != m.AddressMapping(b, 1), lab("different channels are different locations")); }
    sx_reach("config");
  }
  sx_reach("end");
}
