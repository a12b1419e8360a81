// every shipped memory configuration: what a 64-bit address decodes to
#include <fstream>
#include <vector>
#include <string>
#include "sx.h"
#include "configuration.h"
using namespace dramsim3;
static int lg(long x) { int r = 0; while ((1l << r) < x) r++; return r; }
extern "C" void harness() {
  std::ifstream l("list.txt"); std::string n; int cnt = 0;
  while (std::getline(l, n)) {
    if (cnt++ % PARTS != PART) continue;
    Config *cp = new Config("configs/" + n, ".", 0); const Config &c = *cp; std::string tag = n + ": "; auto lab = [&](const char *s) { return strdup((tag + s).c_str()); };
    uint64_t a = sx_in("addr", 64), b = sx_in("addr2", 64); Address x = c.AddressMapping(a), y = c.AddressMapping(b);
    sx_check((x.channel >= 0) & (x.channel < c.channels) & (x.rank >= 0) & (x.rank < c.ranks) & (x.bankgroup >= 0) & (x.bankgroup < c.bankgroups) & (x.bank >= 0) & (x.bank < c.banks_per_group) & (x.row >= 0) & (x.row < c.rows) & (x.column >= 0) & (x.column < c.columns / c.BL || c.columns < c.BL), lab("every address decodes to an existing location"));
    // the layout its mapping string asks for
    uint64_t v = a; int off = lg((long)c.bus_width / 8 * c.BL), pos = off; v >>= off; uint64_t back = 0; int bits = off; bool same = true;
    for (int i = 10; i >= 0; i -= 2) {
      std::string f = c.address_mapping.substr(i, 2); 
      int w = f == "ch" ? lg(c.channels) : f == "ra" ? lg(c.ranks) : f == "bg" ? lg(c.bankgroups) : f == "ba" ? lg(c.banks_per_group) : f == "ro" ? lg(c.rows) : lg(c.columns) - lg(c.BL);
      uint64_t e = v & ((1ull << w) - 1); v >>= w; uint64_t g = f == "ch" ? x.channel : f == "ra" ? x.rank : f == "bg" ? x.bankgroup : f == "ba" ? x.bank : f == "ro" ? x.row : x.column;
      same &= e == g; bits += w; (void)pos;
    }
    sx_check(same, lab("an address decodes to the fields its mapping string lists"));
    bool eq = (x.channel == y.channel) & (x.rank == y.rank) & (x.bankgroup == y.bankgroup) & (x.bank == y.bank) & (x.row == y.row) & (x.column == y.column);
    uint64_t m = (bits >= 64 ? ~0ull : (1ull << bits) - 1) & ~((1ull << off) - 1);
    sx_check(eq == ((a & m) == (b & m)), lab("addresses decode to the same location only if they differ in nothing but burst offset and bits above the capacity"));
    // the capacity the configuration promises
    sx_check(bits == lg((long)c.channel_size) + 20 + lg(c.channels) , lab("the decoded bits cover the capacity of the memory"));
    sx_reach("config");
  }
  sx_reach("end");
}
