// variant: plain
#include "pbt.h"
extern "C" {
#include "data/integer.h"
}
using namespace pbt;

Property property = {
  "C33",
  "all 2^32 values, in blocks of 2^20, against the definition by counting bits; every block is non-trivial",
  "exploration", {"1 counts as no power of two (documented: 1 is rounded up to 2 and down to 0), 0 rounds to 0", "rounding up is not judged above 2^31, where no result exists"}};

static void block(Case &c) {
  uint32_t base = (uint32_t)(c.idx << 20); c.note("values %u..%u", base, base + 0xfffff);
  for (uint32_t k = 0; k < 1u << 20; ++k) {
    uint32_t i = base + k; bool p = i > 1 && __builtin_popcount(i) == 1; if (integer_is_power_of_two(i) != p) fail("integer_is_power_of_two(%u) is %d", i, !p);
    uint32_t down = i < 2 ? 0 : 1u << (31 - __builtin_clz(i)), g = integer_rounddown_pow_of_two(i); if (g != down) fail("integer_rounddown_pow_of_two(%u) is %u, expected %u", i, g, down);
    if (i <= 1u << 31) { uint32_t up = i == 0 ? 0 : i == 1 ? 2 : down == i ? i : down << 1; g = integer_roundup_pow_of_two(i); if (g != up) fail("integer_roundup_pow_of_two(%u) is %u, expected %u", i, g, up); }
  }
  c.nontrivial();
}
std::vector<Suite> suites = {{"all", block, 4096, 4096, 60000, false, false, true}};
