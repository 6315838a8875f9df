// Stand-in used by the harnesses: a generator whose every output is arbitrary.
#ifndef VERIF_STUB_MT
#define VERIF_STUB_MT
#include <cstdint>
#include "sx.h"
namespace boost { namespace random {
struct mt19937 {
  typedef std::uint32_t result_type;
  template <class Q> explicit mt19937(Q&) : calls(0) {}
  static constexpr result_type min() { return 0; }
  static constexpr result_type max() { return 0xffffffffu; }
  unsigned calls;
  result_type operator()() { sx_assume(++calls <= 8); return (result_type)sx_sym("rng", 32); }
};
} }
#endif
