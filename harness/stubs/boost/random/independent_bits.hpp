#ifndef VERIF_STUB_BITS
#define VERIF_STUB_BITS
#include <cstddef>
#include "sx.h"
namespace boost { namespace random {
template <class E, std::size_t W, class U> struct independent_bits_engine {
  typedef U result_type;
  template <class Q> explicit independent_bits_engine(Q&) {}
  U operator()() { return (U)sx_sym("bits", (int)W); }
};
} }
#endif
