#ifndef VERIF_STUB_SEED
#define VERIF_STUB_SEED
#include <initializer_list>
namespace boost { namespace random {
struct seed_seq { template <class I> seed_seq(std::initializer_list<I> const&) {} };
} }
#endif
