#ifndef VERIF_STUB_CRC
#define VERIF_STUB_CRC
#include <cstddef>
#include <cstdint>
namespace boost { template <int, unsigned long long> struct crc_optimal { void process_block(void const*, void const*) {} std::uint64_t checksum() const { return 0; } }; }
#endif
