// Interface between harnesses and the symbolic executor (engine/sx.cpp); harness/native_rt.cpp implements
// the same interface for native replay of the solver's inputs.
#ifndef VERIF_SX_H
#define VERIF_SX_H
#include <cstddef>
#include <cstdint>
typedef std::uint64_t u64;
extern "C" {
u64 sx_sym(const char* name, int bits);              // arbitrary value of that many bits
u64 sx_range(const char* name, u64 lo, u64 hi);      // arbitrary value in [lo, hi]
bool sx_bool(const char* name);
void sx_assume(bool c);
void sx_check(bool c, const char* msg);              // assertion decided by the solver
u64 sx_split(u64 x);                                 // one path per feasible value of x
void sx_cover(const char* name);                     // reachability witness
u64 sx_param(const char* name, u64 dflt);            // concrete bound from the command line
void sx_gset(const void* p, u64 v);                  // ghost word of an address, dies with its object
u64 sx_gget(const void* p);
void sx_readonly(bool on);                           // existing heap objects may not be written
u64 sx_work();                                       // basic blocks and functions entered so far (0 natively unless built for it)
u64 sx_heap_live();
u64 sx_block_size(const void* p);
void sx_trace(u64 v);                                // compared between engine and native run
}
#endif
