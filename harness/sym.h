// Interface between harnesses and the symbolic engine (or the native replayer).
#pragma once
#include <cstdint>
#include <cstddef>
extern "C" {
uint64_t __sym(const char* name, unsigned bits);                       // arbitrary value
int64_t __sym_range(const char* name, int64_t lo, int64_t hi);         // arbitrary value in [lo,hi]
void __assume(uint64_t c);
void __check(uint64_t c, const char* msg);                             // the asserted property
uint64_t __concretize(uint64_t v);                                     // split over all values
void __cover(const char* label);                                       // reachability witness
int64_t __param(const char* name, int64_t dflt);                       // bound given by the check
uint64_t __live_allocs(void);                                          // live heap blocks
void __trace(const char* s, uint64_t v);
int __in_engine(void);
void __end_path(void) __attribute__((noreturn));
}
static inline int symInt(const char* n, int lo, int hi) { return (int)__sym_range(n, lo, hi); }
static inline int choose(const char* n, int lo, int hi) { return (int)__concretize((uint64_t)__sym_range(n, lo, hi)); }
static inline bool symBool(const char* n) { return __sym(n, 1) != 0; }
#define CHECK(c, msg) __check((uint64_t)(bool)(c), msg)
