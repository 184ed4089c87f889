// Native counterpart of the symbolic harness API: replays one solver assignment against
// an ordinary build of the same harness and the same /repo sources.
//   ./replay INPUTS [name=value ...]      exit 0 held, 42 check failed, others: crash/sanitizer
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <map>
#include <new>
#include <exception>
#include <unistd.h>
#include "../harness/sym.h"

static std::vector<std::pair<std::string, uint64_t>>* ins; static size_t pos;
static std::map<std::string, int64_t>* params;
static uint64_t liveN;
static bool counting = false;
// live blocks allocated while counting (blocks that come from inside shared libraries are not ours)
enum { NB = 1 << 20 }; static void* blk[NB];
static void got(void* p) { if (!p || !counting) return; size_t i = ((size_t)p >> 4) % NB; for (size_t k = 0; k < NB; ++k, i = (i + 1) % NB) if (!blk[i] || blk[i] == (void*)1) { blk[i] = p; liveN++; return; } }
static void gone(void* p) { if (!p || !counting) return; size_t i = ((size_t)p >> 4) % NB; for (size_t k = 0; k < NB && blk[i]; ++k, i = (i + 1) % NB) if (blk[i] == p) { blk[i] = (void*)1; liveN--; return; } }
uint64_t replay_next(const char* name) {
    if (pos < ins->size()) {
        if ((*ins)[pos].first != name) { fprintf(stderr, "REPLAY DIVERGED at input %zu: expected %s, asked for %s\n", pos, (*ins)[pos].first.c_str(), name); fflush(0); _exit(77); }
        return (*ins)[pos++].second;
    }
    pos++; return 0;
}
static void die(int rc) { fflush(0); _exit(rc); }
void replay_fail(const char* kind, const char* msg) { fprintf(stderr, "REPLAY %s: %s\n", kind, msg); die(42); }
extern "C" {
uint64_t __sym(const char* name, unsigned bits) { uint64_t v = replay_next(name); return bits >= 64 ? v : v & ((1ULL << bits) - 1); }
int64_t __sym_range(const char* name, int64_t lo, int64_t hi) { if (lo > hi) die(0); uint64_t v = replay_next(name); return (int64_t)((uint64_t)lo + v); }
void __assume(uint64_t c) { if (!c) { fprintf(stderr, "REPLAY assumption false\n"); die(78); } }
void __check(uint64_t c, const char* msg) { if (!c) { fprintf(stderr, "REPLAY check failed: %s\n", msg); die(42); } }
uint64_t __concretize(uint64_t v) { return v; }
void __cover(const char*) {}
int64_t __param(const char* name, int64_t d) { auto i = params->find(name); return i == params->end() ? d : i->second; }
uint64_t __live_allocs(void) { return liveN; }
void __trace(const char* s, uint64_t v) { fprintf(stderr, "trace %s %lld\n", s, (long long)v); }
int __in_engine(void) { return 0; }
int rand(void) { return (int)(replay_next("rand") & 0x7fffffff); }
void __end_path(void) { die(0); }
void harness_main(void);
// counted allocation (linked with -Wl,--wrap=malloc ...)
void* __real_malloc(size_t); void* __real_calloc(size_t, size_t); void* __real_realloc(void*, size_t); void __real_free(void*);
int __real_posix_memalign(void**, size_t, size_t);
void* __wrap_malloc(size_t n) { void* p = __real_malloc(n); got(p); return p; }
void* __wrap_calloc(size_t n, size_t m) { void* p = __real_calloc(n, m); got(p); return p; }
void* __wrap_realloc(void* q, size_t n) { gone(q); void* p = __real_realloc(q, n); got(p); return p; }
void __wrap_free(void* p) { gone(p); __real_free(p); }
int __wrap_posix_memalign(void** p, size_t a, size_t n) { int r = __real_posix_memalign(p, a, n); if (!r) got(*p); return r; }
}
void* operator new(size_t n) { void* p = __real_malloc(n); if (!p) throw std::bad_alloc(); got(p); return p; }
void* operator new[](size_t n) { void* p = __real_malloc(n); if (!p) throw std::bad_alloc(); got(p); return p; }
void* operator new(size_t n, std::nothrow_t const&) noexcept { void* p = __real_malloc(n); got(p); return p; }
void* operator new[](size_t n, std::nothrow_t const&) noexcept { void* p = __real_malloc(n); got(p); return p; }
void operator delete(void* p) noexcept { gone(p); __real_free(p); }
void operator delete[](void* p) noexcept { gone(p); __real_free(p); }
void operator delete(void* p, size_t) noexcept { gone(p); __real_free(p); }
void operator delete[](void* p, size_t) noexcept { gone(p); __real_free(p); }
void operator delete(void* p, std::nothrow_t const&) noexcept { gone(p); __real_free(p); }
void operator delete[](void* p, std::nothrow_t const&) noexcept { gone(p); __real_free(p); }

int main(int argc, char** argv) {
    ins = new std::vector<std::pair<std::string, uint64_t>>; params = new std::map<std::string, int64_t>;
    if (argc < 2) { fprintf(stderr, "usage: replay INPUTS [name=value ...]\n"); return 3; }
    FILE* f = fopen(argv[1], "r"); if (!f) { perror(argv[1]); return 3; }
    char nm[256]; unsigned long long v;
    while (fscanf(f, "%255s %llu", nm, &v) == 2) ins->push_back({nm, v});
    fclose(f);
    for (int i = 2; i < argc; ++i) { char* e = strchr(argv[i], '='); if (e) (*params)[std::string(argv[i], e)] = atoll(e + 1); }
    alarm(60);
    counting = true;
    harness_main();
    counting = false;
    fprintf(stderr, "REPLAY held\n");
    die(0);
}
