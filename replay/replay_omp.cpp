// A deterministic OpenMP run time (the entry points clang generates) for replaying one
// schedule: the threads of a team are coroutines, switched exactly where the symbolic
// engine switches them, following the recorded "sched" inputs.
#include <ucontext.h>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdarg>
#include <cstdint>
#include <vector>
#include <map>
#include "../harness/sym.h"
void replay_fail(const char* kind, const char* msg);
uint64_t replay_next(const char* name);
typedef int64_t i64;
typedef void (*micro_t)(int*, int*, ...);
enum St { RUN, BARRIER, CRIT, DONE };
struct Team;
struct Th { ucontext_t c; char* stk; int tid, gt, bt; St st = RUN; void* lk = 0; bool just = false; int loopSeq = 0, singleSeq = 0; Team* tm; };
struct Loop { i64 next, ub, st, chunk; bool init = false; };
struct Team { int n; std::vector<Th*> th; int arrived = 0; ucontext_t master; micro_t fn; std::vector<void*> args; std::map<int, Loop> loops; std::map<int, int> singles; };
static Th* cur = 0; static std::map<void*, Th*> owner; static int setN = -1; static int schedDelays = 0;
static int nthr() { return setN > 0 ? (setN > 7 ? 7 : setN) : (int)__param("__threads", 2); }
static bool runnable(Th* t) { if (t->st == RUN) return true; if (t->st == CRIT) { auto i = owner.find(t->lk); return i == owner.end() || !i->second; } return false; }
static Th* pick(Team* tm) {
    std::vector<Th*> c; int from = (cur && cur->tm == tm ? cur->tid : 0) + (__param("__base", 0) == 1 ? 1 : 0);
    for (int i = 0; i < tm->n; ++i) { Th* t = tm->th[(from + i) % tm->n]; if (runnable(t)) c.push_back(t); }
    if (c.empty()) replay_fail("deadlock", "no runnable thread");
    size_t k = 0;
    if (c.size() > 1 && schedDelays < __param("__delays", 1 << 30)) { k = replay_next("sched"); if (k >= c.size()) k = 0; if (k) schedDelays++; }
    c[k]->st = RUN; c[k]->just = true; return c[k];
}
static void switchTo(Th* t) { if (t == cur) return; Th* o = cur; cur = t; swapcontext(&o->c, &t->c); }
static void schedPoint() {
    Team* tm = cur ? cur->tm : 0; if (!tm || tm->n < 2) return;
    Th* me = cur;
    if (me->just) { me->just = false; return; }
    Th* n = pick(tm);
    if (n != me) switchTo(n);
    me->just = false;
}
static void callMicro(micro_t f, int* g, int* b, std::vector<void*>& a) {
    a.resize(24, 0);
    f(g, b, a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8], a[9], a[10], a[11], a[12], a[13], a[14], a[15], a[16], a[17], a[18], a[19], a[20], a[21], a[22], a[23]);
}
static void tramp() {
    Th* t = cur; Team* tm = t->tm; t->gt = t->bt = t->tid;
    std::vector<void*> a = tm->args; callMicro(tm->fn, &t->gt, &t->bt, a);
    t->st = DONE;
    bool all = true; for (Th* q : tm->th) if (q->st != DONE) all = false;
    if (all) { cur = 0; setcontext(&tm->master); }
    // arrived counters: a finished thread may complete a barrier (does not happen in OpenMP programs)
    Th* n = pick(tm); n->just = false; cur = n; setcontext(&n->c);
    abort();
}
static void acquire(void* lk) {
    if (!cur || cur->tm->n < 2) return;
    Th* me = cur;
    for (;;) {
        schedPoint();
        if (!owner[lk]) { owner[lk] = me; return; }
        me->st = CRIT; me->lk = lk; Th* n = pick(me->tm); if (n != me) switchTo(n);
    }
}
static void release(void* lk) { if (!cur || cur->tm->n < 2) return; owner[lk] = 0; }
static void barrier() {
    if (!cur || cur->tm->n < 2) return;
    Team* tm = cur->tm; Th* me = cur;
    me->st = BARRIER; tm->arrived++;
    int alive = 0; for (Th* t : tm->th) if (t->st != DONE) alive++;
    if (tm->arrived == alive) { tm->arrived = 0; for (Th* t : tm->th) { if (t->st == BARRIER) t->st = RUN; t->just = false; } }
    Th* n = pick(tm); n->just = false; switchTo(n); me->just = false;
}
extern "C" {
void __kmpc_fork_call(void*, int argc, micro_t f, ...) {
    std::vector<void*> a; va_list v; va_start(v, f); for (int i = 0; i < argc; ++i) a.push_back(va_arg(v, void*)); va_end(v);
    int n = nthr(); if (cur && cur->tm->n > 1) n = 1;
    if (n == 1) { int g = cur ? cur->tid : 0, b = 0; callMicro(f, &g, &b, a); return; }
    Team tm; tm.n = n; tm.fn = f; tm.args = a; Th* saved = cur;
    for (int i = 0; i < n; ++i) {
        Th* t = new Th; t->tid = i; t->tm = &tm; t->stk = (char*)aligned_alloc(64, 1 << 20);
        getcontext(&t->c); t->c.uc_stack.ss_sp = t->stk; t->c.uc_stack.ss_size = 1 << 20; t->c.uc_link = 0; makecontext(&t->c, tramp, 0); tm.th.push_back(t);
    }
    Th* first = pick(&tm); first->just = false; cur = first; swapcontext(&tm.master, &first->c);
    cur = saved;
    for (Th* t : tm.th) { free(t->stk); delete t; }
}
int __kmpc_global_thread_num(void*) { return cur ? cur->tid : 0; }
int omp_get_thread_num() { return cur ? cur->tid : 0; }
int omp_get_max_threads() { return setN > 0 ? setN : (int)__param("__threads", 2); }
int omp_get_num_threads() { return cur ? cur->tm->n : 1; }
int omp_in_parallel() { return cur != 0; }
void omp_set_num_threads(int n) { setN = n; }
double omp_get_wtime() { return 0; }
int omp_get_num_procs() { return 4; }
void __kmpc_push_num_threads(void*, int, int) {}
void __kmpc_serialized_parallel(void*, int) {}
void __kmpc_end_serialized_parallel(void*, int) {}
void __kmpc_flush(void*) {}
void __race_point() { schedPoint(); }
void __kmpc_for_static_fini(void*, int) {}
#define STATIC(NAME, TY) void NAME(void*, int, int sched, int* last, TY* pl, TY* pu, TY* ps, TY inc_, TY ch_) { \
    sched &= 0xff; i64 lb = (i64)*pl, ub = (i64)*pu, inc = (i64)inc_, ch = (i64)ch_; int nt = cur ? cur->tm->n : 1, t = cur ? cur->tid : 0; if (!inc) inc = 1; \
    i64 trip = inc > 0 ? (ub < lb ? 0 : (ub - lb) / inc + 1) : (lb < ub ? 0 : (lb - ub) / -inc + 1); \
    if (sched == 33) { if (ch < 1) ch = 1; *ps = (TY)(ch * inc * nt); i64 l2 = lb + t * ch * inc; *pl = (TY)l2; *pu = (TY)(l2 + ch * inc - inc); if (last) *last = t == (int)((trip - 1) / ch % nt); } \
    else { i64 small = trip / nt, ex = trip % nt, mine = small + (t < ex ? 1 : 0), start = t * small + (t < ex ? t : ex); i64 l2 = lb + start * inc, u2 = l2 + mine * inc - inc; if (!trip) { l2 = ub + inc; u2 = ub; } *pl = (TY)l2; *pu = (TY)u2; *ps = (TY)(trip * inc); if (last) *last = mine > 0 && start + mine == trip; } }
STATIC(__kmpc_for_static_init_4, int32_t) STATIC(__kmpc_for_static_init_4u, int32_t) STATIC(__kmpc_for_static_init_8, int64_t) STATIC(__kmpc_for_static_init_8u, int64_t)
static Team* solo() { static Team t; t.n = 1; return &t; }
static int soloSeq = 0;
static Loop& loopOf(bool next) { if (cur) { if (next) ++cur->loopSeq; return cur->tm->loops[cur->loopSeq]; } if (next) ++soloSeq; return solo()->loops[soloSeq]; }
#define DISP(SFX, TY) \
void __kmpc_dispatch_init_##SFX(void*, int, int, TY lb, TY ub, TY st, TY ch) { Loop& L = loopOf(true); if (!L.init) { L.init = true; L.next = lb; L.ub = ub; L.st = st; L.chunk = ch < 1 ? 1 : ch; } } \
int __kmpc_dispatch_next_##SFX(void*, int, int* last, TY* pl, TY* pu, TY* ps) { schedPoint(); Loop& L = loopOf(false); bool more = L.st > 0 ? L.next <= L.ub : L.next >= L.ub; if (!more) return 0; i64 lo = L.next, hi = lo + (L.chunk - 1) * L.st; bool la = false; if (L.st > 0 ? hi >= L.ub : hi <= L.ub) { hi = L.ub; la = true; } L.next = lo + L.chunk * L.st; *pl = (TY)lo; *pu = (TY)hi; if (ps) *ps = (TY)L.st; if (last) *last = la; return 1; } \
void __kmpc_dispatch_fini_##SFX(void*, int) {}
DISP(4, int32_t) DISP(4u, int32_t) DISP(8, int64_t) DISP(8u, int64_t)
void __kmpc_dispatch_deinit(void*, int) {}
void __kmpc_barrier(void*, int) { barrier(); }
void __kmpc_critical(void*, int, void* lk) { acquire(lk); }
void __kmpc_critical_with_hint(void*, int, void* lk, unsigned) { acquire(lk); }
void __kmpc_end_critical(void*, int, void* lk) { release(lk); }
int __kmpc_single(void*, int) { if (!cur || cur->tm->n < 2) return 1; schedPoint(); int& s = cur->tm->singles[++cur->singleSeq]; int r = s == 0; s = 1; return r; }
void __kmpc_end_single(void*, int) {}
int __kmpc_master(void*, int) { return !cur || cur->tid == 0; }
int __kmpc_masked(void*, int, int) { return !cur || cur->tid == 0; }
void __kmpc_end_master(void*, int) {}
void __kmpc_end_masked(void*, int) {}
int __kmpc_reduce_nowait(void*, int, int, size_t, void*, void (*)(void*, void*), void* lk) { acquire(lk); return 1; }
int __kmpc_reduce(void*, int, int, size_t, void*, void (*)(void*, void*), void* lk) { acquire(lk); return 1; }
void __kmpc_end_reduce_nowait(void*, int, void* lk) { release(lk); }
void __kmpc_end_reduce(void*, int, void* lk) { release(lk); barrier(); }
}
