// Run-time library linked (as bitcode) into every symbolic run: C string functions, the
// out-of-line parts of libstdc++ containers and exceptions.
#include <cstddef>
#include <cstdint>
#include <cstring>
#include <cstdlib>
#include <exception>
#include <stdexcept>
#include <string>
#include <map>
#include <list>
#include <unordered_map>
#include <iostream>
#include <chrono>
#include <sys/time.h>

extern "C" {
#define RT __attribute__((used, noinline))
RT int memcmp(const void* a, const void* b, size_t n) noexcept { const unsigned char *x = (const unsigned char*)a, *y = (const unsigned char*)b; for (size_t i = 0; i < n; ++i) if (x[i] != y[i]) return x[i] < y[i] ? -1 : 1; return 0; }
RT int bcmp(const void* a, const void* b, size_t n) noexcept { const unsigned char *x = (const unsigned char*)a, *y = (const unsigned char*)b; for (size_t i = 0; i < n; ++i) if (x[i] != y[i]) return 1; return 0; }
RT size_t strlen(const char* s) noexcept { size_t n = 0; while (s[n]) { ++n; asm volatile(""); } return n; }
RT int strcmp(const char* a, const char* b) noexcept { for (size_t i = 0;; ++i) { if (a[i] != b[i]) return (unsigned char)a[i] < (unsigned char)b[i] ? -1 : 1; if (!a[i]) return 0; } }
RT int strncmp(const char* a, const char* b, size_t n) noexcept { for (size_t i = 0; i < n; ++i) { if (a[i] != b[i]) return (unsigned char)a[i] < (unsigned char)b[i] ? -1 : 1; if (!a[i]) return 0; } return 0; }
RT void* rt_memchr(const void* s, int c, size_t n) __asm__("memchr");
RT void* rt_memchr(const void* s, int c, size_t n) { const unsigned char* p = (const unsigned char*)s; for (size_t i = 0; i < n; ++i) if (p[i] == (unsigned char)c) return (void*)(p + i); return 0; }
RT char* rt_strchr(const char* s, int c) __asm__("strchr");
RT char* rt_strchr(const char* s, int c) { for (;; ++s) { if (*s == (char)c) return (char*)s; if (!*s) return 0; } }
RT char* strcpy(char* d, const char* s) noexcept { size_t i = 0; do d[i] = s[i]; while (s[i++]); return d; }
RT char* strcat(char* d, const char* s) noexcept { strcpy(d + strlen(d), s); return d; }
RT char* strncpy(char* d, const char* s, size_t n) noexcept { size_t i = 0; for (; i < n && s[i]; ++i) d[i] = s[i]; for (; i < n; ++i) d[i] = 0; return d; }
RT char* rt_strrchr(const char* s, int c) __asm__("strrchr");
RT char* rt_strrchr(const char* s, int c) { const char* r = 0; for (;; ++s) { if (*s == (char)c) r = s; if (!*s) return (char*)r; } }
RT char* rt_strstr(const char* s, const char* t) __asm__("strstr");
RT char* rt_strstr(const char* s, const char* t) { for (;; ++s) { size_t i = 0; while (t[i] && s[i] == t[i]) ++i; if (!t[i]) return (char*)s; if (!*s) return 0; } }
RT char* strdup(const char* s) noexcept { size_t n = strlen(s) + 1; char* r = (char*)malloc(n); for (size_t i = 0; i < n; ++i) r[i] = s[i]; return r; }
RT int isdigit(int c) noexcept { return c >= '0' && c <= '9'; }
RT int isspace(int c) noexcept { return c == ' ' || (c >= 9 && c <= 13); }
RT int isalpha(int c) noexcept { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
RT int isalnum(int c) noexcept { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || (c >= '0' && c <= '9'); }
RT int isupper(int c) noexcept { return c >= 'A' && c <= 'Z'; }
RT int islower(int c) noexcept { return c >= 'a' && c <= 'z'; }
RT int ispunct(int c) noexcept { return c > 32 && c < 127 && !isalnum(c); }
RT int isprint(int c) noexcept { return c >= 32 && c < 127; }
RT int toupper(int c) noexcept { return islower(c) ? c - 32 : c; }
RT int tolower(int c) noexcept { return isupper(c) ? c + 32 : c; }
RT lldiv_t lldiv(long long a, long long b) noexcept { lldiv_t r; r.quot = a / b; r.rem = a % b; return r; }
RT ldiv_t ldiv(long a, long b) noexcept { ldiv_t r; r.quot = a / b; r.rem = a % b; return r; }
RT div_t div(int a, int b) noexcept { div_t r; r.quot = a / b; r.rem = a % b; return r; }
static long long rt_strtoll(const char* s, char** e, int base) { const char* p = s; while (isspace(*p)) ++p; bool neg = false; if (*p == '-' || *p == '+') neg = *p++ == '-'; const char* q = p; long long v = 0; if (base == 0) base = 10; while (isdigit(*p)) v = v * base + (*p++ - '0'); if (e) *e = (char*)(p == q ? s : p); return neg ? -v : v; }
RT long rt_isoc_strtol(const char* s, char** e, int b) __asm__("__isoc23_strtol");
RT long rt_isoc_strtol(const char* s, char** e, int b) { return rt_strtoll(s, e, b); }
RT unsigned long rt_isoc_strtoul(const char* s, char** e, int b) __asm__("__isoc23_strtoul");
RT unsigned long rt_isoc_strtoul(const char* s, char** e, int b) { return (unsigned long)rt_strtoll(s, e, b); }
RT long long rt_isoc_strtoll(const char* s, char** e, int b) __asm__("__isoc23_strtoll");
RT long long rt_isoc_strtoll(const char* s, char** e, int b) { return rt_strtoll(s, e, b); }
RT unsigned long long rt_isoc_strtoull(const char* s, char** e, int b) __asm__("__isoc23_strtoull");
RT unsigned long long rt_isoc_strtoull(const char* s, char** e, int b) { return (unsigned long long)rt_strtoll(s, e, b); }
RT void qsort(void* a, size_t n, size_t w, int (*f)(const void*, const void*)) {
    char* p = (char*)a; for (size_t i = 1; i < n; ++i) for (size_t j = i; j > 0 && f(p + (j - 1) * w, p + j * w) > 0; --j) for (size_t k = 0; k < w; ++k) { char c = p[j * w + k]; p[j * w + k] = p[(j - 1) * w + k]; p[(j - 1) * w + k] = c; }
}
RT time_t time(time_t* t) noexcept { if (t) *t = 0; return 0; }
RT int gettimeofday(struct timeval* t, void*) noexcept { if (t) { t->tv_sec = 0; t->tv_usec = 0; } return 0; }
RT int* __errno_location() noexcept { static int e; return &e; }
RT char* strerror(int) noexcept { static char m[] = "error"; return m; }
RT double omp_get_wtime() { return 0; }
RT int omp_get_num_procs() { return 4; }
RT double ldexp(double x, int e) noexcept { while (e > 0) { x *= 2; --e; } while (e < 0) { x /= 2; ++e; } return x; }
RT char* rt_demangle(const char*, char*, size_t*, int* st) __asm__("__cxa_demangle");
RT char* rt_demangle(const char*, char*, size_t*, int* st) { if (st) *st = 0; char* r = (char*)malloc(2); r[0] = 't'; r[1] = 0; return r; }
}

namespace std {
namespace chrono { RT steady_clock::time_point steady_clock::now() noexcept { return time_point(); } RT system_clock::time_point system_clock::now() noexcept { return time_point(); } }
RT exception::~exception() noexcept {}
RT const char* exception::what() const noexcept { return "exception"; }
RT bad_alloc::~bad_alloc() noexcept {}
RT const char* bad_alloc::what() const noexcept { return "bad_alloc"; }
RT bad_cast::~bad_cast() noexcept {}
RT const char* bad_cast::what() const noexcept { return "bad_cast"; }
__cow_string::__cow_string() { _M_p = 0; }
__cow_string::__cow_string(const string& s) { char* p = (char*)malloc(s.size() + 1); memcpy(p, s.c_str(), s.size() + 1); _M_p = p; }
__cow_string::__cow_string(const char* s, size_t n) { char* p = (char*)malloc(n + 1); memcpy(p, s, n); p[n] = 0; _M_p = p; }
__cow_string::__cow_string(const __cow_string& o) noexcept { _M_p = o._M_p ? strdup(o._M_p) : 0; }
__cow_string::~__cow_string() { free((void*)_M_p); }
#define DEFEXC(N) \
    N::N(const string& s) : _M_msg(s) {} N::N(const char* s) : _M_msg(s, strlen(s)) {} \
    N::N(const N& o) noexcept : exception(o), _M_msg(o._M_msg) {} N::~N() noexcept {} const char* N::what() const noexcept { return _M_msg._M_p ? _M_msg._M_p : ""; }
DEFEXC(runtime_error) DEFEXC(logic_error)
#define SUBEXC(N, B) N::N(const string& s) : B(s) {} N::N(const char* s) : B(s) {} N::~N() noexcept {}
SUBEXC(out_of_range, logic_error) SUBEXC(length_error, logic_error) SUBEXC(invalid_argument, logic_error) SUBEXC(domain_error, logic_error) SUBEXC(range_error, runtime_error) SUBEXC(overflow_error, runtime_error) SUBEXC(underflow_error, runtime_error)

// red-black trees (an unbalanced binary search tree has the same observable behaviour
// through std::map/std::set; parents, leftmost and rightmost links are kept as required)
RT _Rb_tree_node_base* _Rb_tree_increment(_Rb_tree_node_base* x) noexcept {
    if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; return x; }
    _Rb_tree_node_base* y = x->_M_parent;
    while (x == y->_M_right) { x = y; y = y->_M_parent; }
    if (x->_M_right != y) x = y;
    return x;
}
RT const _Rb_tree_node_base* _Rb_tree_increment(const _Rb_tree_node_base* x) noexcept { return _Rb_tree_increment(const_cast<_Rb_tree_node_base*>(x)); }
RT _Rb_tree_node_base* _Rb_tree_decrement(_Rb_tree_node_base* x) noexcept {
    if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) return x->_M_right; // end()
    if (x->_M_left) { x = x->_M_left; while (x->_M_right) x = x->_M_right; return x; }
    _Rb_tree_node_base* y = x->_M_parent;
    while (x == y->_M_left) { x = y; y = y->_M_parent; }
    return y;
}
RT const _Rb_tree_node_base* _Rb_tree_decrement(const _Rb_tree_node_base* x) noexcept { return _Rb_tree_decrement(const_cast<_Rb_tree_node_base*>(x)); }
RT void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base* x, _Rb_tree_node_base* p, _Rb_tree_node_base& h) noexcept {
    x->_M_parent = p; x->_M_left = 0; x->_M_right = 0; x->_M_color = _S_black;
    if (left) { p->_M_left = x; if (p == &h) { h._M_parent = x; h._M_right = x; } else if (p == h._M_left) h._M_left = x; }
    else { p->_M_right = x; if (p == h._M_right) h._M_right = x; }
}
RT _Rb_tree_node_base* _Rb_tree_rebalance_for_erase(_Rb_tree_node_base* const z, _Rb_tree_node_base& h) noexcept {
    _Rb_tree_node_base* y = z; _Rb_tree_node_base* x;
    if (!y->_M_left) x = y->_M_right; else if (!y->_M_right) x = y->_M_left;
    else { y = y->_M_right; while (y->_M_left) y = y->_M_left; x = y->_M_right; }
    if (y != z) {
        z->_M_left->_M_parent = y; y->_M_left = z->_M_left;
        if (y != z->_M_right) { if (x) x->_M_parent = y->_M_parent; y->_M_parent->_M_left = x; y->_M_right = z->_M_right; z->_M_right->_M_parent = y; }
        if (h._M_parent == z) h._M_parent = y; else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = y; else z->_M_parent->_M_right = y;
        y->_M_parent = z->_M_parent;
    } else {
        if (x) x->_M_parent = y->_M_parent;
        if (h._M_parent == z) h._M_parent = x; else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = x; else z->_M_parent->_M_right = x;
        if (h._M_left == z) { if (!z->_M_right) h._M_left = z->_M_parent; else { _Rb_tree_node_base* t = x; while (t->_M_left) t = t->_M_left; h._M_left = t; } }
        if (h._M_right == z) { if (!z->_M_left) h._M_right = z->_M_parent; else { _Rb_tree_node_base* t = x; while (t->_M_right) t = t->_M_right; h._M_right = t; } }
    }
    return z;
}
namespace __detail {
RT void _List_node_base::swap(_List_node_base& x, _List_node_base& y) noexcept {
    if (x._M_next != &x) {
        if (y._M_next != &y) { _List_node_base* t = x._M_next; x._M_next = y._M_next; y._M_next = t; t = x._M_prev; x._M_prev = y._M_prev; y._M_prev = t; x._M_next->_M_prev = x._M_prev->_M_next = &x; y._M_next->_M_prev = y._M_prev->_M_next = &y; }
        else { y._M_next = x._M_next; y._M_prev = x._M_prev; y._M_next->_M_prev = y._M_prev->_M_next = &y; x._M_next = x._M_prev = &x; }
    } else if (y._M_next != &y) { x._M_next = y._M_next; x._M_prev = y._M_prev; x._M_next->_M_prev = x._M_prev->_M_next = &x; y._M_next = y._M_prev = &y; }
}
RT void _List_node_base::_M_reverse() noexcept { _List_node_base* t = this; do { _List_node_base* n = t->_M_next; t->_M_next = t->_M_prev; t->_M_prev = n; t = n; } while (t != this); }
RT void _List_node_base::_M_hook(_List_node_base* const p) noexcept { _M_next = p; _M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this; }
RT void _List_node_base::_M_unhook() noexcept { _M_prev->_M_next = _M_next; _M_next->_M_prev = _M_prev; }
RT void _List_node_base::_M_transfer(_List_node_base* const f, _List_node_base* const l) noexcept { if (this != l) { l->_M_prev->_M_next = this; f->_M_prev->_M_next = l; _M_prev->_M_next = f; _List_node_base* t = _M_prev; _M_prev = l->_M_prev; l->_M_prev = f->_M_prev; f->_M_prev = t; } }
RT size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const { size_t b = 13; while (b < n) b = b * 2 + 1; _M_next_resize = b; return b; }
RT pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash(size_t nb, size_t ne, size_t ni) const { if (ne + ni > _M_next_resize || _M_next_resize == 0) { size_t w = ne + ni + 1; if (w < nb * 2) w = nb * 2; return pair<bool, size_t>(true, _M_next_bkt(w)); } return pair<bool, size_t>(false, 0); }
}
RT size_t _Hash_bytes(const void* p, size_t n, size_t seed) { const unsigned char* s = (const unsigned char*)p; size_t h = seed; for (size_t i = 0; i < n; ++i) h = h * 31 + s[i]; return h; }
static struct mini_null : streambuf { int overflow(int c) { return c; } } nullbuf;
istream cin(&nullbuf); ostream cout(&nullbuf), cerr(&nullbuf), clog(&nullbuf);
}
template class std::basic_string<char>; // members that are instantiated in the shared library
