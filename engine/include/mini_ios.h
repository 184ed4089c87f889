// A small re-implementation of the parts of <iostream> that TdZdd uses, so that stream
// code can be executed symbolically (the real library's streams live in a shared object).
// Only used for the symbolic run; counterexamples are replayed with the real streams.
#pragma once
#include <iosfwd>
#include <string>
#include <cstddef>
#include <cstdint>
#include <exception>
#include <bits/localefwd.h>
#include <bits/ostream_insert.h>

namespace std {
class mini_locale {};
class ios_base {
public:
    typedef unsigned fmtflags; typedef unsigned iostate; typedef unsigned openmode; typedef int seekdir;
    static const fmtflags boolalpha = 1, dec = 2, fixed = 4, hex = 8, internal = 16, left = 32, oct = 64, right = 128, scientific = 256, showbase = 512, showpoint = 1024, showpos = 2048, skipws = 4096, unitbuf = 8192, uppercase = 16384, adjustfield = left | right | internal, basefield = dec | oct | hex, floatfield = scientific | fixed;
    static const iostate goodbit = 0, badbit = 1, eofbit = 2, failbit = 4;
    static const openmode app = 1, ate = 2, binary = 4, in = 8, out = 16, trunc = 32;
    static const seekdir beg = 0, cur = 1, end = 2;
    class Init { public: Init() {} ~Init() {} };
    class failure : public exception {};
    ios_base() : fl(dec | skipws), w_(0), prec(6) {}
    virtual ~ios_base() {}
    fmtflags flags() const { return fl; }
    fmtflags flags(fmtflags f) { fmtflags o = fl; fl = f; return o; }
    fmtflags setf(fmtflags f) { fmtflags o = fl; fl |= f; return o; }
    fmtflags setf(fmtflags f, fmtflags m) { fmtflags o = fl; fl = (fl & ~m) | (f & m); return o; }
    void unsetf(fmtflags m) { fl &= ~m; }
    streamsize precision() const { return prec; }
    streamsize precision(streamsize p) { streamsize o = prec; prec = p; return o; }
    streamsize width() const { return w_; }
    streamsize width(streamsize w) { streamsize o = w_; w_ = w; return o; }
    static bool sync_with_stdio(bool = true) { return true; }
protected:
    fmtflags fl; streamsize w_, prec;
};

template<typename C, typename T> class basic_streambuf {
public:
    typedef C char_type; typedef int int_type; typedef T traits_type;
    virtual ~basic_streambuf() {}
    int sputc(char c) { return overflow((unsigned char)c); }
    streamsize sputn(const char* s, streamsize n) { return xsputn(s, n); }
    int sgetc() { return underflow(); }
    int sbumpc() { return uflow(); }
    int snextc() { if (uflow() == -1) return -1; return underflow(); }
    int sungetc() { return pbackfail(); }
    int sputbackc(char) { return pbackfail(); }
    int pubsync() { return sync(); }
    template<typename L> L pubimbue(L const& l) { return l; }
protected:
    basic_streambuf() {}
    virtual int overflow(int = -1) { return -1; }
    virtual streamsize xsputn(const char* s, streamsize n) { for (streamsize i = 0; i < n; ++i) if (overflow((unsigned char)s[i]) == -1) return i; return n; }
    virtual int underflow() { return -1; }
    virtual int uflow() { return -1; }
    virtual int pbackfail(int = -1) { return -1; }
    virtual int sync() { return 0; }
    virtual void imbue(locale const&) {}
};

template<typename C, typename T> class basic_ios : public ios_base {
public:
    typedef C char_type; typedef int int_type; typedef T traits_type;
    bool good() const { return st == 0; }
    bool eof() const { return st & eofbit; }
    bool fail() const { return st & (failbit | badbit); }
    bool bad() const { return st & badbit; }
    bool operator!() const { return fail(); }
    explicit operator bool() const { return !fail(); }
    iostate rdstate() const { return st; }
    void clear(iostate s = goodbit) { st = s; if (st & exc) mini_throw(); }
    void setstate(iostate s) { clear(st | s); }
    iostate exceptions() const { return exc; }
    void exceptions(iostate e) { exc = e; if (st & exc) mini_throw(); }
    basic_streambuf<C, T>* rdbuf() const { return sb; }
    basic_streambuf<C, T>* rdbuf(basic_streambuf<C, T>* b) { basic_streambuf<C, T>* o = sb; sb = b; st = 0; return o; }
    char fill() const { return fill_; }
    char fill(char c) { char o = fill_; fill_ = c; return o; }
    void imbue(locale const&) {}
    explicit basic_ios(basic_streambuf<C, T>* b) : sb(b), st(b ? 0 : badbit), exc(0), fill_(' ') {}
protected:
    basic_ios() : sb(0), st(0), exc(0), fill_(' ') {}
    void init(basic_streambuf<C, T>* b) { sb = b; st = b ? 0 : badbit; }
    static void mini_throw() { throw ios_base::failure(); }
    basic_streambuf<C, T>* sb; iostate st, exc; char fill_;
};
typedef basic_ios<char> ios;

template<typename C, typename T> class basic_ostream : virtual public basic_ios<C, T> {
public:
    typedef basic_ostream<char, T> self;
    class sentry { bool ok; public: explicit sentry(basic_ostream& o) : ok(o.good()) {} explicit operator bool() const { return ok; } };
    explicit basic_ostream(basic_streambuf<C, T>* b) { this->init(b); }
    virtual ~basic_ostream() {}
    self& put(char c) { if (this->good() && this->sb->sputc(c) == -1) this->setstate(ios_base::badbit); return *this; }
    self& write(const char* s, streamsize n) { for (streamsize i = 0; i < n; ++i) put(s[i]); return *this; }
    self& flush() { return *this; }
    self& mini_out(const char* s, size_t n) {
        size_t w = this->width() > 0 ? (size_t)this->width() : 0; this->width(0);
        size_t pad = w > n ? w - n : 0; bool l = (this->fl & ios_base::adjustfield) == ios_base::left;
        if (!l) for (size_t i = 0; i < pad; ++i) put(this->fill());
        for (size_t i = 0; i < n; ++i) put(s[i]);
        if (l) for (size_t i = 0; i < pad; ++i) put(this->fill());
        return *this;
    }
    self& mini_num(unsigned long long v, bool neg) {
        char b[72]; int k = 72; unsigned base = (this->fl & ios_base::hex) ? 16 : (this->fl & ios_base::oct) ? 8 : 10;
        do { unsigned d = (unsigned)(v % base); b[--k] = (char)(d < 10 ? '0' + d : 'a' + d - 10); v /= base; } while (v);
        if ((this->fl & ios_base::showbase) && base == 16) { b[--k] = 'x'; b[--k] = '0'; }
        if (neg) b[--k] = '-'; else if ((this->fl & ios_base::showpos) && base == 10) b[--k] = '+';
        return mini_out(b + k, (size_t)(72 - k));
    }
    template<typename I> self& mini_sgn(I v) { if (v < 0 && !(this->fl & (ios_base::hex | ios_base::oct))) return mini_num(0ULL - (unsigned long long)v, true); return mini_num((unsigned long long)v & (sizeof(I) >= 8 ? ~0ULL : (1ULL << (8 * sizeof(I))) - 1), false); }
    self& operator<<(bool v) { if (this->fl & ios_base::boolalpha) return v ? mini_out("true", 4) : mini_out("false", 5); return mini_num(v, false); }
    self& operator<<(short v) { return mini_sgn(v); }
    self& operator<<(unsigned short v) { return mini_num(v, false); }
    self& operator<<(int v) { return mini_sgn(v); }
    self& operator<<(unsigned v) { return mini_num(v, false); }
    self& operator<<(long v) { return mini_sgn(v); }
    self& operator<<(unsigned long v) { return mini_num(v, false); }
    self& operator<<(long long v) { return mini_sgn(v); }
    self& operator<<(unsigned long long v) { return mini_num(v, false); }
    self& operator<<(double v) { if (v < 0) { put('-'); v = -v; } mini_num((unsigned long long)v, false); put('.'); unsigned long long f = (unsigned long long)((v - (double)(unsigned long long)v) * 100); put((char)('0' + f / 10)); put((char)('0' + f % 10)); return *this; }
    self& operator<<(float v) { return *this << (double)v; }
    self& operator<<(long double v) { return *this << (double)v; }
    self& operator<<(const void* p) { return mini_num((unsigned long long)(uintptr_t)p, false); }
    self& operator<<(nullptr_t) { return mini_out("nullptr", 7); }
    self& operator<<(self& (*f)(self&)) { return f(*this); }
    self& operator<<(ios_base& (*f)(ios_base&)) { f(*this); return *this; }
    self& operator<<(basic_ios<C, T>& (*f)(basic_ios<C, T>&)) { f(*this); return *this; }
    self& operator<<(basic_streambuf<C, T>* b) { for (int c = b->sbumpc(); c != -1; c = b->sbumpc()) put((char)c); return *this; }
protected:
    basic_ostream() {}
};
inline basic_ostream<char, char_traits<char>>& operator<<(basic_ostream<char, char_traits<char>>& o, char c) { return o.mini_out(&c, 1); }
inline basic_ostream<char, char_traits<char>>& operator<<(basic_ostream<char, char_traits<char>>& o, signed char c) { char x = (char)c; return o.mini_out(&x, 1); }
inline basic_ostream<char, char_traits<char>>& operator<<(basic_ostream<char, char_traits<char>>& o, unsigned char c) { char x = (char)c; return o.mini_out(&x, 1); }
inline basic_ostream<char, char_traits<char>>& operator<<(basic_ostream<char, char_traits<char>>& o, const char* s) { size_t n = 0; while (s[n]) ++n; return o.mini_out(s, n); }
inline basic_ostream<char, char_traits<char>>& operator<<(basic_ostream<char, char_traits<char>>& o, const basic_string<char>& s) { return o.mini_out(s.data(), s.size()); }
template<typename C, typename T> basic_ostream<C, T>& endl(basic_ostream<C, T>& o) { return o.put('\n'); }
template<typename C, typename T> basic_ostream<C, T>& ends(basic_ostream<C, T>& o) { return o.put('\0'); }
template<typename C, typename T> basic_ostream<C, T>& flush(basic_ostream<C, T>& o) { return o; }
template<typename O, typename V> typename enable_if<!is_lvalue_reference<O>::value && is_base_of<ios_base, O>::value, O&&>::type operator<<(O&& o, V const& v) { static_cast<basic_ostream<char>&>(o) << v; return static_cast<O&&>(o); }
inline ios_base& left(ios_base& b) { b.setf(ios_base::left, ios_base::adjustfield); return b; }
inline ios_base& right(ios_base& b) { b.setf(ios_base::right, ios_base::adjustfield); return b; }
inline ios_base& internal(ios_base& b) { b.setf(ios_base::internal, ios_base::adjustfield); return b; }
inline ios_base& dec(ios_base& b) { b.setf(ios_base::dec, ios_base::basefield); return b; }
inline ios_base& hex(ios_base& b) { b.setf(ios_base::hex, ios_base::basefield); return b; }
inline ios_base& oct(ios_base& b) { b.setf(ios_base::oct, ios_base::basefield); return b; }
inline ios_base& fixed(ios_base& b) { b.setf(ios_base::fixed, ios_base::floatfield); return b; }
inline ios_base& scientific(ios_base& b) { b.setf(ios_base::scientific, ios_base::floatfield); return b; }
inline ios_base& boolalpha(ios_base& b) { b.setf(ios_base::boolalpha); return b; }
inline ios_base& noboolalpha(ios_base& b) { b.unsetf(ios_base::boolalpha); return b; }
inline ios_base& skipws(ios_base& b) { b.setf(ios_base::skipws); return b; }
inline ios_base& noskipws(ios_base& b) { b.unsetf(ios_base::skipws); return b; }
inline ios_base& showpos(ios_base& b) { b.setf(ios_base::showpos); return b; }

template<typename C, typename T> class basic_istream : virtual public basic_ios<C, T> {
    streamsize gc_;
public:
    typedef basic_istream<char, T> self;
    explicit basic_istream(basic_streambuf<C, T>* b) : gc_(0) { this->init(b); }
    virtual ~basic_istream() {}
    streamsize gcount() const { return gc_; }
    bool mini_sentry(bool noskip) {
        if (!this->good()) { this->setstate(ios_base::failbit); return false; }
        if (!noskip && (this->fl & ios_base::skipws)) {
            for (;;) { int c = this->sb->sgetc(); if (c == -1) { this->setstate(ios_base::failbit | ios_base::eofbit); return false; } if (!(c == ' ' || (c >= 9 && c <= 13))) break; this->sb->sbumpc(); }
        }
        return true;
    }
    int get() { gc_ = 0; if (!mini_sentry(true)) return -1; int c = this->sb->sbumpc(); if (c == -1) this->setstate(ios_base::eofbit | ios_base::failbit); else gc_ = 1; return c; }
    self& get(char& c) { int x = get(); if (x != -1) c = (char)x; return *this; }
    int peek() { gc_ = 0; if (!mini_sentry(true)) return -1; int c = this->sb->sgetc(); if (c == -1) this->setstate(ios_base::eofbit); return c; }
    self& unget() { gc_ = 0; this->clear(this->rdstate() & ~ios_base::eofbit); if (!mini_sentry(true)) return *this; if (this->sb->sungetc() == -1) this->setstate(ios_base::badbit); return *this; }
    self& putback(char) { return unget(); }
    self& ignore(streamsize n = 1, int delim = -1) { for (gc_ = 0; gc_ < n;) { int c = this->sb->sbumpc(); if (c == -1) { this->setstate(ios_base::eofbit); break; } ++gc_; if (c == delim) break; } return *this; }
    template<typename I> self& mini_int(I& v) {
        if (!mini_sentry(false)) return *this;
        bool neg = false; int c = this->sb->sgetc();
        if (c == '-' || c == '+') { neg = c == '-'; c = this->sb->snextc(); }
        bool any = false, ov = false; unsigned long long x = 0;
        const bool sg = I(-1) < I(0);
        const unsigned long long mx = sg ? (1ULL << (8 * sizeof(I) - 1)) - 1 : (~0ULL >> (64 - 8 * sizeof(I)));
        const unsigned long long lim = (sg && neg) ? mx + 1 : mx;
        while (c >= '0' && c <= '9') {
            any = true; unsigned d = (unsigned)(c - '0');
            if (x > (lim - d) / 10) ov = true; else x = x * 10 + d;
            c = this->sb->snextc();
        }
        ios_base::iostate e = 0;
        if (c == -1) e |= ios_base::eofbit;
        if (!any) { v = 0; e |= ios_base::failbit; }
        else if (ov) { v = (sg && neg) ? (I)(0 - mx - 1) : (I)mx; e |= ios_base::failbit; }
        else v = neg ? (I)(0 - x) : (I)x;
        if (e) this->setstate(e);
        return *this;
    }
    self& operator>>(short& v) { return mini_int(v); }
    self& operator>>(unsigned short& v) { return mini_int(v); }
    self& operator>>(int& v) { return mini_int(v); }
    self& operator>>(unsigned& v) { return mini_int(v); }
    self& operator>>(long& v) { return mini_int(v); }
    self& operator>>(unsigned long& v) { return mini_int(v); }
    self& operator>>(long long& v) { return mini_int(v); }
    self& operator>>(unsigned long long& v) { return mini_int(v); }
    self& operator>>(ios_base& (*f)(ios_base&)) { f(*this); return *this; }
    self& operator>>(self& (*f)(self&)) { return f(*this); }
protected:
    basic_istream() : gc_(0) {}
};
inline basic_istream<char, char_traits<char>>& operator>>(basic_istream<char, char_traits<char>>& i, char& c) { if (!i.mini_sentry(false)) return i; int x = i.rdbuf()->sbumpc(); if (x == -1) i.setstate(ios_base::eofbit | ios_base::failbit); else c = (char)x; return i; }
inline basic_istream<char, char_traits<char>>& operator>>(basic_istream<char, char_traits<char>>& i, basic_string<char>& s) {
    if (!i.mini_sentry(false)) return i;
    s.erase(); streamsize w = i.width() > 0 ? i.width() : (streamsize)1 << 60; i.width(0);
    int c = i.rdbuf()->sgetc(); bool any = false;
    while (c != -1 && !(c == ' ' || (c >= 9 && c <= 13)) && w-- > 0) { s += (char)c; any = true; c = i.rdbuf()->snextc(); }
    ios_base::iostate e = 0; if (c == -1) e |= ios_base::eofbit; if (!any) e |= ios_base::failbit; if (e) i.setstate(e);
    return i;
}
inline basic_istream<char, char_traits<char>>& getline(basic_istream<char, char_traits<char>>& i, basic_string<char>& s, char d = '\n') {
    if (!i.mini_sentry(true)) return i;
    s.erase(); bool any = false; int c = i.rdbuf()->sgetc();
    while (c != -1 && (char)c != d) { s += (char)c; any = true; c = i.rdbuf()->snextc(); }
    if (c == -1) i.setstate(any ? ios_base::eofbit : ios_base::eofbit | ios_base::failbit); else i.rdbuf()->sbumpc();
    return i;
}
template<typename C, typename T> basic_istream<C, T>& ws(basic_istream<C, T>& i) { for (;;) { int c = i.rdbuf()->sgetc(); if (c == -1) { i.setstate(ios_base::eofbit); break; } if (!(c == ' ' || (c >= 9 && c <= 13))) break; i.rdbuf()->sbumpc(); } return i; }

template<typename C, typename T> class basic_iostream : public basic_istream<C, T>, public basic_ostream<C, T> {
public:
    explicit basic_iostream(basic_streambuf<C, T>* b) : basic_istream<C, T>(b), basic_ostream<C, T>(b) { this->init(b); }
protected:
    basic_iostream() {}
};

_GLIBCXX_BEGIN_NAMESPACE_CXX11
template<typename C, typename T, typename A> class basic_stringbuf : public basic_streambuf<C, T> {
public:
    basic_string<char> s; size_t rp;
    basic_stringbuf() : rp(0) {}
    explicit basic_stringbuf(basic_string<char> const& x) : s(x), rp(0) {}
    basic_string<char> str() const { return s; }
    void str(basic_string<char> const& x) { s = x; rp = 0; }
protected:
    virtual int overflow(int c = -1) { if (c != -1) s.push_back((char)c); return c == -1 ? 0 : c; }
    virtual int underflow() { return rp < s.size() ? (unsigned char)s[rp] : -1; }
    virtual int uflow() { return rp < s.size() ? (unsigned char)s[rp++] : -1; }
    virtual int pbackfail(int = -1) { if (rp == 0) return -1; --rp; return (unsigned char)s[rp]; }
};
template<typename C, typename T, typename A> class basic_ostringstream : public basic_ostream<C, T> {
    basic_stringbuf<C, T, A> b;
public:
    basic_ostringstream() { this->init(&b); }
    explicit basic_ostringstream(ios_base::openmode) { this->init(&b); }
    explicit basic_ostringstream(basic_string<char> const& x) : b(x) { this->init(&b); }
    basic_string<char> str() const { return b.str(); }
    void str(basic_string<char> const& x) { b.str(x); }
};
template<typename C, typename T, typename A> class basic_istringstream : public basic_istream<C, T> {
    basic_stringbuf<C, T, A> b;
public:
    basic_istringstream() { this->init(&b); }
    explicit basic_istringstream(basic_string<char> const& x, ios_base::openmode = 0) : b(x) { this->init(&b); }
    basic_string<char> str() const { return b.str(); }
    void str(basic_string<char> const& x) { b.str(x); }
};
template<typename C, typename T, typename A> class basic_stringstream : public basic_iostream<C, T> {
    basic_stringbuf<C, T, A> b;
public:
    basic_stringstream() { this->init(&b); }
    explicit basic_stringstream(basic_string<char> const& x, ios_base::openmode = 0) : b(x) { this->init(&b); }
    basic_string<char> str() const { return b.str(); }
    void str(basic_string<char> const& x) { b.str(x); }
};
_GLIBCXX_END_NAMESPACE_CXX11
// files: there is no file system in the symbolic run; opening fails
template<typename C, typename T> class basic_filebuf : public basic_streambuf<C, T> {};
template<typename C, typename T> class basic_ifstream : public basic_istream<C, T> {
    basic_filebuf<C, T> b;
public:
    basic_ifstream() { this->init(&b); }
    explicit basic_ifstream(const char*, ios_base::openmode = ios_base::in) { this->init(&b); this->setstate(ios_base::failbit); }
    explicit basic_ifstream(basic_string<char> const&, ios_base::openmode = ios_base::in) { this->init(&b); this->setstate(ios_base::failbit); }
    bool is_open() const { return false; }
    void open(const char*, ios_base::openmode = ios_base::in) { this->setstate(ios_base::failbit); }
    void close() {}
};
template<typename C, typename T> class basic_ofstream : public basic_ostream<C, T> {
    basic_filebuf<C, T> b;
public:
    basic_ofstream() { this->init(&b); }
    explicit basic_ofstream(const char*, ios_base::openmode = ios_base::out) { this->init(&b); this->setstate(ios_base::failbit); }
    explicit basic_ofstream(basic_string<char> const&, ios_base::openmode = ios_base::out) { this->init(&b); this->setstate(ios_base::failbit); }
    bool is_open() const { return false; }
    void open(const char*, ios_base::openmode = ios_base::out) { this->setstate(ios_base::failbit); }
    void close() {}
};
struct mini_setw { int n; }; inline mini_setw setw(int n) { mini_setw r = {n}; return r; }
inline basic_ostream<char, char_traits<char>>& operator<<(basic_ostream<char, char_traits<char>>& o, mini_setw w) { o.width(w.n); return o; }
inline basic_istream<char, char_traits<char>>& operator>>(basic_istream<char, char_traits<char>>& o, mini_setw w) { o.width(w.n); return o; }
struct mini_setp { int n; }; inline mini_setp setprecision(int n) { mini_setp r = {n}; return r; }
inline basic_ostream<char, char_traits<char>>& operator<<(basic_ostream<char, char_traits<char>>& o, mini_setp w) { o.precision(w.n); return o; }
struct mini_setf { char n; }; inline mini_setf setfill(char n) { mini_setf r = {n}; return r; }
inline basic_ostream<char, char_traits<char>>& operator<<(basic_ostream<char, char_traits<char>>& o, mini_setf w) { o.fill(w.n); return o; }
extern istream cin; extern ostream cout, cerr, clog;
}
