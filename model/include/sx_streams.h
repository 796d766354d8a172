// Model of the iostreams library used only for the symbolic run.
//  * a file system of in-memory byte strings, string streams, cout/cerr,
//  * numbers whose value is concrete are formatted and parsed exactly as by printf/strtod,
//  * numbers whose value is symbolic are written as an opaque token and read back as the
//    same value (formatting of such a number is taken to be lossless).
#ifndef SX_STREAMS_H
#define SX_STREAMS_H
#include <iosfwd>
#include <string>
#include <stdexcept>
#include <cstdint>
#include <cstring>
#include <cstdlib>
extern "C" {
int sx_memsym(const void*, size_t); int sx_memeq(const void*, const void*, size_t);
int sx_symbolic_f64(double); int sx_symbolic_f32(float); int sx_symbolic_i64(int64_t);
int sx_fmt(char* buf, int cap, const char* fmt, double v);
double sx_parse(const char*); double sx_real(const char*, double, double); int64_t sx_i64(const char*, int64_t, int64_t);
void sx_unsupported(const char*);
}
namespace sxm {
    // opaque number tokens: \x01 kind(1) id(6 hex) \x02
    struct Tok { char kind; double d; int64_t i; };
    int tokPut(char kind, double d, int64_t i);
    const Tok& tokGet(int id);
    std::string tokText(int id);
    std::string* file(const std::string& name, bool create); // nullptr when missing
    bool dirExists(const std::string& name);
    bool isSym(const char* p, size_t n);
}
namespace std {
inline namespace __cxx11 {}
class ios_base {
public:
    typedef unsigned fmtflags; typedef unsigned iostate; typedef unsigned openmode; enum seekdir { beg, cur, end };
    static const fmtflags boolalpha = 1, dec = 2, fixed = 4, hex = 8, internal = 16, left = 32, oct = 64, right = 128, scientific = 256, showbase = 512, showpoint = 1024, showpos = 2048, skipws = 4096, unitbuf = 8192, uppercase = 16384, adjustfield = left | right | internal, basefield = dec | oct | hex, floatfield = scientific | fixed;
    static const iostate goodbit = 0, badbit = 1, eofbit = 2, failbit = 4;
    static const openmode app = 1, ate = 2, binary = 4, in = 8, out = 16, trunc = 32;
    class failure : public runtime_error { public: explicit failure(const string& s) : runtime_error(s) {} };
    static bool sync_with_stdio(bool = true) { return true; }
    fmtflags flags() const { return fl; } fmtflags flags(fmtflags f) { fmtflags o = fl; fl = f; return o; }
    fmtflags setf(fmtflags f) { fmtflags o = fl; fl |= f; return o; } fmtflags setf(fmtflags f, fmtflags m) { fmtflags o = fl; fl = (fl & ~m) | (f & m); return o; } void unsetf(fmtflags m) { fl &= ~m; }
    streamsize precision() const { return prec; } streamsize precision(streamsize p) { streamsize o = prec; prec = p; return o; }
    streamsize width() const { return wid; } streamsize width(streamsize p) { streamsize o = wid; wid = p; return o; }
    ios_base(const ios_base&) = delete; ios_base& operator=(const ios_base&) = delete;
    virtual ~ios_base() {}
protected:
    ios_base() {}
    fmtflags fl = skipws | dec; streamsize prec = 6, wid = 0;
};
template<> class basic_streambuf<char> {
public:
    string s; size_t g = 0, p = 0; bool joint = false, rd = true, wr = true, opened = false, dirty = false, appnd = false; string fname;
    virtual ~basic_streambuf() {}
    size_t& gp() { return g; } size_t& pp() { return joint ? g : p; }
    int sgetc() { if (!rd || g >= s.size()) return -1; return (unsigned char)s[g]; }
    int sbumpc() { if (!rd || g >= s.size()) return -1; return (unsigned char)s[g++]; }
    streamsize sputn(const char* d, streamsize n) { if (!wr || n < 0) return 0; size_t& q = pp(); if (appnd) q = s.size(); if (q > s.size()) s.resize(q); if (q == s.size()) s.append(d, (size_t)n); else s.replace(q, (size_t)n < s.size() - q ? (size_t)n : s.size() - q, d, (size_t)n); q += (size_t)n; dirty = true; return n; }
    streamsize sgetn(char* d, streamsize n) { if (!rd) return 0; size_t k = g < s.size() ? s.size() - g : 0; if ((size_t)n < k) k = (size_t)n; if (k) memcpy(d, s.data() + g, k); g += k; return (streamsize)k; }
    int sputc(char c) { return sputn(&c, 1) == 1 ? (unsigned char)c : -1; }
    streamsize in_avail() { return g < s.size() ? (streamsize)(s.size() - g) : 0; }
    virtual void sync() {} int pubsync() { sync(); return 0; }
};
template<> class basic_filebuf<char> : public basic_streambuf<char> {
public:
    basic_filebuf() { joint = true; rd = wr = false; }
    ~basic_filebuf() { close(); }
    bool is_open() const { return opened; }
    basic_filebuf* open(const string& n, ios_base::openmode m) {
        if (opened) return nullptr;
        bool create = (m & ios_base::out) || (m & ios_base::app); string* f = sxm::file(n, create && (!(m & ios_base::in) || (m & (ios_base::trunc | ios_base::app))));
        if (!f) return nullptr;
        if ((m & ios_base::trunc) || ((m & ios_base::out) && !(m & (ios_base::in | ios_base::app)))) f->clear();
        s = *f; g = 0; fname = n; opened = true; rd = (m & ios_base::in) != 0; wr = create; appnd = (m & ios_base::app) != 0; dirty = false; if (m & ios_base::ate) g = s.size(); return this; }
    basic_filebuf* open(const char* n, ios_base::openmode m) { return open(string(n), m); }
    void sync() override { if (opened && dirty) { *sxm::file(fname, true) = s; dirty = false; } }
    basic_filebuf* close() { if (!opened) return nullptr; sync(); opened = false; rd = wr = false; s.clear(); g = 0; return this; }
};
inline namespace __cxx11 {
template<> class basic_stringbuf<char> : public basic_streambuf<char> {
public:
    basic_stringbuf() {} explicit basic_stringbuf(const string& x) { s = x; }
    string str() const { return s; } void str(const string& x) { s = x; g = p = 0; }
};
}
template<> class basic_ios<char> : public ios_base {
public:
    typedef char char_type; typedef char_traits<char> traits_type; typedef int int_type; typedef streamoff off_type; typedef streampos pos_type;
    explicit basic_ios(basic_streambuf<char>* b) { init(b); }
    void init(basic_streambuf<char>* b) { sb = b; st = b ? goodbit : badbit; }
    bool good() const { return st == 0; } bool eof() const { return st & eofbit; } bool fail() const { return st & (failbit | badbit); } bool bad() const { return st & badbit; }
    explicit operator bool() const { return !fail(); } bool operator!() const { return fail(); }
    iostate rdstate() const { return st; } void clear(iostate s = goodbit) { st = sb ? s : (s | badbit); if (st & exc) throw failure("iostream"); } void setstate(iostate s) { clear(st | s); }
    iostate exceptions() const { return exc; } void exceptions(iostate e) { exc = e; clear(st); }
    char fill() const { return fc; } char fill(char c) { char o = fc; fc = c; return o; }
    basic_streambuf<char>* rdbuf() const { return sb; } basic_streambuf<char>* rdbuf(basic_streambuf<char>* b) { auto o = sb; sb = b; clear(); return o; }
    basic_ios& copyfmt(const basic_ios& o) { fl = o.fl; prec = o.prec; wid = o.wid; fc = o.fc; return *this; }
    char widen(char c) const { return c; }
protected:
    basic_ios() {}
    basic_streambuf<char>* sb = nullptr; iostate st = badbit, exc = 0; char fc = ' ';
};
template<> class basic_ostream<char> : virtual public basic_ios<char> {
public:
    explicit basic_ostream(basic_streambuf<char>* b) { init(b); }
    virtual ~basic_ostream() {}
    class sentry { bool ok; public: explicit sentry(basic_ostream& o) : ok(o.good()) {} explicit operator bool() const { return ok; } };
    basic_ostream& write(const char* d, streamsize n) { if (good() && n) { if (sb->sputn(d, n) != n) setstate(badbit); } return *this; }
    basic_ostream& put(char c) { return write(&c, 1); }
    basic_ostream& flush() { if (sb) sb->sync(); return *this; }
    streampos tellp() { if (fail()) return streampos(-1); return streampos((streamoff)sb->pp()); }
    basic_ostream& seekp(streampos q) { if (!fail()) sb->pp() = (size_t)(streamoff)q; return *this; }
    basic_ostream& seekp(streamoff o, ios_base::seekdir d) { if (!fail()) sb->pp() = (size_t)(o + (d == beg ? 0 : d == cur ? (streamoff)sb->pp() : (streamoff)sb->s.size())); return *this; }
    basic_ostream& sxText(const char* d, size_t n) { // honours width/fill
        if (!good()) { return *this; }
        size_t w = (size_t)wid; wid = 0;
        if (w <= n) return write(d, (streamsize)n);
        string pad(w - n, fill()); if ((fl & adjustfield) == left) { write(d, (streamsize)n); write(pad.data(), (streamsize)pad.size()); } else { write(pad.data(), (streamsize)pad.size()); write(d, (streamsize)n); } return *this; }
    basic_ostream& sxInt(bool neg, unsigned long long m, bool isSigned, int bits) {
        char b[80]; int k = 80; fmtflags base = fl & basefield; 
        unsigned r = base == hex ? 16 : base == oct ? 8 : 10; if (r != 10 && neg) { m = 0ULL - m; if (bits < 64) m &= (1ULL << bits) - 1; neg = false; }
        do { unsigned q = (unsigned)(m % r); b[--k] = (char)(q < 10 ? '0' + q : ((fl & uppercase) ? 'A' : 'a') + q - 10); m /= r; } while (m);
        if ((fl & showbase) && r == 16) { b[--k] = 'x'; b[--k] = '0'; } if ((fl & showbase) && r == 8) b[--k] = '0';
        if (neg) b[--k] = '-'; else if ((fl & showpos) && isSigned && r == 10) b[--k] = '+';
        return sxText(b + k, (size_t)(80 - k)); }
    basic_ostream& sxSInt(long long v, int bits) { if ((fl & basefield) == dec && sx_symbolic_i64(v)) { string t = sxm::tokText(sxm::tokPut('i', 0, v)); return sxText(t.data(), t.size()); } return sxInt(v < 0, v < 0 ? 0ULL - (unsigned long long)v : (unsigned long long)v, true, bits); }
    basic_ostream& sxUInt(unsigned long long v) { if ((fl & basefield) == dec && sx_symbolic_i64((int64_t)v)) { string t = sxm::tokText(sxm::tokPut('u', 0, (int64_t)v)); return sxText(t.data(), t.size()); } return sxInt(false, v, false, 64); }
    basic_ostream& sxDbl(double v) {
        if (sx_symbolic_f64(v)) { string t = sxm::tokText(sxm::tokPut('d', v, 0)); return sxText(t.data(), t.size()); }
        char f[16]; int k = 0; f[k++] = '%'; if (fl & showpos) f[k++] = '+'; if (fl & showpoint) f[k++] = '#'; 
        fmtflags ff = fl & floatfield; bool hexf = ff == floatfield;
        if (!hexf) { f[k++] = '.'; int pr = (int)prec; if (pr > 99) pr = 99; if (pr >= 10) f[k++] = (char)('0' + pr / 10); f[k++] = (char)('0' + pr % 10); }
        f[k++] = hexf ? 'a' : ff == fixed ? 'f' : ff == scientific ? 'e' : 'g'; if (fl & uppercase) f[k - 1] = (char)(f[k - 1] - 32); f[k] = 0;
        char b[400]; int n = sx_fmt(b, 400, f, v); return sxText(b, (size_t)n); }
    basic_ostream& operator<<(bool v) { if (fl & boolalpha) { if (v) return sxText("true", 4); return sxText("false", 5); } return sxUInt(v); }
    basic_ostream& operator<<(short v) { return sxSInt(v, 16); } basic_ostream& operator<<(int v) { return sxSInt(v, 32); } basic_ostream& operator<<(long v) { return sxSInt(v, 64); } basic_ostream& operator<<(long long v) { return sxSInt(v, 64); }
    basic_ostream& operator<<(unsigned short v) { return sxUInt(v); } basic_ostream& operator<<(unsigned v) { return sxUInt(v); } basic_ostream& operator<<(unsigned long v) { return sxUInt(v); } basic_ostream& operator<<(unsigned long long v) { return sxUInt(v); }
    basic_ostream& operator<<(double v) { return sxDbl(v); } basic_ostream& operator<<(float v) { return sxDbl((double)v); } basic_ostream& operator<<(long double v) { return sxDbl((double)v); }
    basic_ostream& operator<<(const void* p) { fmtflags o = fl; fl = (fl & ~basefield) | hex | showbase; sxUInt((unsigned long long)(uintptr_t)p); fl = o; return *this; }
    basic_ostream& operator<<(nullptr_t) { return sxText("nullptr", 7); }
    basic_ostream& operator<<(basic_streambuf<char>* b) { if (b) { write(b->s.data() + b->g, (streamsize)(b->s.size() - b->g)); b->g = b->s.size(); } return *this; }
    basic_ostream& operator<<(basic_ostream& (*f)(basic_ostream&)) { return f(*this); } basic_ostream& operator<<(basic_ios<char>& (*f)(basic_ios<char>&)) { f(*this); return *this; } basic_ostream& operator<<(ios_base& (*f)(ios_base&)) { f(*this); return *this; }
protected:
    basic_ostream() {}
};
inline bool sxIsSpace(int c) { return c == ' ' || (c >= 9 && c <= 13); }
template<> class basic_istream<char> : virtual public basic_ios<char> {
public:
    explicit basic_istream(basic_streambuf<char>* b) { init(b); }
    virtual ~basic_istream() {}
    streamsize gcount() const { return gc; }
    bool sxPrep(bool skip = true) { if (!good()) { setstate(failbit); return false; } if (skip && (fl & skipws)) for (;;) { int c = sb->sgetc(); if (c < 0) { setstate(eofbit | failbit); return false; } if (!sxIsSpace(c)) break; sb->sbumpc(); } return true; }
    class sentry { bool ok; public: explicit sentry(basic_istream& o, bool noskip = false) : ok(o.sxPrep(!noskip)) {} explicit operator bool() const { return ok; } };
    basic_istream& read(char* d, streamsize n) { gc = 0; if (!good()) { setstate(failbit); return *this; } gc = sb->sgetn(d, n); if (gc != n) setstate(eofbit | failbit); return *this; }
    int get() { gc = 0; if (!good()) { setstate(failbit); return -1; } int c = sb->sbumpc(); if (c < 0) setstate(eofbit | failbit); else gc = 1; return c; }
    basic_istream& get(char& c) { int x = get(); if (x >= 0) c = (char)x; return *this; }
    int peek() { gc = 0; if (!good()) return -1; int c = sb->sgetc(); if (c < 0) setstate(eofbit); return c; }
    basic_istream& unget() { clear(st & ~eofbit); if (!good()) { setstate(failbit); return *this; } if (sb->g == 0) setstate(badbit); else sb->g--; return *this; }
    basic_istream& putback(char) { return unget(); }
    basic_istream& ignore(streamsize n = 1, int delim = -1) { gc = 0; if (!good()) { setstate(failbit); return *this; } while (n == 0x7fffffffffffffffL || gc < n) { int c = sb->sbumpc(); if (c < 0) { setstate(eofbit); break; } gc++; if (delim >= 0 && c == delim) break; } return *this; }
    basic_istream& getline(char* d, streamsize n, char delim = '\n') { gc = 0; streamsize k = 0; if (!good()) { setstate(failbit); if (n > 0) *d = 0; return *this; } for (;;) { int c = sb->sgetc(); if (c < 0) { setstate(eofbit | (gc == 0 ? failbit : 0u)); break; } if (c == (unsigned char)delim) { sb->sbumpc(); gc++; break; } if (k + 1 >= n) { setstate(failbit); break; } sb->sbumpc(); gc++; d[k++] = (char)c; } if (n > 0) d[k] = 0; return *this; }
    streampos tellg() { if (fail()) return streampos(-1); if (eof()) { return streampos(-1); } return streampos((streamoff)sb->gp()); }
    basic_istream& seekg(streampos q) { clear(st & ~eofbit); if (!fail()) { streamoff o = (streamoff)q; if (o < 0 || (size_t)o > sb->s.size()) setstate(failbit); else sb->g = (size_t)o; } return *this; }
    basic_istream& seekg(streamoff o, ios_base::seekdir d) { clear(st & ~eofbit); if (!fail()) { streamoff q = o + (d == beg ? 0 : d == cur ? (streamoff)sb->g : (streamoff)sb->s.size()); if (q < 0 || (size_t)q > sb->s.size()) setstate(failbit); else sb->g = (size_t)q; } return *this; }
    streamsize readsome(char* d, streamsize n) { streamsize a = sb->in_avail(); if (a > n) a = n; read(d, a); return gc; }
    int sync() { return 0; }
    bool sxTok(sxm::Tok& t) { if (sb->sgetc() != 1) return false; sb->sbumpc(); sb->sbumpc(); int id = 0; for (int i = 0; i < 6; i++) { int c = sb->sbumpc(); id = id * 16 + (c <= '9' ? c - '0' : c - 'a' + 10); } if (sb->sbumpc() != 2) sx_unsupported("damaged number token"); t = sxm::tokGet(id); return true; }
    // a number directly followed by the digits of another one would be read as one number: any value
    bool sxGlued(bool afterToken) { int c = sb->sgetc(); return c == 1 || (afterToken && ((c >= '0' && c <= '9') || c == '.' || c == 'e' || c == 'E')); }
    bool sxReadInt(bool uns, unsigned long long maxPos, unsigned long long maxNeg, unsigned long long& out, bool& neg) {
        neg = false; if (!sxPrep()) return false; sxm::Tok t;
        if (sxTok(t)) { if (t.kind == 'd') sx_unsupported("symbolic floating number read as an integer"); if (sxGlued(true)) { neg = false; out = (unsigned long long)sx_i64("$glued", 0, 1000000); return true; } long long v = t.i; if (t.kind == 'i' && v < 0) { neg = true; out = 0ULL - (unsigned long long)v; } else out = (unsigned long long)v; if (!neg && out > maxPos) { out = maxPos; setstate(failbit); } if (neg && !uns && out > maxNeg) { out = maxNeg; setstate(failbit); } return true; }
        unsigned r = (fl & basefield) == hex ? 16 : (fl & basefield) == oct ? 8 : 10; int c = sb->sgetc(); if (c == '-' || c == '+') { neg = c == '-'; sb->sbumpc(); c = sb->sgetc(); }
        unsigned long long v = 0; bool any = false, ovf = false; 
        for (;; c = sb->sgetc()) { unsigned q; if (c >= '0' && c <= '9') q = (unsigned)(c - '0'); else if (r == 16 && c >= 'a' && c <= 'f') q = (unsigned)(c - 'a' + 10); else if (r == 16 && c >= 'A' && c <= 'F') q = (unsigned)(c - 'A' + 10); else break; if (q >= r) break; any = true; if (v > (~0ULL - q) / r) ovf = true; v = v * r + q; sb->sbumpc(); }
        if (c < 0) setstate(any ? eofbit : (eofbit | failbit)); else if (!any) setstate(failbit);
        if (!any) { out = 0; neg = false; return true; } if (sxGlued(false)) { neg = false; out = (unsigned long long)sx_i64("$glued", 0, 1000000); return true; }
        unsigned long long lim = (neg && !uns) ? maxNeg : maxPos; if (ovf || v > lim) { v = lim; if (uns) neg = false; setstate(failbit); } out = v; return true; }
    template<class T> basic_istream& sxS(T& x, unsigned long long mp) { unsigned long long v; bool n; if (sxReadInt(false, mp, mp + 1, v, n)) x = n ? (T)(0ULL - v) : (T)v; return *this; }
    template<class T> basic_istream& sxU(T& x, unsigned long long mp) { unsigned long long v; bool n; if (sxReadInt(true, mp, mp, v, n)) x = n ? (T)(0ULL - v) : (T)v; return *this; }
    basic_istream& operator>>(short& x) { return sxS(x, 32767); } basic_istream& operator>>(int& x) { return sxS(x, 2147483647ULL); } basic_istream& operator>>(long& x) { return sxS(x, 9223372036854775807ULL); } basic_istream& operator>>(long long& x) { return sxS(x, 9223372036854775807ULL); }
    basic_istream& operator>>(unsigned short& x) { return sxU(x, 65535); } basic_istream& operator>>(unsigned& x) { return sxU(x, 4294967295ULL); } basic_istream& operator>>(unsigned long& x) { return sxU(x, ~0ULL); } basic_istream& operator>>(unsigned long long& x) { return sxU(x, ~0ULL); }
    basic_istream& operator>>(bool& x) { if (fl & boolalpha) sx_unsupported("reading a boolalpha bool"); unsigned long long v; bool n; if (sxReadInt(true, ~0ULL, ~0ULL, v, n)) { x = v != 0; if (v > 1) setstate(failbit); } return *this; }
    bool sxDbl(double& x) {
        if (!sxPrep()) return false; sxm::Tok t; if (sxTok(t)) { if (sxGlued(true)) { x = sx_real("$glued", -1e6, 1e6); return true; } x = t.kind == 'd' ? t.d : t.kind == 'i' ? (double)t.i : (double)(unsigned long long)t.i; return true; }
        string b; int c = sb->sgetc(); bool dot = false, e = false, dig = false;
        for (;; c = sb->sgetc()) { if (c >= '0' && c <= '9') dig = true; else if ((c == '+' || c == '-') && (b.empty() || b.back() == 'e' || b.back() == 'E')) ; else if (c == '.' && !dot && !e) dot = true; else if ((c == 'e' || c == 'E') && dig && !e) e = true; else break; b += (char)c; sb->sbumpc(); }
        if (c < 0) setstate(eofbit);
        if (!dig || b.back() == 'e' || b.back() == 'E' || b.back() == '+' || b.back() == '-') { x = 0; setstate(failbit); return true; }
        if (sxGlued(false)) { x = sx_real("$glued", -1e6, 1e6); return true; } x = sx_parse(b.c_str()); return true; }
    basic_istream& operator>>(double& x) { sxDbl(x); return *this; } basic_istream& operator>>(float& x) { double d; if (sxDbl(d)) x = (float)d; return *this; } basic_istream& operator>>(long double& x) { double d; if (sxDbl(d)) x = d; return *this; }
    basic_istream& operator>>(basic_istream& (*f)(basic_istream&)) { return f(*this); } basic_istream& operator>>(ios_base& (*f)(ios_base&)) { f(*this); return *this; }
protected:
    basic_istream() {} streamsize gc = 0;
};
template<> class basic_iostream<char> : public basic_istream<char>, public basic_ostream<char> { public: explicit basic_iostream(basic_streambuf<char>* b) { init(b); } protected: basic_iostream() {} };
#define SX_FSTREAM(NAME, BASE, DEF, FORCE) \
template<> class NAME<char> : public BASE<char> { basic_filebuf<char> fb; public: \
    NAME() { init(&fb); } explicit NAME(const char* n, ios_base::openmode m = DEF) { init(&fb); open(n, m); } explicit NAME(const string& n, ios_base::openmode m = DEF) { init(&fb); open(n, m); } \
    void open(const string& n, ios_base::openmode m = DEF) { if (fb.open(n, m | (FORCE))) clear(); else setstate(failbit); } void open(const char* n, ios_base::openmode m = DEF) { open(string(n), m); } \
    bool is_open() const { return fb.is_open(); } void close() { if (!fb.close()) setstate(failbit); } basic_filebuf<char>* rdbuf() const { return const_cast<basic_filebuf<char>*>(&fb); } };
SX_FSTREAM(basic_ifstream, basic_istream, ios_base::in, ios_base::in)
SX_FSTREAM(basic_ofstream, basic_ostream, ios_base::out, ios_base::out)
SX_FSTREAM(basic_fstream, basic_iostream, (ios_base::in | ios_base::out), 0)
inline namespace __cxx11 {
#define SX_SSTREAM(NAME, BASE) \
template<> class NAME<char> : public BASE<char> { basic_stringbuf<char> b; public: \
    NAME() { init(&b); } explicit NAME(ios_base::openmode) { init(&b); } explicit NAME(const string& s, ios_base::openmode m = 0) : b(s) { init(&b); if (m & ios_base::ate) b.p = s.size(); } \
    string str() const { return b.str(); } void str(const string& s) { b.str(s); } basic_stringbuf<char>* rdbuf() const { return const_cast<basic_stringbuf<char>*>(&b); } };
SX_SSTREAM(basic_istringstream, basic_istream)
SX_SSTREAM(basic_ostringstream, basic_ostream)
SX_SSTREAM(basic_stringstream, basic_iostream)
}
inline ostream& operator<<(ostream& o, char c) { return o.sxText(&c, 1); } inline ostream& operator<<(ostream& o, signed char c) { char k = (char)c; return o.sxText(&k, 1); } inline ostream& operator<<(ostream& o, unsigned char c) { char k = (char)c; return o.sxText(&k, 1); }
inline ostream& operator<<(ostream& o, const char* s) { if (!s) { o.setstate(ios_base::badbit); return o; } return o.sxText(s, strlen(s)); } inline ostream& operator<<(ostream& o, const signed char* s) { return o << (const char*)s; } inline ostream& operator<<(ostream& o, const unsigned char* s) { return o << (const char*)s; }
inline ostream& operator<<(ostream& o, const string& s) { return o.sxText(s.data(), s.size()); }
inline ostream& endl(ostream& o) { o.put('\n'); return o.flush(); } inline ostream& ends(ostream& o) { return o.put('\0'); } inline ostream& flush(ostream& o) { return o.flush(); }
template<class T> inline typename enable_if<!is_lvalue_reference<T>::value && is_base_of<ios_base, T>::value, T&&>::type sxFwd(T&& t) { return static_cast<T&&>(t); }
template<class S, class T> inline typename enable_if<!is_lvalue_reference<S>::value && is_base_of<ostream, S>::value, S&&>::type operator<<(S&& s, const T& x) { static_cast<ostream&>(s) << x; return static_cast<S&&>(s); }
template<class S, class T> inline typename enable_if<!is_lvalue_reference<S>::value && is_base_of<istream, S>::value, S&&>::type operator>>(S&& s, T&& x) { static_cast<istream&>(s) >> static_cast<T&&>(x); return static_cast<S&&>(s); }
inline istream& operator>>(istream& i, char& c) { if (i.sxPrep()) { int x = i.rdbuf()->sbumpc(); if (x < 0) i.setstate(ios_base::eofbit | ios_base::failbit); else c = (char)x; } return i; } inline istream& operator>>(istream& i, signed char& c) { return i >> (char&)c; } inline istream& operator>>(istream& i, unsigned char& c) { return i >> (char&)c; }
inline istream& operator>>(istream& i, string& s) { if (i.sxPrep()) { s.clear(); for (;;) { int c = i.rdbuf()->sgetc(); if (c < 0) { i.setstate(ios_base::eofbit); break; } if (sxIsSpace(c)) break; s += (char)c; i.rdbuf()->sbumpc(); } if (s.empty()) i.setstate(ios_base::failbit); } return i; }
inline istream& getline(istream& i, string& s, char delim) { s.clear(); if (!i.good()) { i.setstate(ios_base::failbit); return i; } bool any = false; for (;;) { int c = i.rdbuf()->sbumpc(); if (c < 0) { i.setstate(any ? ios_base::eofbit : (ios_base::eofbit | ios_base::failbit)); break; } any = true; if (c == (unsigned char)delim) break; s += (char)c; } return i; }
inline istream& getline(istream& i, string& s) { return getline(i, s, '\n'); }
inline istream& ws(istream& i) { for (;;) { int c = i.rdbuf()->sgetc(); if (c < 0) { i.setstate(ios_base::eofbit); break; } if (!sxIsSpace(c)) break; i.rdbuf()->sbumpc(); } return i; }
#define SX_MAN(n, f, m) inline ios_base& n(ios_base& b) { b.setf(ios_base::f, ios_base::m); return b; }
SX_MAN(hex, hex, basefield) SX_MAN(dec, dec, basefield) SX_MAN(oct, oct, basefield) SX_MAN(fixed, fixed, floatfield) SX_MAN(scientific, scientific, floatfield) SX_MAN(left, left, adjustfield) SX_MAN(right, right, adjustfield) SX_MAN(internal, internal, adjustfield)
#define SX_MAN1(n, N) inline ios_base& n(ios_base& b) { b.setf(ios_base::N); return b; } inline ios_base& no##n(ios_base& b) { b.unsetf(ios_base::N); return b; }
SX_MAN1(boolalpha, boolalpha) SX_MAN1(showbase, showbase) SX_MAN1(showpoint, showpoint) SX_MAN1(showpos, showpos) SX_MAN1(skipws, skipws) SX_MAN1(uppercase, uppercase) SX_MAN1(unitbuf, unitbuf)
inline ios_base& defaultfloat(ios_base& b) { b.unsetf(ios_base::floatfield); return b; }
struct sxSetw { int v; }; struct sxSetp { int v; }; struct sxSetfill { char c; }; struct sxSetbase { int v; };
inline sxSetw setw(int v) { return {v}; } inline sxSetp setprecision(int v) { return {v}; } inline sxSetfill setfill(char c) { return {c}; } inline sxSetbase setbase(int v) { return {v}; }
inline ostream& operator<<(ostream& o, sxSetw s) { o.width(s.v); return o; } inline istream& operator>>(istream& o, sxSetw s) { o.width(s.v); return o; } inline ostream& operator<<(ostream& o, sxSetp s) { o.precision(s.v); return o; } inline ostream& operator<<(ostream& o, sxSetfill s) { o.fill(s.c); return o; }
struct sxQuoted { const string* s; const char* p; char d, e; };
inline sxQuoted quoted(const string& s, char d = '"', char e = '\\') { return {&s, nullptr, d, e}; } inline sxQuoted quoted(const char* s, char d = '"', char e = '\\') { return {nullptr, s, d, e}; }
inline ostream& operator<<(ostream& o, const sxQuoted& q) { string r(1, q.d); const char* b = q.s ? q.s->data() : q.p; size_t n = q.s ? q.s->size() : strlen(q.p); for (size_t i = 0; i < n; i++) { if (b[i] == q.d || b[i] == q.e) r += q.e; r += b[i]; } r += q.d; return o << r; }
inline ostream& operator<<(ostream& o, sxSetbase s) { o.setf(s.v == 16 ? ios_base::hex : s.v == 8 ? ios_base::oct : ios_base::dec, ios_base::basefield); return o; }
extern ostream cout, cerr, clog; extern istream cin;
class locale { public: static const locale& classic() { static locale l; return l; } };
}
#include <iterator>
#endif
