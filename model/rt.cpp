// Runtime linked into every symbolic run: the out-of-line parts of the C and C++ standard
// libraries the instantiated headers refer to.
#include <cstdarg>
#include <pthread.h>
#include <ctime>
#include <cmath>
#include <cstddef>
#include <string>
#include <stdexcept>
#include <exception>
#include <new>
#include <typeinfo>
#include <functional>
#include <map>
#include <list>
#include <vector>
#include <unordered_map>
#include <sx.h>
#include <iostream>

extern "C" {
void sx_lib_assert(const char*);
int memcmp(const void* a, const void* b, size_t n) { const unsigned char *p = (const unsigned char*)a, *q = (const unsigned char*)b; int r = 0; for (size_t i = n; i-- > 0;) { int d = (int)p[i] - (int)q[i]; r = d ? d : r; } return r; }
int bcmp(const void* a, const void* b, size_t n) { return memcmp(a, b, n); }
wchar_t* wmemcpy(wchar_t* d, const wchar_t* s, size_t n) { memcpy(d, s, n * sizeof(wchar_t)); return d; } wchar_t* wmemmove(wchar_t* d, const wchar_t* s, size_t n) { memmove(d, s, n * sizeof(wchar_t)); return d; }
wchar_t* wmemset(wchar_t* d, wchar_t c, size_t n) { for (size_t i = 0; i < n; i++) d[i] = c; return d; } int wmemcmp(const wchar_t* a, const wchar_t* b, size_t n) { for (size_t i = 0; i < n; i++) if (a[i] != b[i]) return a[i] < b[i] ? -1 : 1; return 0; } size_t wcslen(const wchar_t* s) { size_t n = 0; while (s[n]) n++; return n; }
size_t strlen(const char* s) { size_t n = 0; while (s[n]) n++; return n; }
int strcmp(const char* a, const char* b) { while (*a && *a == *b) { a++; b++; } return (int)(unsigned char)*a - (int)(unsigned char)*b; }
int strncmp(const char* a, const char* b, size_t n) { for (; n; n--, a++, b++) { if (*a != *b) return (int)(unsigned char)*a - (int)(unsigned char)*b; if (!*a) return 0; } return 0; }
void* sxc_memchr(const void* s, int c, size_t n) __asm__("memchr"); void* sxc_memchr(const void* s, int c, size_t n) { const unsigned char* p = (const unsigned char*)s; for (size_t i = 0; i < n; i++) if (p[i] == (unsigned char)c) return (void*)(p + i); return nullptr; }
char* sxc_strchr(const char* s, int c) __asm__("strchr"); char* sxc_strchr(const char* s, int c) { for (;; s++) { if (*s == (char)c) return (char*)s; if (!*s) return nullptr; } }
char* sxc_strrchr(const char* s, int c) __asm__("strrchr"); char* sxc_strrchr(const char* s, int c) { char* r = nullptr; for (;; s++) { if (*s == (char)c) r = (char*)s; if (!*s) return r; } }
char* sxc_strstr(const char* h, const char* n) __asm__("strstr"); char* sxc_strstr(const char* h, const char* n) { size_t k = strlen(n); for (;; h++) { if (!strncmp(h, n, k)) return (char*)h; if (!*h) return nullptr; } }
char* strcpy(char* d, const char* s) { size_t n = strlen(s); for (size_t i = 0; i <= n; i++) d[i] = s[i]; return d; }
int isspace(int c) { return c == ' ' || (c >= 9 && c <= 13); } int isdigit(int c) { return c >= '0' && c <= '9'; } int isalpha(int c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); } int isalnum(int c) { return isalpha(c) || isdigit(c); } int toupper(int c) { return c >= 'a' && c <= 'z' ? c - 32 : c; } int tolower(int c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; } int isprint(int c) { return c >= 32 && c < 127; } int isupper(int c) { return c >= 'A' && c <= 'Z'; } int islower(int c) { return c >= 'a' && c <= 'z'; } int iscntrl(int c) { return c < 32 || c == 127; } int isxdigit(int c) { return isdigit(c) || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F'); } int ispunct(int c) { return isprint(c) && !isalnum(c) && c != ' '; }
static int errno_cell; int* __errno_location() { return &errno_cell; }
static int tokId(const char* s) { int id = 0; for (int i = 2; i < 8; i++) id = id * 16 + (s[i] <= '9' ? s[i] - '0' : s[i] - 'a' + 10); return id; }
long strtol(const char* s, char** e, int base) { bool neg = false; const char* p = s; while (isspace(*p)) p++; if (*p == '-' || *p == '+') { neg = *p == '-'; p++; } if (*p == 1) { auto& t = sxm::tokGet(tokId(p)); if (t.kind == 'd') sx_unsupported("a symbolic real number read as an integer"); if (e) *e = (char*)p + 9; return neg ? -t.i : t.i; } if ((base == 16 || base == 0) && p[0] == '0' && (p[1] == 'x' || p[1] == 'X')) { p += 2; base = 16; } if (!base) base = 10; long v = 0; bool any = false; for (;; p++) { int q; if (isdigit(*p)) q = *p - '0'; else if (isalpha(*p)) q = tolower(*p) - 'a' + 10; else break; if (q >= base) break; any = true; v = v * base + q; } if (e) *e = (char*)(any ? p : s); return neg ? -v : v; }
unsigned long strtoul(const char* s, char** e, int b) { return (unsigned long)strtol(s, e, b); } long long strtoll(const char* s, char** e, int b) { return strtol(s, e, b); } unsigned long long strtoull(const char* s, char** e, int b) { return (unsigned long long)strtol(s, e, b); }
int sxc_atoi(const char*) __asm__("atoi"); int sxc_atoi(const char* s) { return (int)strtol(s, nullptr, 10); } long sxc_atol(const char*) __asm__("atol"); long sxc_atol(const char* s) { return strtol(s, nullptr, 10); }
double strtod(const char* s, char** e) { const char* p = s; while (isspace(*p)) p++; const char* b = p; if (*p == '-' || *p == '+') p++; bool dig = false; while (isdigit(*p)) { p++; dig = true; } if (*p == '.') { p++; while (isdigit(*p)) { p++; dig = true; } } if (dig && (*p == 'e' || *p == 'E')) { const char* q = p + 1; if (*q == '-' || *q == '+') q++; if (isdigit(*q)) { while (isdigit(*q)) q++; p = q; } } if (!dig) { if (*p == 1) { if (e) *e = (char*)p + 9; auto& t = sxm::tokGet(tokId(p)); double v = t.kind == 'd' ? t.d : t.kind == 'u' ? (double)(uint64_t)t.i : (double)t.i; return p != b && *b == '-' ? -v : v; } if (e) *e = (char*)s; return 0; } std::string x(b, p); if (e) *e = (char*)p; return sx_parse(x.c_str()); }
double sxc_atof(const char*) __asm__("atof"); double sxc_atof(const char* s) { return strtod(s, nullptr); } float strtof(const char* s, char** e) { return (float)strtod(s, e); }

// formatted output
static void put(std::string& o, const std::string& body, bool left, bool zero, int width) { int pad = width - (int)body.size(); if (pad > 0 && !left && !zero) o.append((size_t)pad, ' '); if (pad > 0 && !left && zero) { if (body.size() && body[0] == '-') { o += '-'; o.append((size_t)pad, '0'); o.append(body, 1, std::string::npos); return; } o.append((size_t)pad, '0'); } o += body; if (pad > 0 && left) o.append((size_t)pad, ' '); }
static std::string digits(unsigned long long m, bool neg, unsigned r, bool up) { char b[70]; int k = 70; do { unsigned q = (unsigned)(m % r); b[--k] = (char)(q < 10 ? '0' + q : (up ? 'A' : 'a') + q - 10); m /= r; } while (m); if (neg) b[--k] = '-'; return std::string(b + k, b + 70); }
static std::vector<sxm::Tok>* strToks; static std::vector<int>* strIds;
// text of a symbolic number inside a string: equal numbers give equal texts, different numbers different texts
static std::string internNum(char kind, double d, int64_t i) { if (!strToks) { strToks = new std::vector<sxm::Tok>; strIds = new std::vector<int>; } for (size_t k = 0; k < strToks->size(); k++) { auto& t = (*strToks)[k]; if ((t.kind == 'd') == (kind == 'd') && (kind == 'd' ? t.d == d : t.i == i && (t.kind == kind || i >= 0))) return sxm::tokText((*strIds)[k]); } int id = sxm::tokPut(kind, d, i); strToks->push_back({kind, d, i}); strIds->push_back(id); return sxm::tokText(id); }
static std::string plainNum(char kind, double d, int64_t i) { return sxm::tokText(sxm::tokPut(kind, d, i)); }
static std::string vfmt(const char* f, va_list ap, std::string (*internNum)(char, double, int64_t) = ::internNum) {
    std::string o;
    for (; *f; f++) {
        if (*f != '%') { o += *f; continue; }
        f++; if (*f == '%') { o += '%'; continue; }
        std::string spec = "%"; bool left = false, zero = false; int width = 0, prec = -1, lng = 0;
        for (;; f++) { if (*f == '-') left = true; else if (*f == '0') zero = true; else if (*f != '+' && *f != ' ' && *f != '#') break; spec += *f; }
        if (*f == '*') { width = va_arg(ap, int); if (width < 0) { left = true; width = -width; } f++; } else while (isdigit(*f)) { width = width * 10 + (*f - '0'); f++; }
        if (*f == '.') { f++; prec = 0; if (*f == '*') { prec = va_arg(ap, int); f++; } else while (isdigit(*f)) { prec = prec * 10 + (*f - '0'); f++; } }
        for (;; f++) { if (*f == 'l' || *f == 'z' || *f == 'j' || *f == 't') lng++; else if (*f == 'h') lng--; else break; }
        switch (*f) {
            case 'd': case 'i': { long v = lng > 0 ? va_arg(ap, long) : va_arg(ap, int); if (lng == -1) v = (short)v; if (lng == -2) v = (signed char)v; if (sx_symbolic_i64(v)) o += internNum('i', 0, v); else put(o, digits(v < 0 ? 0UL - (unsigned long)v : (unsigned long)v, v < 0, 10, false), left, zero, width); break; }
            case 'u': case 'x': case 'X': case 'o': { unsigned long v = lng > 0 ? va_arg(ap, unsigned long) : va_arg(ap, unsigned); if (lng == -1) v = (unsigned short)v; if (lng == -2) v = (unsigned char)v; if (sx_symbolic_i64((long)v)) { if (*f != 'u') sx_unsupported("symbolic number in a base other than ten"); o += internNum('u', 0, (long)v); } else put(o, digits(v, false, *f == 'u' ? 10 : *f == 'o' ? 8 : 16, *f == 'X'), left, zero, width); break; }
            case 'c': { char c = (char)va_arg(ap, int); put(o, std::string(1, c), left, false, width); break; }
            case 's': { const char* s = va_arg(ap, const char*); std::string b; if (!s) b = "(null)"; else for (int k = 0; (prec < 0 || k < prec) && s[k]; k++) b += s[k]; put(o, b, left, false, width); break; }
            case 'p': { put(o, "0x" + digits((unsigned long)va_arg(ap, void*), false, 16, false), left, false, width); break; }
            case 'f': case 'F': case 'e': case 'E': case 'g': case 'G': case 'a': { double d = va_arg(ap, double); if (sx_symbolic_f64(d)) { o += internNum('d', d, 0); break; } if (prec >= 0) { spec += "."; spec += digits((unsigned long)prec, false, 10, false); } spec += *f; char b[420]; int n = sx_fmt(b, 420, spec.c_str(), d); put(o, std::string(b, (size_t)n), left, zero, width); break; }
            default: sx_unsupported("printf conversion");
        }
    }
    return o;
}
static int emit(char* b, size_t n, const std::string& s) { if (n) { size_t k = s.size() < n - 1 ? s.size() : n - 1; for (size_t i = 0; i < k; i++) b[i] = s[i]; b[k] = 0; } return (int)s.size(); }
int vsnprintf(char* b, size_t n, const char* f, va_list ap) { return emit(b, n, vfmt(f, ap)); }
int snprintf(char* b, size_t n, const char* f, ...) { va_list ap; va_start(ap, f); std::string s = vfmt(f, ap); va_end(ap); return emit(b, n, s); }
int sprintf(char* b, const char* f, ...) { va_list ap; va_start(ap, f); std::string s = vfmt(f, ap); va_end(ap); return emit(b, (size_t)1 << 40, s); }
int printf(const char* f, ...) { va_list ap; va_start(ap, f); std::string s = vfmt(f, ap, plainNum); va_end(ap); std::cout.write(s.data(), (long)s.size()); return (int)s.size(); }
static char stdCell[3]; FILE *stdin = (FILE*)&stdCell[0], *stdout = (FILE*)&stdCell[1], *stderr = (FILE*)&stdCell[2];
static std::ostream& stdStream(FILE* f) { if (f == (FILE*)&stdCell[2]) return std::cerr; if (f != (FILE*)&stdCell[1]) sx_unsupported("a C file"); return std::cout; }
int vfprintf(FILE* o, const char* f, va_list ap) { std::string s = vfmt(f, ap, plainNum); stdStream(o).write(s.data(), (long)s.size()); return (int)s.size(); }
int fprintf(FILE* o, const char* f, ...) { va_list ap; va_start(ap, f); std::string s = vfmt(f, ap, plainNum); va_end(ap); stdStream(o).write(s.data(), (long)s.size()); return (int)s.size(); }
int sxc_fputs(const char*, FILE*) __asm__("fputs"); int sxc_fputs(const char* s, FILE* o) { stdStream(o) << s; return 1; } int sxc_fputc(int, FILE*) __asm__("fputc"); int sxc_fputc(int c, FILE* o) { char k = (char)c; stdStream(o).write(&k, 1); return c; } int sxc_putc(int, FILE*) __asm__("putc"); int sxc_putc(int c, FILE* o) { return sxc_fputc(c, o); } size_t fwrite(const void* p, size_t a, size_t n, FILE* o) { stdStream(o).write((const char*)p, (long)(a * n)); return n; } int fflush(FILE*) { return 0; }
int pthread_mutex_lock(pthread_mutex_t*) noexcept { return 0; } int pthread_mutex_unlock(pthread_mutex_t*) noexcept { return 0; } int pthread_mutex_trylock(pthread_mutex_t*) noexcept { return 0; } int pthread_once(pthread_once_t* o, void (*f)()) { if (!*o) { *o = 1; f(); } return 0; }
long lround(double x) noexcept { return (long)round(x); } long long llround(double x) noexcept { return (long long)round(x); }
long sx_clock() __asm__("_ZNSt6chrono3_V212steady_clock3nowEv"); long sx_clock() { return 1000000000; } long sx_clock2() __asm__("_ZNSt6chrono3_V212system_clock3nowEv"); long sx_clock2() { return 1000000000; } time_t time(time_t* t) noexcept { if (t) *t = 1000; return 1000; } clock_t clock() noexcept { return 1000; }
int puts(const char* s) { std::cout << s << '\n'; return 1; } int sxc_putchar(int) __asm__("putchar"); int sxc_putchar(int c) { char k = (char)c; std::cout.write(&k, 1); return c; }
}

namespace sxm {
    static std::vector<Tok>* toks; static std::map<std::string, std::string>* fs;
    std::string internText(char kind, double d, long i) { return internNum(kind, d, i); }
    int tokPut(char k, double d, int64_t i) { if (!toks) toks = new std::vector<Tok>; toks->push_back({k, d, i}); return (int)toks->size() - 1; }
    const Tok& tokGet(int id) { if (!toks || id < 0 || (size_t)id >= toks->size()) sx_unsupported("unknown number token"); return (*toks)[(size_t)id]; }
    std::string tokText(int id) { std::string s; s += '\x01'; s += (*toks)[(size_t)id].kind; for (int k = 20; k >= 0; k -= 4) s += "0123456789abcdef"[(id >> k) & 15]; s += '\x02'; return s; }
    std::string* file(const std::string& n, bool create) { if (!fs) fs = new std::map<std::string, std::string>; auto it = fs->find(n); if (it == fs->end()) { if (!create) return nullptr; if (n.find("/nonexistent/") == 0) return nullptr; return &(*fs)[n]; } return &it->second; }
}
extern "C" int remove(const char* n) { if (!sxm::fs) return -1; return sxm::fs->erase(n) ? 0 : -1; }
static std::stringbuf* sbuf() { return new std::stringbuf; }
namespace std { ostream cout(sbuf()), cerr(sbuf()), clog(sbuf()); istream cin(sbuf()); }

namespace std {
    // exceptions
    __cow_string::__cow_string() : _M_p("") {} __cow_string::__cow_string(const char* s, size_t n) { char* p = (char*)::operator new(n + 1); for (size_t i = 0; i < n; i++) p[i] = s[i]; p[n] = 0; _M_p = p; }
    __cow_string::__cow_string(const string& s) : __cow_string(s.data(), s.size()) {} __cow_string::__cow_string(const __cow_string& o) noexcept : _M_p(o._M_p) {} __cow_string& __cow_string::operator=(const __cow_string& o) noexcept { _M_p = o._M_p; return *this; } __cow_string::~__cow_string() {} __cow_string::__cow_string(__cow_string&& o) noexcept : _M_p(o._M_p) {} __cow_string& __cow_string::operator=(__cow_string&& o) noexcept { _M_p = o._M_p; return *this; }
    exception::~exception() noexcept {} const char* exception::what() const noexcept { return "std::exception"; }
    bad_alloc::~bad_alloc() noexcept {} const char* bad_alloc::what() const noexcept { return "std::bad_alloc"; } bad_array_new_length::~bad_array_new_length() noexcept {} const char* bad_array_new_length::what() const noexcept { return "std::bad_array_new_length"; }
    bad_cast::~bad_cast() noexcept {} const char* bad_cast::what() const noexcept { return "std::bad_cast"; } bad_typeid::~bad_typeid() noexcept {} const char* bad_typeid::what() const noexcept { return "std::bad_typeid"; } bad_exception::~bad_exception() noexcept {} const char* bad_exception::what() const noexcept { return "std::bad_exception"; } bad_function_call::~bad_function_call() noexcept {} const char* bad_function_call::what() const noexcept { return "bad_function_call"; }
    logic_error::logic_error(const string& s) : _M_msg(s) {} logic_error::logic_error(const char* s) : _M_msg(s, strlen(s)) {} logic_error::~logic_error() noexcept {} const char* logic_error::what() const noexcept { return _M_msg._M_p; } logic_error::logic_error(const logic_error& o) noexcept : exception(o), _M_msg(o._M_msg) {} logic_error::logic_error(logic_error&& o) noexcept : exception(o), _M_msg(o._M_msg) {} logic_error& logic_error::operator=(const logic_error& o) noexcept { _M_msg = o._M_msg; return *this; }
    runtime_error::runtime_error(const string& s) : _M_msg(s) {} runtime_error::runtime_error(const char* s) : _M_msg(s, strlen(s)) {} runtime_error::~runtime_error() noexcept {} const char* runtime_error::what() const noexcept { return _M_msg._M_p; } runtime_error::runtime_error(const runtime_error& o) noexcept : exception(o), _M_msg(o._M_msg) {} runtime_error::runtime_error(runtime_error&& o) noexcept : exception(o), _M_msg(o._M_msg) {} runtime_error& runtime_error::operator=(const runtime_error& o) noexcept { _M_msg = o._M_msg; return *this; }
#define EXC(n, b) n::n(const string& s) : b(s) {} n::n(const char* s) : b(s) {} n::~n() noexcept {}
    EXC(domain_error, logic_error) EXC(invalid_argument, logic_error) EXC(length_error, logic_error) EXC(out_of_range, logic_error) EXC(range_error, runtime_error) EXC(overflow_error, runtime_error) EXC(underflow_error, runtime_error)
    type_info::~type_info() {} bool type_info::__is_pointer_p() const { return false; } bool type_info::__is_function_p() const { return false; } bool type_info::__do_catch(const type_info*, void**, unsigned) const { return false; } bool type_info::__do_upcast(const __cxxabiv1::__class_type_info*, void**) const { return false; }
    void __throw_bad_exception() { throw bad_exception(); } void __throw_bad_alloc() { throw bad_alloc(); } void __throw_bad_array_new_length() { throw bad_array_new_length(); } void __throw_bad_cast() { throw bad_cast(); } void __throw_bad_typeid() { throw bad_typeid(); }
    void __throw_logic_error(const char* s) { throw logic_error(s); } void __throw_domain_error(const char* s) { throw domain_error(s); } void __throw_invalid_argument(const char* s) { throw invalid_argument(s); } void __throw_length_error(const char* s) { throw length_error(s); } void __throw_out_of_range(const char* s) { throw out_of_range(s); } void __throw_out_of_range_fmt(const char* s, ...) { throw out_of_range(s); } void __throw_runtime_error(const char* s) { throw runtime_error(s); } void __throw_range_error(const char* s) { throw range_error(s); } void __throw_overflow_error(const char* s) { throw overflow_error(s); } void __throw_underflow_error(const char* s) { throw underflow_error(s); } void __throw_bad_function_call() { throw bad_function_call(); }
    void __glibcxx_assert_fail(const char* f, int, const char*, const char* c) noexcept { ::sx_lib_assert(c); __builtin_trap(); }
    // red-black trees
    _Rb_tree_node_base* _Rb_tree_increment(_Rb_tree_node_base* x) throw() { if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; } else { _Rb_tree_node_base* y = x->_M_parent; while (x == y->_M_right) { x = y; y = y->_M_parent; } if (x->_M_right != y) x = y; } return x; }
    const _Rb_tree_node_base* _Rb_tree_increment(const _Rb_tree_node_base* x) throw() { return _Rb_tree_increment(const_cast<_Rb_tree_node_base*>(x)); }
    _Rb_tree_node_base* _Rb_tree_decrement(_Rb_tree_node_base* x) throw() { if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) x = x->_M_right; else if (x->_M_left) { _Rb_tree_node_base* y = x->_M_left; while (y->_M_right) y = y->_M_right; x = y; } else { _Rb_tree_node_base* y = x->_M_parent; while (x == y->_M_left) { x = y; y = y->_M_parent; } x = y; } return x; }
    const _Rb_tree_node_base* _Rb_tree_decrement(const _Rb_tree_node_base* x) throw() { return _Rb_tree_decrement(const_cast<_Rb_tree_node_base*>(x)); }
    static void rotL(_Rb_tree_node_base* x, _Rb_tree_node_base*& root) { auto y = x->_M_right; x->_M_right = y->_M_left; if (y->_M_left) y->_M_left->_M_parent = x; y->_M_parent = x->_M_parent; if (x == root) root = y; else if (x == x->_M_parent->_M_left) x->_M_parent->_M_left = y; else x->_M_parent->_M_right = y; y->_M_left = x; x->_M_parent = y; }
    static void rotR(_Rb_tree_node_base* x, _Rb_tree_node_base*& root) { auto y = x->_M_left; x->_M_left = y->_M_right; if (y->_M_right) y->_M_right->_M_parent = x; y->_M_parent = x->_M_parent; if (x == root) root = y; else if (x == x->_M_parent->_M_right) x->_M_parent->_M_right = y; else x->_M_parent->_M_left = y; y->_M_right = x; x->_M_parent = y; }
    void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base* x, _Rb_tree_node_base* p, _Rb_tree_node_base& h) throw() {
        _Rb_tree_node_base*& root = h._M_parent; x->_M_parent = p; x->_M_left = x->_M_right = 0; x->_M_color = _S_red;
        if (left) { p->_M_left = x; if (p == &h) { h._M_parent = x; h._M_right = x; } else if (p == h._M_left) h._M_left = x; } else { p->_M_right = x; if (p == h._M_right) h._M_right = x; }
        while (x != root && x->_M_parent->_M_color == _S_red) {
            auto xpp = x->_M_parent->_M_parent;
            if (x->_M_parent == xpp->_M_left) { auto y = xpp->_M_right; if (y && y->_M_color == _S_red) { x->_M_parent->_M_color = _S_black; y->_M_color = _S_black; xpp->_M_color = _S_red; x = xpp; } else { if (x == x->_M_parent->_M_right) { x = x->_M_parent; rotL(x, root); } x->_M_parent->_M_color = _S_black; xpp->_M_color = _S_red; rotR(xpp, root); } }
            else { auto y = xpp->_M_left; if (y && y->_M_color == _S_red) { x->_M_parent->_M_color = _S_black; y->_M_color = _S_black; xpp->_M_color = _S_red; x = xpp; } else { if (x == x->_M_parent->_M_left) { x = x->_M_parent; rotR(x, root); } x->_M_parent->_M_color = _S_black; xpp->_M_color = _S_red; rotL(xpp, root); } }
        }
        root->_M_color = _S_black;
    }
    _Rb_tree_node_base* _Rb_tree_rebalance_for_erase(_Rb_tree_node_base* z, _Rb_tree_node_base& h) throw() {
        _Rb_tree_node_base *&root = h._M_parent, *&lm = h._M_left, *&rm = h._M_right, *y = z, *x = 0, *xp = 0;
        if (!y->_M_left) x = y->_M_right; else if (!y->_M_right) x = y->_M_left; else { y = y->_M_right; while (y->_M_left) y = y->_M_left; x = y->_M_right; }
        if (y != z) { z->_M_left->_M_parent = y; y->_M_left = z->_M_left; if (y != z->_M_right) { xp = y->_M_parent; if (x) x->_M_parent = y->_M_parent; y->_M_parent->_M_left = x; y->_M_right = z->_M_right; z->_M_right->_M_parent = y; } else xp = y; if (root == z) root = y; else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = y; else z->_M_parent->_M_right = y; y->_M_parent = z->_M_parent; auto c = y->_M_color; y->_M_color = z->_M_color; z->_M_color = c; y = z; }
        else { xp = y->_M_parent; if (x) x->_M_parent = y->_M_parent; if (root == z) root = x; else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = x; else z->_M_parent->_M_right = x;
            if (lm == z) { if (!z->_M_right) lm = z->_M_parent; else { auto w = x; while (w->_M_left) w = w->_M_left; lm = w; } }
            if (rm == z) { if (!z->_M_left) rm = z->_M_parent; else { auto w = x; while (w->_M_right) w = w->_M_right; rm = w; } } }
        if (y->_M_color != _S_red) {
            while (x != root && (!x || x->_M_color == _S_black)) {
                if (x == xp->_M_left) { auto w = xp->_M_right; if (w->_M_color == _S_red) { w->_M_color = _S_black; xp->_M_color = _S_red; rotL(xp, root); w = xp->_M_right; } if ((!w->_M_left || w->_M_left->_M_color == _S_black) && (!w->_M_right || w->_M_right->_M_color == _S_black)) { w->_M_color = _S_red; x = xp; xp = xp->_M_parent; } else { if (!w->_M_right || w->_M_right->_M_color == _S_black) { w->_M_left->_M_color = _S_black; w->_M_color = _S_red; rotR(w, root); w = xp->_M_right; } w->_M_color = xp->_M_color; xp->_M_color = _S_black; if (w->_M_right) w->_M_right->_M_color = _S_black; rotL(xp, root); break; } }
                else { auto w = xp->_M_left; if (w->_M_color == _S_red) { w->_M_color = _S_black; xp->_M_color = _S_red; rotR(xp, root); w = xp->_M_left; } if ((!w->_M_right || w->_M_right->_M_color == _S_black) && (!w->_M_left || w->_M_left->_M_color == _S_black)) { w->_M_color = _S_red; x = xp; xp = xp->_M_parent; } else { if (!w->_M_left || w->_M_left->_M_color == _S_black) { w->_M_right->_M_color = _S_black; w->_M_color = _S_red; rotL(w, root); w = xp->_M_left; } w->_M_color = xp->_M_color; xp->_M_color = _S_black; if (w->_M_left) w->_M_left->_M_color = _S_black; rotR(xp, root); break; } }
            }
            if (x) x->_M_color = _S_black;
        }
        return y;
    }
    namespace __detail {
        void _List_node_base::_M_hook(_List_node_base* const p) noexcept { this->_M_next = p; this->_M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this; }
        void _List_node_base::_M_unhook() noexcept { auto n = this->_M_next, p = this->_M_prev; p->_M_next = n; n->_M_prev = p; }
        void _List_node_base::_M_transfer(_List_node_base* const f, _List_node_base* const l) noexcept { if (this != l) { l->_M_prev->_M_next = this; f->_M_prev->_M_next = l; this->_M_prev->_M_next = f; auto t = this->_M_prev; this->_M_prev = l->_M_prev; l->_M_prev = f->_M_prev; f->_M_prev = t; } }
        void _List_node_base::_M_reverse() noexcept { auto t = this; do { auto n = t->_M_next; t->_M_next = t->_M_prev; t->_M_prev = n; t = n; } while (t != this); }
        void _List_node_base::swap(_List_node_base& x, _List_node_base& y) noexcept { bool ex = x._M_next == &x, ey = y._M_next == &y; if (!ex && !ey) { auto n = x._M_next, p = x._M_prev; x._M_next = y._M_next; x._M_prev = y._M_prev; y._M_next = n; y._M_prev = p; x._M_next->_M_prev = x._M_prev->_M_next = &x; y._M_next->_M_prev = y._M_prev->_M_next = &y; } else if (!ex) { y._M_next = x._M_next; y._M_prev = x._M_prev; y._M_next->_M_prev = y._M_prev->_M_next = &y; x._M_next = x._M_prev = &x; } else if (!ey) { x._M_next = y._M_next; x._M_prev = y._M_prev; x._M_next->_M_prev = x._M_prev->_M_next = &x; y._M_next = y._M_prev = &y; } }
        static const size_t primes[] = {2, 5, 11, 13, 29, 59, 127, 257, 541, 1109, 2357, 5087, 10273, 20753, 42043, 85229};
        size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const { size_t r = primes[15]; for (int i = 15; i >= 0; i--) if (primes[i] >= n) r = primes[i]; _M_next_resize = (size_t)((double)r * (double)_M_max_load_factor); return r; }
        pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash(size_t nb, size_t ne, size_t ni) const { if (ne + ni > _M_next_resize) { double m = (double)(ne + ni) / (double)_M_max_load_factor; if (m >= (double)nb) { size_t w = (size_t)m + 1; if (w < nb * 2) w = nb * 2; return {true, _M_next_bkt(w)}; } _M_next_resize = (size_t)((double)nb * (double)_M_max_load_factor); return {false, 0}; } return {false, 0}; }
    }
    // contents with symbolic bytes hash like an ideal hash function: equal exactly when the contents are equal
    struct SxHashed { std::string data; size_t hash; }; static std::vector<SxHashed>* sxHashed;
    static size_t sxMurmur(const void* ptr, size_t len, size_t seed);
    size_t _Hash_bytes(const void* ptr, size_t len, size_t seed) {
        if (len < 24) return sxMurmur(ptr, len, seed);
        bool sym = sx_memsym(ptr, len); if (!sxHashed) sxHashed = new std::vector<SxHashed>;
        for (auto& h : *sxHashed) if (h.data.size() == len && sx_memeq(h.data.data(), ptr, len)) return h.hash;
        size_t v = sym ? 0x9e3779b97f4a7c15UL * (sxHashed->size() + 3) : sxMurmur(ptr, len, seed); sxHashed->push_back({std::string((const char*)ptr, len), v}); return v; }
    static size_t sxMurmur(const void* ptr, size_t len, size_t seed) { // murmur, as in libstdc++
        static const size_t mul = (((size_t)0xc6a4a793UL) << 32UL) + (size_t)0x5bd1e995UL; const char* buf = (const char*)ptr; const size_t la = len & ~(size_t)7; size_t hash = seed ^ (len * mul); auto sm = [](size_t v) { return v ^ (v >> 47); };
        for (const char* p = buf; p != buf + la; p += 8) { size_t d; __builtin_memcpy(&d, p, 8); d = sm(d * mul) * mul; hash ^= d; hash *= mul; }
        if (len & 7) { size_t d = 0; for (size_t n = len & 7; n-- > 0;) d = (d << 8) + (unsigned char)buf[la + n]; hash ^= d; hash *= mul; }
        hash = sm(hash) * mul; return sm(hash); }
}
template class std::basic_string<char>;
// casts to a derived class, for hierarchies of single inheritance with the base class at the start of the object
extern "C" void* _ZTVN10__cxxabiv120__si_class_type_infoE[];
extern "C" void* __dynamic_cast(const void* sub, const void*, const void* dst, long) {
    void** vt = *(void***)sub; const char* whole = (const char*)sub + (long)vt[-2];
    for (void** ti = (void**)vt[-1]; ti; ti = ti[0] == (void*)(_ZTVN10__cxxabiv120__si_class_type_infoE + 2) ? (void**)ti[2] : nullptr) if (ti == dst) return const_cast<char*>(whole);
    return nullptr;
}
