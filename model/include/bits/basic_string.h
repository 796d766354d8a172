// The real header, with std::to_string replaced: a symbolic number becomes one opaque token, equal numbers the same one.
#ifndef SX_BASIC_STRING_H
#define SX_BASIC_STRING_H
#define to_string sx_real_to_string_
#include_next <bits/basic_string.h>
#undef to_string
extern "C" { int sx_symbolic_f64(double); int sx_symbolic_i64(long); int sx_fmt(char* buf, int cap, const char* fmt, double v); }
extern "C" double round(double) noexcept;
namespace sxm { std::string internText(char kind, double d, long i); }
namespace std {
inline string to_string(unsigned long long v) { if (sx_symbolic_i64((long)v)) return sxm::internText('u', 0, (long)v); char b[24]; int k = 24; do b[--k] = (char)('0' + v % 10); while (v /= 10); return string(b + k, b + 24); }
inline string to_string(long long v) { if (sx_symbolic_i64((long)v)) return sxm::internText('i', 0, (long)v); return v < 0 ? "-" + to_string(0ULL - (unsigned long long)v) : to_string((unsigned long long)v); }
inline string to_string(int v) { return to_string((long long)v); } inline string to_string(long v) { return to_string((long long)v); } inline string to_string(unsigned v) { return to_string((unsigned long long)v); } inline string to_string(unsigned long v) { return to_string((unsigned long long)v); }
inline string to_string(double v) { if (sx_symbolic_f64(v)) return sxm::internText('d', ::round(v * 1e6) / 1e6, 0); char b[400]; int n = sx_fmt(b, 400, "%f", v); return string(b, (size_t)n); }
inline string to_string(float v) { return to_string((double)v); } inline string to_string(long double v) { return to_string((double)v); }
}
#endif
