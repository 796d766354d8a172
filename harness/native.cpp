// Native side of the harness interface: reads the values a symbolic run produced and replays
// the harness against the real library and the real standard library.
#include "sx.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <map>
#include <string>
#include <fstream>
#include <exception>
#include <typeinfo>
#include <unistd.h>
static std::map<std::string, std::string> vals; static std::map<std::string, int> cnt;
static const char* get(const char* n) { std::string k = std::string(n) + "#" + std::to_string(cnt[n]++); auto it = vals.find(k); return it == vals.end() ? nullptr : it->second.c_str(); }
static long long geti(const char* n, long long dflt) { const char* s = get(n); if (!s) return dflt; if (s[0] == '-' ) return strtoll(s, nullptr, 10); return (long long)strtoull(s, nullptr, 0); }
extern "C" {
int64_t sx_i64(const char* n, int64_t lo, int64_t hi) { int64_t v = geti(n, lo); if (v < lo || v > hi) { fprintf(stderr, "SX-ASSUME range %s\n", n); _exit(43); } return v; }
uint8_t sx_u8(const char* n) { return (uint8_t)geti(n, 0); } uint16_t sx_u16(const char* n) { return (uint16_t)geti(n, 0); } uint32_t sx_u32(const char* n) { return (uint32_t)geti(n, 0); } uint64_t sx_u64(const char* n) { return (uint64_t)geti(n, 0); }
double sx_f64(const char* n) { uint64_t b = (uint64_t)geti(n, 0); double d; memcpy(&d, &b, 8); return d; }
float sx_f32(const char* n) { const char* s = get(n); uint64_t b = s ? strtoull(s, nullptr, 0) : 0; if (s && strlen(s) > 12) { double d; memcpy(&d, &b, 8); return (float)d; } uint32_t x = (uint32_t)b; float f; memcpy(&f, &x, 4); return f; }
double sx_real(const char* n, double lo, double hi) { double d = sx_f64(n); if (!(d >= lo - 1e-12 && d <= hi + 1e-12)) d = lo; return d; }
void sx_assume(int c) { if (!c) { fprintf(stderr, "SX-ASSUME\n"); _exit(43); } }
void sx_assert(int c, const char* m) { if (!c) { fprintf(stderr, "SX-ASSERT %s\n", m); fflush(stderr); _exit(42); } }
void sx_assert_close(double a, double b, const char* m) { if (!(std::fabs(a - b) <= 1e-9 * (1 + std::fabs(a) + std::fabs(b)))) { fprintf(stderr, "SX-ASSERT %s (%.17g vs %.17g)\n", m, a, b); fflush(stderr); _exit(42); } }
void sx_assert_closef(float a, float b, const char* m) { if (!(std::fabs(a - b) <= 1e-4 * (1 + std::fabs(a) + std::fabs(b)))) { fprintf(stderr, "SX-ASSERT %s (%.9g vs %.9g)\n", m, a, b); fflush(stderr); _exit(42); } }
int sx_same(double a, double b) { if (a != a && b != b) return 1; return memcmp(&a, &b, 8) == 0; }
int sx_samef(float a, float b) { if (a != a && b != b) return 1; return memcmp(&a, &b, 4) == 0; }
int sx_memeq(const void* a, const void* b, unsigned long n) { return memcmp(a, b, n) == 0; }
void sx_reach(const char* l) { fprintf(stderr, "SX-REACH %s\n", l); }
int64_t sx_pick(int64_t v) { return v; }
int sx_in_engine() { return 0; }
void sx_print(const char* s) { fprintf(stderr, "%s\n", s); }
}
int main(int argc, char** argv) {
    std::ifstream f(argc > 1 ? argv[1] : "/dev/null"); std::string k, v; while (f >> k >> v) vals[k] = v;
    try { sx_main(); } catch (std::exception& e) { fprintf(stderr, "SX-EXC %s %s\n", typeid(e).name(), e.what()); fflush(stderr); _exit(44); } catch (...) { fprintf(stderr, "SX-EXC\n"); _exit(44); }
    fprintf(stderr, "SX-DONE\n"); fflush(stderr); _exit(0);
}
