#ifndef SX_COMMON_H
#define SX_COMMON_H
#include "sx.h"
#include <string>
// name with index, e.g. nm("x", 3) == "x3"
inline std::string nm(const char* b, int i) { return std::string(b) + (char)('0' + i / 10) + (char)('0' + i % 10); }
inline void sxAssert(bool c, const char* m) { sx_assert(c ? 1 : 0, m); }
#define ASSERT(...) sxAssert(__VA_ARGS__)
#define ASSUME(c) sx_assume((c) ? 1 : 0)
inline double symReal(const char* n, double lo = -8, double hi = 8) { return sx_real(n, lo, hi); }
inline int choose(int n) { return (int)sx_pick(sx_i64("pick", 0, n - 1)); } // forks
#endif
