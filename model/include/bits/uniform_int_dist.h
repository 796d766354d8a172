#ifndef SX_UNIFORM_INT
#define SX_UNIFORM_INT
#include <cstdint>
#include <type_traits>
extern "C" int64_t sx_i64(const char* name, int64_t lo, int64_t hi);
namespace std {
namespace __detail { template<typename T> constexpr bool _Power_of_2(T x) { return ((x - 1) & x) == 0; } }
// every value in the range is tried
template<class T = int> class uniform_int_distribution {
    T lo, hi;
public:
    typedef T result_type;
    struct param_type { T x, y; typedef uniform_int_distribution<T> distribution_type; explicit param_type(T a = 0, T b = 0x7fffffff) : x(a), y(b) {} T a() const { return x; } T b() const { return y; } };
    explicit uniform_int_distribution(T a = 0, T b = 0x7fffffff) : lo(a), hi(b) {} explicit uniform_int_distribution(const param_type& p) : lo(p.x), hi(p.y) {}
    T a() const { return lo; } T b() const { return hi; } T min() const { return lo; } T max() const { return hi; } void reset() {}
    template<class G> T operator()(G&) { return (T)sx_i64("random", (int64_t)lo, (int64_t)hi); }
    template<class G> T operator()(G&, const param_type& p) { return (T)sx_i64("random", (int64_t)p.x, (int64_t)p.y); }
};
}
#endif
