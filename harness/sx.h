// Harness interface shared by the symbolic run and the native replay.
#ifndef SX_H
#define SX_H
#include <cstdint>
extern "C" {
int64_t  sx_i64(const char* name, int64_t lo, int64_t hi);
uint8_t  sx_u8(const char* name);
uint16_t sx_u16(const char* name);
uint32_t sx_u32(const char* name);
uint64_t sx_u64(const char* name);
double   sx_f64(const char* name);
float    sx_f32(const char* name);
double   sx_real(const char* name, double lo, double hi);
void     sx_assume(int c);
void     sx_assert(int c, const char* msg);
void     sx_assert_close(double a, double b, const char* msg);
void     sx_assert_closef(float a, float b, const char* msg);
int      sx_memeq(const void* a, const void* b, unsigned long n);
int      sx_same(double a, double b);
int      sx_samef(float a, float b);
void     sx_reach(const char* label);
int64_t  sx_pick(int64_t v);
int      sx_in_engine();
void     sx_print(const char*);
void     sx_main();
}
#endif
