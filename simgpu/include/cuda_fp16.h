#pragma once
#include "cuda_runtime.h"
namespace simgpu {
inline float h2f(unsigned short h) {
  unsigned s = (h & 0x8000u) << 16, e = (h >> 10) & 31, m = h & 1023, u;
  if (e == 31) u = s | 0x7f800000u | (m << 13);
  else if (e) u = s | ((e + 112) << 23) | (m << 13);
  else {
    float f = (float)m * 5.9604644775390625e-8f;
    return s ? -f : f;
  }
  float f;
  __builtin_memcpy(&f, &u, 4);
  return f;
}
inline unsigned short f2h(float f) {  // round to nearest even
  unsigned u;
  __builtin_memcpy(&u, &f, 4);
  unsigned s = (u >> 16) & 0x8000u;
  unsigned a = u & 0x7fffffffu;
  if (a > 0x7f800000u) return (unsigned short)0x7fff;
  if (a >= 0x477ff000u) return (unsigned short)(s | 0x7c00u);
  if (a >= 0x38800000u) {
    unsigned r = a - 0x38000000u;
    return (unsigned short)(s | ((r + 0xfffu + ((r >> 13) & 1)) >> 13));
  }
  float b;
  __builtin_memcpy(&b, &a, 4);
  b += 0.5f;  // denormal: 0.5 + x rounds at 2^-24
  unsigned v;
  __builtin_memcpy(&v, &b, 4);
  return (unsigned short)(s | (v - 0x3f000000u));
}
inline float b2f(unsigned short b) {
  unsigned u = (unsigned)b << 16;
  float f;
  __builtin_memcpy(&f, &u, 4);
  return f;
}
inline unsigned short f2b(float f) {
  unsigned u;
  __builtin_memcpy(&u, &f, 4);
  if ((u & 0x7fffffffu) > 0x7f800000u) return 0x7fff;
  return (unsigned short)((u + 0x7fffu + ((u >> 16) & 1)) >> 16);
}
}  // namespace simgpu
#define SIMGPU_HALF(N, TO, FROM)                                                            \
  struct alignas(2) N {                                                                     \
    unsigned short x;                                                                       \
    N() = default;                                                                          \
    N(float f) : x(simgpu::FROM(f)) {}                                                      \
    N(double f) : N((float)f) {}                                                            \
    N(int v) : N((float)v) {}                                                               \
    N(unsigned v) : N((float)v) {}                                                          \
    N(long v) : N((float)v) {}                                                              \
    N(unsigned long v) : N((float)v) {}                                                     \
    operator float() const { return simgpu::TO(x); }                                        \
  };                                                                                        \
  inline N operator+(const N& a, const N& b) { return N((float)a + (float)b); }             \
  inline N operator-(const N& a, const N& b) { return N((float)a - (float)b); }             \
  inline N operator*(const N& a, const N& b) { return N((float)a * (float)b); }             \
  inline N operator/(const N& a, const N& b) { return N((float)a / (float)b); }             \
  inline N operator-(const N& a) { N r; r.x = a.x ^ 0x8000; return r; }                     \
  inline N& operator+=(N& a, const N& b) { return a = a + b; }                              \
  inline N& operator-=(N& a, const N& b) { return a = a - b; }                              \
  inline N& operator*=(N& a, const N& b) { return a = a * b; }                              \
  inline N& operator/=(N& a, const N& b) { return a = a / b; }                              \
  inline bool operator==(const N& a, const N& b) { return (float)a == (float)b; }           \
  inline bool operator!=(const N& a, const N& b) { return (float)a != (float)b; }           \
  inline bool operator<(const N& a, const N& b) { return (float)a < (float)b; }             \
  inline bool operator>(const N& a, const N& b) { return (float)a > (float)b; }             \
  inline bool operator<=(const N& a, const N& b) { return (float)a <= (float)b; }           \
  inline bool operator>=(const N& a, const N& b) { return (float)a >= (float)b; }
SIMGPU_HALF(__half, h2f, f2h)
typedef __half half;
inline float __half2float(__half h) { return (float)h; }
inline __half __float2half(float f) { return __half(f); }
inline short __half_as_short(__half h) { return (short)h.x; }
inline __half __hneg(__half h) { return -h; }
