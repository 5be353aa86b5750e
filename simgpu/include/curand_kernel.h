// Philox4x32-10 with the sequence/offset layout of cuRAND
#pragma once
#include "cuda_runtime.h"
typedef enum {
  CURAND_STATUS_SUCCESS = 0, CURAND_STATUS_VERSION_MISMATCH = 100, CURAND_STATUS_NOT_INITIALIZED = 101, CURAND_STATUS_ALLOCATION_FAILED = 102,
  CURAND_STATUS_TYPE_ERROR = 103, CURAND_STATUS_OUT_OF_RANGE = 104, CURAND_STATUS_LENGTH_NOT_MULTIPLE = 105,
  CURAND_STATUS_DOUBLE_PRECISION_REQUIRED = 106, CURAND_STATUS_LAUNCH_FAILURE = 201, CURAND_STATUS_PREEXISTING_FAILURE = 202,
  CURAND_STATUS_INITIALIZATION_FAILED = 203, CURAND_STATUS_ARCH_MISMATCH = 204, CURAND_STATUS_INTERNAL_ERROR = 999
} curandStatus_t;
struct curandStatePhilox4_32_10 {
  unsigned ctr[4], key[2], out[4];
  unsigned pos;
};
typedef curandStatePhilox4_32_10 curandStatePhilox4_32_10_t;
typedef curandStatePhilox4_32_10 curandState;
namespace simgpu {
inline void philox(curandStatePhilox4_32_10* s) {
  unsigned c0 = s->ctr[0], c1 = s->ctr[1], c2 = s->ctr[2], c3 = s->ctr[3], k0 = s->key[0], k1 = s->key[1];
  for (int i = 0; i < 10; i++) {
    uint64_t p0 = (uint64_t)0xD2511F53u * c0, p1 = (uint64_t)0xCD9E8D57u * c2;
    unsigned n0 = (unsigned)(p1 >> 32) ^ c1 ^ k0, n1 = (unsigned)p1, n2 = (unsigned)(p0 >> 32) ^ c3 ^ k1, n3 = (unsigned)p0;
    c0 = n0, c1 = n1, c2 = n2, c3 = n3;
    k0 += 0x9E3779B9u, k1 += 0xBB67AE85u;
  }
  s->out[0] = c0, s->out[1] = c1, s->out[2] = c2, s->out[3] = c3;
}
inline unsigned philoxNext(curandStatePhilox4_32_10* s) {
  if (s->pos == 4) {
    s->pos = 0;
    if (!++s->ctr[0] && !++s->ctr[1] && !++s->ctr[2]) ++s->ctr[3];
    philox(s);
  }
  return s->out[s->pos++];
}
}  // namespace simgpu
inline void curand_init(unsigned long long seed, unsigned long long seq, unsigned long long off, curandStatePhilox4_32_10* s) {
  s->ctr[0] = (unsigned)(off / 4), s->ctr[1] = (unsigned)(off / 4 >> 32), s->ctr[2] = (unsigned)seq, s->ctr[3] = (unsigned)(seq >> 32);
  s->key[0] = (unsigned)seed, s->key[1] = (unsigned)(seed >> 32);
  s->pos = off & 3;
  simgpu::philox(s);
}
inline float curand_uniform(curandStatePhilox4_32_10* s) { return simgpu::philoxNext(s) * 2.3283064e-10f + 2.3283064e-10f / 2.0f; }
inline float4 curand_uniform4(curandStatePhilox4_32_10* s) {
  float4 r;
  r.x = curand_uniform(s), r.y = curand_uniform(s), r.z = curand_uniform(s), r.w = curand_uniform(s);
  return r;
}
inline float4 curand_normal4(curandStatePhilox4_32_10* s) {
  float4 u = curand_uniform4(s), r;
  float a = sqrtf(-2.f * logf(u.x)), b = 6.2831853f * u.y, c = sqrtf(-2.f * logf(u.z)), d = 6.2831853f * u.w;
  r.x = a * sinf(b), r.y = a * cosf(b), r.z = c * sinf(d), r.w = c * cosf(d);
  return r;
}
inline float curand_normal(curandStatePhilox4_32_10* s) {
  float u = curand_uniform(s), v = curand_uniform(s);
  return sqrtf(-2.f * logf(u)) * sinf(6.2831853f * v);
}
