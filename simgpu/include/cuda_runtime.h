// simulated CUDA runtime: interface of the parts the library uses; behaviour in simgpu/gpu.cpp
#pragma once
#include <cassert>
#include <cmath>
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <limits>
#include <tuple>
#include <type_traits>

#define __global__
#define __device__
#define __host__
#define __forceinline__ inline
#define __restrict__
#define __launch_bounds__(...)
#define __align__(n) __attribute__((aligned(n)))

typedef enum cudaError {
  cudaSuccess = 0,
  cudaErrorInvalidValue = 1,
  cudaErrorMemoryAllocation = 2,
  cudaErrorInvalidConfiguration = 9,
  cudaErrorInvalidDevice = 101,
  cudaErrorInvalidResourceHandle = 400,
  cudaErrorNotReady = 600,
  cudaErrorIllegalAddress = 700,
  cudaErrorLaunchFailure = 719,
  cudaErrorUnknown = 999
} cudaError_t;
typedef struct CUstream_st* cudaStream_t;
typedef struct CUevent_st* cudaEvent_t;
enum cudaMemcpyKind { cudaMemcpyHostToHost = 0, cudaMemcpyHostToDevice = 1, cudaMemcpyDeviceToHost = 2, cudaMemcpyDeviceToDevice = 3, cudaMemcpyDefault = 4 };
constexpr unsigned cudaHostAllocDefault = 0, cudaEventDefault = 0, cudaEventBlockingSync = 1, cudaEventDisableTiming = 2, cudaStreamDefault = 0,
                   cudaStreamNonBlocking = 1;
struct cudaDeviceProp {
  char name[256];
  size_t totalGlobalMem, sharedMemPerBlock;
  int regsPerBlock, warpSize, maxThreadsPerBlock, maxThreadsDim[3], maxGridSize[3], major, minor, multiProcessorCount;
};
struct dim3 {
  unsigned x, y, z;
  constexpr dim3(unsigned a = 1, unsigned b = 1, unsigned c = 1) : x(a), y(b), z(c) {}
};
struct uint3 { unsigned x, y, z; };
struct alignas(8) float2 { float x, y; };
struct float3 { float x, y, z; };
struct alignas(16) float4 { float x, y, z, w; };
struct alignas(8) int2 { int x, y; };
struct alignas(16) int4 { int x, y, z, w; };
struct uint4 { unsigned x, y, z, w; };
inline float2 make_float2(float x, float y) { return {x, y}; }
inline float3 make_float3(float x, float y, float z) { return {x, y, z}; }
inline float4 make_float4(float x, float y, float z, float w) { return {x, y, z, w}; }

extern "C" {
cudaError_t cudaGetDeviceCount(int*);
cudaError_t cudaGetDevice(int*);
cudaError_t cudaSetDevice(int);
cudaError_t cudaGetDeviceProperties(cudaDeviceProp*, int);
cudaError_t cudaGetLastError();
cudaError_t cudaPeekAtLastError();
const char* cudaGetErrorString(cudaError_t);
cudaError_t cudaMalloc(void**, size_t);
cudaError_t cudaFree(void*);
cudaError_t cudaHostAlloc(void**, size_t, unsigned);
cudaError_t cudaFreeHost(void*);
cudaError_t cudaMemcpyAsync(void*, const void*, size_t, cudaMemcpyKind, cudaStream_t);
cudaError_t cudaMemcpy(void*, const void*, size_t, cudaMemcpyKind);
cudaError_t cudaMemsetAsync(void*, int, size_t, cudaStream_t);
cudaError_t cudaMemset(void*, int, size_t);
cudaError_t cudaStreamCreate(cudaStream_t*);
cudaError_t cudaStreamCreateWithFlags(cudaStream_t*, unsigned);
cudaError_t cudaStreamDestroy(cudaStream_t);
cudaError_t cudaStreamSynchronize(cudaStream_t);
cudaError_t cudaStreamQuery(cudaStream_t);
cudaError_t cudaStreamWaitEvent_(cudaStream_t, cudaEvent_t, unsigned);
cudaError_t cudaEventCreateWithFlags(cudaEvent_t*, unsigned);
cudaError_t cudaEventDestroy(cudaEvent_t);
cudaError_t cudaEventRecord(cudaEvent_t, cudaStream_t);
cudaError_t cudaEventQuery(cudaEvent_t);
cudaError_t cudaEventSynchronize(cudaEvent_t);
cudaError_t cudaDeviceSynchronize();
}
inline cudaError_t cudaStreamWaitEvent(cudaStream_t s, cudaEvent_t e, unsigned f = 0) { return cudaStreamWaitEvent_(s, e, f); }
template <class T>
inline cudaError_t cudaMalloc(T** p, size_t n) { return cudaMalloc((void**)p, n); }

extern uint3 threadIdx, blockIdx;
extern dim3 blockDim, gridDim;
namespace simgpu {
void launchKernel(dim3 g, dim3 b, size_t shmem, cudaStream_t s, void (*body)(void*), void* args);
void* argAlloc(size_t n);
void runOnStream(cudaStream_t s, const std::function<void()>& body);  // enqueues and waits
void* sharedVar(const void* key, size_t n);          // block-local storage
void syncThreads();
void warpPublish(const void* v, size_t n);           // lane value for this round
void warpFetch(int lane, void* v, size_t n);         // value of a lane
void deviceRead(void* dst, const void* src, size_t n);   // synchronous host access to device memory (null stream)
void deviceWrite(void* dst, const void* src, size_t n);
void atomicPoint(const void* p, size_t n);
template <class F, class... A>
void launch(dim3 g, dim3 b, size_t sh, cudaStream_t s, F f, A... a) {
  using P = std::tuple<F, A...>;
  static_assert(alignof(P) <= 64, "");
  void* m = argAlloc(sizeof(P));
  new (m) P(f, a...);
  launchKernel(g, b, sh, s, [](void* p) { std::apply([](auto& k, auto&... x) { k(x...); }, *(P*)p); }, m);
}
inline void launchCfg(dim3* g, dim3* b, size_t* sh, cudaStream_t* s, dim3 gg, dim3 bb, size_t ss = 0, cudaStream_t st = nullptr) {
  *g = gg, *b = bb, *sh = ss, *s = st;
}
template <class T>
__attribute__((no_sanitize("thread"), noinline)) T rawLoad(const T* p) { return *p; }
template <class T>
__attribute__((no_sanitize("thread"), noinline)) void rawStore(T* p, T v) { *p = v; }
}  // namespace simgpu
constexpr int warpSize = 32;
inline void __syncthreads() { simgpu::syncThreads(); }
inline void __syncwarp(unsigned = 0xffffffffu) { char c = 0; simgpu::warpPublish(&c, 1); simgpu::warpFetch(-1, &c, 1); }
template <class T>
inline T __shfl_sync(unsigned, T v, int src, int width = 32) {
  int lane = threadIdx.x & 31;
  simgpu::warpPublish(&v, sizeof v);
  T r = v;
  simgpu::warpFetch((lane & ~(width - 1)) | (src & (width - 1)), &r, sizeof r);
  return r;
}
template <class T>
inline T __shfl_down_sync(unsigned, T v, unsigned d, int width = 32) {
  int lane = threadIdx.x & 31;
  simgpu::warpPublish(&v, sizeof v);
  T r = v;
  int src = lane + (int)d;
  simgpu::warpFetch((src & ~(width - 1)) == (lane & ~(width - 1)) ? src : lane, &r, sizeof r);
  return r;
}
template <class T>
inline T __shfl_xor_sync(unsigned, T v, int m, int width = 32) {
  int lane = threadIdx.x & 31;
  simgpu::warpPublish(&v, sizeof v);
  T r = v;
  simgpu::warpFetch((lane ^ m) < ((lane & ~(width - 1)) + width) ? lane ^ m : lane, &r, sizeof r);
  return r;
}
template <class T>
inline T __ldg(const T* p) { return *p; }
#define SIM_ATOMIC(NAME, EXPR)                                          \
  template <class T, class V>                                           \
  inline T NAME(T* p, V w) {                                            \
    simgpu::atomicPoint(p, sizeof(T));                                  \
    T v = (T)w;                                                         \
    T o = simgpu::rawLoad(p);                                           \
    simgpu::rawStore(p, (T)(EXPR));                                     \
    return o;                                                           \
  }
SIM_ATOMIC(atomicAdd, o + v)
SIM_ATOMIC(atomicMax, o < v ? v : o)
SIM_ATOMIC(atomicMin, v < o ? v : o)
SIM_ATOMIC(atomicExch, v)
template <class T>
inline T atomicCAS(T* p, T c, T v) {
  simgpu::atomicPoint(p, sizeof(T));
  T o = simgpu::rawLoad(p);
  if (o == c) simgpu::rawStore(p, v);
  return o;
}
inline float rsqrtf(float x) { return 1.f / sqrtf(x); }
inline float __expf(float x) { return expf(x); }
inline float __fdividef(float a, float b) { return a / b; }
inline float __uint_as_float(unsigned u) { float f; memcpy(&f, &u, 4); return f; }
inline unsigned __float_as_uint(float f) { unsigned u; memcpy(&u, &f, 4); return u; }
