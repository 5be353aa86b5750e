#pragma once
#include "cuda_fp16.h"
SIMGPU_HALF(__nv_bfloat16, b2f, f2b)
inline float __bfloat162float(__nv_bfloat16 h) { return (float)h; }
inline __nv_bfloat16 __float2bfloat16(float f) { return __nv_bfloat16(f); }
inline unsigned short __bfloat16_as_ushort(__nv_bfloat16 h) { return h.x; }
