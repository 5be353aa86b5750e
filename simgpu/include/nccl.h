#pragma once
#include "cuda_runtime.h"
#define NCCL_MAJOR 2
#define NCCL_MINOR 21
#define NCCL_PATCH 5
#define NCCL_VERSION(X, Y, Z) (((X) <= 2 && (Y) <= 8) ? (X) * 1000 + (Y) * 100 + (Z) : (X) * 10000 + (Y) * 100 + (Z))
#define NCCL_VERSION_CODE NCCL_VERSION(2, 21, 5)
#define NCCL_UNIQUE_ID_BYTES 128
typedef struct ncclComm* ncclComm_t;
typedef struct { char internal[NCCL_UNIQUE_ID_BYTES]; } ncclUniqueId;
typedef enum {
  ncclSuccess = 0, ncclUnhandledCudaError = 1, ncclSystemError = 2, ncclInternalError = 3, ncclInvalidArgument = 4, ncclInvalidUsage = 5,
  ncclRemoteError = 6, ncclInProgress = 7, ncclNumResults = 8
} ncclResult_t;
typedef struct {
  size_t size;
  unsigned int magic, version;
  int blocking, cgaClusterSize, minCTAs, maxCTAs;
  const char* netName;
  int splitShare;
} ncclConfig_t;
#define NCCL_CONFIG_UNDEF_INT (-2147483647 - 1)
#define NCCL_CONFIG_INITIALIZER \
  { sizeof(ncclConfig_t), 0xcafebeef, NCCL_VERSION_CODE, NCCL_CONFIG_UNDEF_INT, NCCL_CONFIG_UNDEF_INT, NCCL_CONFIG_UNDEF_INT, NCCL_CONFIG_UNDEF_INT, nullptr, NCCL_CONFIG_UNDEF_INT }
typedef enum { ncclSum = 0, ncclProd = 1, ncclMax = 2, ncclMin = 3, ncclAvg = 4 } ncclRedOp_t;
typedef enum {
  ncclInt8 = 0, ncclChar = 0, ncclUint8 = 1, ncclInt32 = 2, ncclInt = 2, ncclUint32 = 3, ncclInt64 = 4, ncclUint64 = 5, ncclFloat16 = 6,
  ncclHalf = 6, ncclFloat32 = 7, ncclFloat = 7, ncclFloat64 = 8, ncclDouble = 8, ncclBfloat16 = 9
} ncclDataType_t;
extern "C" {
const char* ncclGetErrorString(ncclResult_t);
ncclResult_t ncclGetUniqueId(ncclUniqueId*);
ncclResult_t ncclCommInitRankConfig(ncclComm_t*, int nranks, ncclUniqueId, int rank, ncclConfig_t*);
ncclResult_t ncclCommInitRank(ncclComm_t*, int nranks, ncclUniqueId, int rank);
ncclResult_t ncclCommFinalize(ncclComm_t);
ncclResult_t ncclCommDestroy(ncclComm_t);
ncclResult_t ncclCommAbort(ncclComm_t);
ncclResult_t ncclCommGetAsyncError(ncclComm_t, ncclResult_t*);
ncclResult_t ncclCommCount(const ncclComm_t, int*);
ncclResult_t ncclCommUserRank(const ncclComm_t, int*);
ncclResult_t ncclGroupStart();
ncclResult_t ncclGroupEnd();
ncclResult_t ncclBroadcast(const void*, void*, size_t, ncclDataType_t, int root, ncclComm_t, cudaStream_t);
ncclResult_t ncclAllReduce(const void*, void*, size_t, ncclDataType_t, ncclRedOp_t, ncclComm_t, cudaStream_t);
ncclResult_t ncclReduce(const void*, void*, size_t, ncclDataType_t, ncclRedOp_t, int root, ncclComm_t, cudaStream_t);
ncclResult_t ncclAllGather(const void*, void*, size_t, ncclDataType_t, ncclComm_t, cudaStream_t);
ncclResult_t ncclReduceScatter(const void*, void*, size_t recvcount, ncclDataType_t, ncclRedOp_t, ncclComm_t, cudaStream_t);
ncclResult_t ncclSend(const void*, size_t, ncclDataType_t, int peer, ncclComm_t, cudaStream_t);
ncclResult_t ncclRecv(void*, size_t, ncclDataType_t, int peer, ncclComm_t, cudaStream_t);
}
