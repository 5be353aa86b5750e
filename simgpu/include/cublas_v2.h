#pragma once
#include "cuda_fp16.h"
typedef enum {
  CUBLAS_STATUS_SUCCESS = 0, CUBLAS_STATUS_NOT_INITIALIZED = 1, CUBLAS_STATUS_ALLOC_FAILED = 3, CUBLAS_STATUS_INVALID_VALUE = 7,
  CUBLAS_STATUS_ARCH_MISMATCH = 8, CUBLAS_STATUS_MAPPING_ERROR = 11, CUBLAS_STATUS_EXECUTION_FAILED = 13,
  CUBLAS_STATUS_INTERNAL_ERROR = 14, CUBLAS_STATUS_NOT_SUPPORTED = 15, CUBLAS_STATUS_LICENSE_ERROR = 16
} cublasStatus_t;
typedef struct cublasContext* cublasHandle_t;
typedef enum { CUBLAS_OP_N = 0, CUBLAS_OP_T = 1, CUBLAS_OP_C = 2 } cublasOperation_t;
typedef enum { CUBLAS_DEFAULT_MATH = 0, CUBLAS_TENSOR_OP_MATH = 1, CUBLAS_PEDANTIC_MATH = 2, CUBLAS_TF32_TENSOR_OP_MATH = 3 } cublasMath_t;
typedef enum { CUDA_R_32F = 0, CUDA_R_16F = 2, CUDA_R_16BF = 14 } cudaDataType_t;
typedef enum { CUBLAS_GEMM_DEFAULT = -1, CUBLAS_GEMM_DEFAULT_TENSOR_OP = 99 } cublasGemmAlgo_t;
extern "C" {
cublasStatus_t cublasCreate(cublasHandle_t*);
cublasStatus_t cublasDestroy(cublasHandle_t);
cublasStatus_t cublasSetStream(cublasHandle_t, cudaStream_t);
cublasStatus_t cublasSetMathMode(cublasHandle_t, cublasMath_t);
cublasStatus_t cublasSgemm(cublasHandle_t, cublasOperation_t, cublasOperation_t, int m, int n, int k, const float* alpha, const float* A, int lda,
                           const float* B, int ldb, const float* beta, float* C, int ldc);
cublasStatus_t cublasGemmEx(cublasHandle_t, cublasOperation_t, cublasOperation_t, int m, int n, int k, const void* alpha, const void* A,
                            cudaDataType_t, int lda, const void* B, cudaDataType_t, int ldb, const void* beta, void* C, cudaDataType_t, int ldc,
                            cudaDataType_t, cublasGemmAlgo_t);
cublasStatus_t cublasSgemmStridedBatched(cublasHandle_t, cublasOperation_t, cublasOperation_t, int m, int n, int k, const float* alpha,
                                         const float* A, int lda, long long sa, const float* B, int ldb, long long sb, const float* beta, float* C,
                                         int ldc, long long sc, int batch);
cublasStatus_t cublasGemmStridedBatchedEx(cublasHandle_t, cublasOperation_t, cublasOperation_t, int m, int n, int k, const void* alpha,
                                          const void* A, cudaDataType_t, int lda, long long sa, const void* B, cudaDataType_t, int ldb,
                                          long long sb, const void* beta, void* C, cudaDataType_t, int ldc, long long sc, int batch,
                                          cudaDataType_t, cublasGemmAlgo_t);
cublasStatus_t cublasSgemmBatched(cublasHandle_t, cublasOperation_t, cublasOperation_t, int m, int n, int k, const float* alpha,
                                  const float* const A[], int lda, const float* const B[], int ldb, const float* beta, float* const C[], int ldc,
                                  int batch);
cublasStatus_t cublasGemmBatchedEx(cublasHandle_t, cublasOperation_t, cublasOperation_t, int m, int n, int k, const void* alpha,
                                   const void* const A[], cudaDataType_t, int lda, const void* const B[], cudaDataType_t, int ldb,
                                   const void* beta, void* const C[], cudaDataType_t, int ldc, int batch, cudaDataType_t, cublasGemmAlgo_t);
}
