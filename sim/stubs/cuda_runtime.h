/* Stub device runtime: implemented by the simulator (see core_dev.cpp). */
#ifndef APSIM_cuda_H
#define APSIM_cuda_H
#ifdef __cplusplus
extern "C" {
#endif
typedef enum { cudaSuccess = 0, cudaErrorInvalidValue = 1, cudaErrorInvalidResourceHandle = 400, cudaErrorNotReady = 600, cudaErrorUnknown = 999 } cudaError_t;
typedef struct apsim_cuda_event *cudaEvent_t;
typedef struct apsim_cuda_stream *cudaStream_t;
#define cudaEventDefault 0
#define cudaEventBlockingSync 1
#define cudaEventDisableTiming 2
cudaError_t cudaEventCreate(cudaEvent_t *);
cudaError_t cudaEventCreateWithFlags(cudaEvent_t *, unsigned);
cudaError_t cudaEventDestroy(cudaEvent_t);
cudaError_t cudaEventRecord(cudaEvent_t, cudaStream_t);
cudaError_t cudaEventQuery(cudaEvent_t);
cudaError_t cudaEventSynchronize(cudaEvent_t);
cudaError_t cudaEventElapsedTime(float *, cudaEvent_t, cudaEvent_t);
cudaError_t cudaStreamSynchronize(cudaStream_t);
cudaError_t cudaStreamQuery(cudaStream_t);
cudaError_t cudaDeviceSynchronize(void);
cudaError_t cudaGetLastError(void);
cudaError_t cudaPeekAtLastError(void);
const char *cudaGetErrorString(cudaError_t);
const char *cudaGetErrorName(cudaError_t);
#ifdef __cplusplus
}
#endif
#endif
