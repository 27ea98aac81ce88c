/* Stub device runtime: implemented by the simulator (see core_dev.cpp). */
#ifndef APSIM_hip_H
#define APSIM_hip_H
#ifdef __cplusplus
extern "C" {
#endif
typedef enum { hipSuccess = 0, hipErrorInvalidValue = 1, hipErrorInvalidResourceHandle = 400, hipErrorNotReady = 600, hipErrorUnknown = 999 } hipError_t;
typedef struct apsim_hip_event *hipEvent_t;
typedef struct apsim_hip_stream *hipStream_t;
#define hipEventDefault 0
#define hipEventBlockingSync 1
#define hipEventDisableTiming 2
hipError_t hipEventCreate(hipEvent_t *);
hipError_t hipEventCreateWithFlags(hipEvent_t *, unsigned);
hipError_t hipEventDestroy(hipEvent_t);
hipError_t hipEventRecord(hipEvent_t, hipStream_t);
hipError_t hipEventQuery(hipEvent_t);
hipError_t hipEventSynchronize(hipEvent_t);
hipError_t hipEventElapsedTime(float *, hipEvent_t, hipEvent_t);
hipError_t hipStreamSynchronize(hipStream_t);
hipError_t hipStreamQuery(hipStream_t);
hipError_t hipDeviceSynchronize(void);
hipError_t hipGetLastError(void);
hipError_t hipPeekAtLastError(void);
const char *hipGetErrorString(hipError_t);
const char *hipGetErrorName(hipError_t);
#ifdef __cplusplus
}
#endif
#endif
