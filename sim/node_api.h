// The C ABI between the simulator and a node image (one copy of Apollo).
#pragma once
#include <cstddef>
#include <cstdint>
struct NodeApi {
  // process
  void (*finalize)();
  void (*init)();  // Apollo::instance()
  void (*rank_size)(int *, int *);
  void (*train)(int step);
  void (*flush)(int step);
  // region; kind: 0 sync, 1 cuda, 2 hip
  void *(*region_new)(int nf, const char *name, int np, int min, const char *info, const char *yaml);
  void *(*region_new_c)(int nf, const char *name, int np, int min, const char *info);
  void *(*begin)(void *r);
  void *(*begin_kind)(void *r, int kind);
  void *(*begin_features)(void *r, const float *f, int n);
  void (*set_feature)(void *r, void *ctx, float v);
  int (*policy)(void *r, void *ctx);
  void (*end)(void *r, void *ctx);
  void (*end_metric)(void *r, void *ctx, double m);
  void (*dep_set_feature)(void *r, float v);
  int (*dep_policy)(void *r);
  void (*dep_end)(void *r);
  void (*dep_end_metric)(void *r, double m);
  void (*c_begin)(void *r);
  void (*c_set_feature)(void *r, float v);
  int (*c_policy)(void *r);
  void (*c_end)(void *r);
  void (*c_train)(void *r, int step);
  void (*region_train)(void *r, int step, int collect, int force);
  void (*set_timer)(void *ctx, void *tag);
  // observation
  int (*trainable)(void *r);
  void (*dataset)(void *r, void *out, void (*cb)(void *out, const float *f, int n, int policy, double metric));
  int (*model_index)(void *r, const float *f, int n);
  void (*model_store)(void *r, const char *path);
  // a model of its own, outside any region
  void *(*fm_new)(const char *name, int nf, int np, const char *params);
  void *(*fm_path)(const char *name, int np, const char *path);
  void (*fm_train)(void *m, void *in, int (*next)(void *in, const float **f, int *n, int *policy, double *metric));
  int (*fm_index)(void *m, const float *f, int n);
  void (*fm_store)(void *m, const char *path);
  void (*fm_load)(void *m, const char *path);
  void (*fm_free)(void *m);
  // Kokkos connector
  void (*k_init)();
  void (*k_finalize)();
  void (*k_args)(int argc, char **argv);
  // type: 0 double, 1 int64, 2 string; quantity: 0 set, 1 range, 2 unbounded
  void (*k_declare)(int output, const char *name, size_t id, int type, int category, int quantity, int n,
                    const double *dv, const int64_t *iv, const char *const *sv, const double *drange,
                    const int64_t *irange, int openLower, int openUpper);
  // values: doubles for type 0, int64 for type 1, string pointers for type 2
  void (*k_request)(size_t ctx, int nin, const size_t *inid, const double *ind, const int64_t *ini,
                    const char *const *ins, int nout, const size_t *outid, double *outd, int64_t *outi,
                    char (*outs)[64]);
  void (*k_end)(size_t ctx);
  void (*k_tool)();
  uint64_t (*k_kernel_begin)(int kind, const char *name, uint32_t dev);   // kind: 0 for, 1 scan, 2 reduce
  void (*k_kernel_end)(int kind, uint64_t id);
};
extern "C" {
// provided by the simulator to the node images
void apsim_timer_start(void *tag);
void apsim_timer_stop(void *tag);
int apsim_timer_done(void *tag, double *metric);
void apsim_fence(uint32_t dev);
}
