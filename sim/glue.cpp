// Compiled into every node image together with /repo's sources: exposes Apollo's public API (and
// nothing else) to the simulator. Every entry is noexcept: an exception the library lets escape ends
// the process, as it would end an application.
#include <cstring>
#include <map>
#include <string>
#include <unordered_map>
#include <vector>

#include "apollo/Apollo.h"
#include "apollo/Dataset.h"
#include "apollo/ModelFactory.h"
#include "apollo/PolicyModel.h"
#include "apollo/Region.h"
#include "apollo/Timer.h"
#include "node_api.h"
#include <impl/Kokkos_Profiling_Interface.hpp>

extern "C" void apsim_image_finalize();

namespace KE = Kokkos::Tools::Experimental;
extern "C" {
void kokkosp_parse_args(int argc, char **argv);
void kokkosp_init_library(const int, const uint64_t, const uint32_t, void *);
void kokkosp_finalize_library();
void kokkosp_declare_output_type(const char *, const size_t, KE::VariableInfo *);
void kokkosp_declare_input_type(const char *, const size_t, KE::VariableInfo *);
void kokkosp_request_values(size_t, size_t, KE::VariableValue *, size_t, KE::VariableValue *);
void kokkosp_end_context(size_t);
void kokkosp_provide_tool_programming_interface(uint32_t, KE::ToolProgrammingInterface);
void kokkosp_begin_parallel_for(const char *, const uint32_t, uint64_t *);
void kokkosp_begin_parallel_scan(const char *, const uint32_t, uint64_t *);
void kokkosp_begin_parallel_reduce(const char *, const uint32_t, uint64_t *);
void kokkosp_end_parallel_for(const uint64_t);
void kokkosp_end_parallel_scan(const uint64_t);
void kokkosp_end_parallel_reduce(const uint64_t);
}

namespace {
struct SimTimer : Apollo::Timer {
  void *tag;
  explicit SimTimer(void *t) : tag(t) {}
  void start() override { apsim_timer_start(tag); }
  void stop() override { apsim_timer_stop(tag); }
  bool isDone(double &metric) override { return apsim_timer_done(tag, &metric) != 0; }
};
Apollo::Region *R(void *p) { return static_cast<Apollo::Region *>(p); }
Apollo::RegionContext *C(void *p) { return static_cast<Apollo::RegionContext *>(p); }
apollo::PolicyModel *M(void *p) { return static_cast<apollo::PolicyModel *>(p); }

void g_finalize() noexcept { apsim_image_finalize(); }
void g_init() noexcept { Apollo::instance(); }
void g_rank_size(int *r, int *s) noexcept { *r = Apollo::instance()->mpiRank; *s = Apollo::instance()->mpiSize; }
void g_train(int step) noexcept { Apollo::instance()->train(step); }
void g_flush(int step) noexcept { Apollo::instance()->flushAllRegionMeasurements(step); }
void *g_region_new(int nf, const char *name, int np, int min, const char *info, const char *yaml) noexcept
{ return new Apollo::Region(nf, name, np, min, info, yaml); }
void *g_region_new_c(int nf, const char *name, int np, int min, const char *info) noexcept
{ return __apollo_region_create(nf, name, np, min, info); }
void *g_begin(void *r) noexcept { return R(r)->begin(); }
void *g_begin_kind(void *r, int k) noexcept
{ return R(r)->begin(k == 0 ? Apollo::Region::TIMING_SYNC : k == 1 ? Apollo::Region::TIMING_CUDA_ASYNC : Apollo::Region::TIMING_HIP_ASYNC); }
void *g_begin_features(void *r, const float *f, int n) noexcept { return R(r)->begin(std::vector<float>(f, f + n)); }
void g_set_feature(void *r, void *c, float v) noexcept { R(r)->setFeature(C(c), v); }
int g_policy(void *r, void *c) noexcept { return R(r)->getPolicyIndex(C(c)); }
void g_end(void *r, void *c) noexcept { R(r)->end(C(c)); }
void g_end_metric(void *r, void *c, double m) noexcept { R(r)->end(C(c), m); }
void g_dep_set_feature(void *r, float v) noexcept { R(r)->setFeature(v); }
int g_dep_policy(void *r) noexcept { return R(r)->getPolicyIndex(); }
void g_dep_end(void *r) noexcept { R(r)->end(); }
void g_dep_end_metric(void *r, double m) noexcept { R(r)->end(m); }
void g_c_begin(void *r) noexcept { __apollo_region_begin(R(r)); }
void g_c_set_feature(void *r, float v) noexcept { __apollo_region_set_feature(R(r), v); }
int g_c_policy(void *r) noexcept { return __apollo_region_get_policy(R(r)); }
void g_c_end(void *r) noexcept { __apollo_region_end(R(r)); }
void g_c_train(void *r, int s) noexcept { __apollo_region_train(R(r), s); }
void g_region_train(void *r, int s, int c, int f) noexcept { R(r)->train(s, c != 0, f != 0); }
void g_set_timer(void *c, void *tag) noexcept { C(c)->timer.reset(new SimTimer(tag)); C(c)->timer->start(); }
int g_trainable(void *r) noexcept { return R(r)->model->isTrainable(); }
void g_dataset(void *r, void *out, void (*cb)(void *, const float *, int, int, double)) noexcept
{
  for (auto &t : R(r)->dataset.toVectorOfTuples())
    cb(out, std::get<0>(t).data(), (int)std::get<0>(t).size(), std::get<1>(t), std::get<2>(t));
}
// A question beside the executions: the region is asked with a context of its own, which counts as no execution.
template <class C>
auto ask(Apollo::Region *r, std::vector<float> &v, int) -> decltype(C(), r->getPolicyIndex((C *)nullptr))
{ C c = C(); c.features = v; return r->getPolicyIndex(&c); }
template <class C>
int ask(Apollo::Region *r, std::vector<float> &v, long) { return r->model->getIndex(v); }
int g_model_index(void *r, const float *f, int n) noexcept
{ std::vector<float> v(f, f + n); return ask<Apollo::RegionContext>(R(r), v, 0); }
void g_model_store(void *r, const char *p) noexcept { R(r)->model->store(p); }
void *g_fm_new(const char *name, int nf, int np, const char *params) noexcept
{
  std::unordered_map<std::string, std::string> mp;
  std::string s(params);
  while (!s.empty()) {
    size_t c = s.find(',');
    std::string kv = s.substr(0, c);
    s = c == std::string::npos ? "" : s.substr(c + 1);
    size_t e = kv.find('=');
    if (e == std::string::npos) mp.emplace(kv, ""); else mp.emplace(kv.substr(0, e), kv.substr(e + 1));
  }
  return apollo::ModelFactory::createPolicyModel(name, nf, np, mp).release();
}
void *g_fm_path(const char *name, int np, const char *path) noexcept
{ return apollo::ModelFactory::createPolicyModel(name, np, std::string(path)).release(); }
void g_fm_train(void *m, void *in, int (*next)(void *, const float **, int *, int *, double *)) noexcept
{
  Apollo::Dataset ds;
  const float *f; int n, p; double x;
  while (next(in, &f, &n, &p, &x)) { std::vector<float> v(f, f + n); ds.insert(v, p, x); }
  M(m)->train(ds);
}
int g_fm_index(void *m, const float *f, int n) noexcept { std::vector<float> v(f, f + n); return M(m)->getIndex(v); }
void g_fm_store(void *m, const char *p) noexcept { M(m)->store(p); }
void g_fm_load(void *m, const char *p) noexcept { M(m)->load(p); }
void g_fm_free(void *m) noexcept { delete M(m); }

std::map<size_t, KE::VariableInfo *> kinfo;
void g_k_init() noexcept { kokkosp_init_library(0, 20210225, 0, nullptr); }
void g_k_finalize() noexcept { kokkosp_finalize_library(); }
void g_k_args(int c, char **v) noexcept { kokkosp_parse_args(c, v); }
void g_k_declare(int output, const char *name, size_t id, int type, int category, int quantity, int n,
                 const double *dv, const int64_t *iv, const char *const *sv, const double *dr,
                 const int64_t *ir, int ol, int ou) noexcept
{
  auto *info = new KE::VariableInfo();
  info->type = type == 0 ? kokkos_value_double : type == 1 ? kokkos_value_int64 : kokkos_value_string;
  info->category = (Kokkos_Tools_VariableInfo_StatisticalCategory)category;
  info->valueQuantity = quantity == 0 ? kokkos_value_set : quantity == 1 ? kokkos_value_range : kokkos_value_unbounded;
  if (quantity == 0) {
    info->candidates.set.size = n;
    if (type == 0) { auto *a = new double[n]; std::copy(dv, dv + n, a); info->candidates.set.values.double_value = a; }
    else if (type == 1) { auto *a = new int64_t[n]; std::copy(iv, iv + n, a); info->candidates.set.values.int_value = a; }
    else { auto *a = new Kokkos_Tools_Tuning_String[n]; for (int i = 0; i < n; i++) { memset(a[i], 0, sizeof a[i]); strncpy(a[i], sv[i], 63); } info->candidates.set.values.string_value = a; }
  } else if (quantity == 1) {
    auto &rg = info->candidates.range;
    if (type == 0) { rg.lower.double_value = dr[0]; rg.upper.double_value = dr[1]; rg.step.double_value = dr[2]; }
    else { rg.lower.int_value = ir[0]; rg.upper.int_value = ir[1]; rg.step.int_value = ir[2]; }
    rg.openLower = ol; rg.openUpper = ou;
  }
  kinfo[id] = info;
  if (output) kokkosp_declare_output_type(name, id, info); else kokkosp_declare_input_type(name, id, info);
}
void g_k_request(size_t ctx, int nin, const size_t *inid, const double *ind, const int64_t *ini,
                 const char *const *ins, int nout, const size_t *outid, double *outd, int64_t *outi,
                 char (*outs)[64]) noexcept
{
  std::vector<KE::VariableValue> in(nin + 1), out(nout + 1);
  for (int i = 0; i < nin; i++) {
    in[i].type_id = inid[i]; in[i].metadata = kinfo[inid[i]];
    switch (in[i].metadata->type) {
      case kokkos_value_double: in[i].value.double_value = ind[i]; break;
      case kokkos_value_int64: in[i].value.int_value = ini[i]; break;
      default: memset(in[i].value.string_value, 0, 64); strncpy(in[i].value.string_value, ins[i], 63);
    }
  }
  for (int i = 0; i < nout; i++) { out[i].type_id = outid[i]; out[i].metadata = kinfo[outid[i]]; memset(&out[i].value, 0x5a, sizeof out[i].value); }
  kokkosp_request_values(ctx, nin, in.data(), nout, out.data());
  for (int i = 0; i < nout; i++) {
    switch (kinfo[outid[i]]->type) {
      case kokkos_value_double: outd[i] = out[i].value.double_value; break;
      case kokkos_value_int64: outi[i] = out[i].value.int_value; break;
      default: memcpy(outs[i], out[i].value.string_value, 64); outs[i][63] = 0;
    }
  }
}
void g_k_end(size_t ctx) noexcept { kokkosp_end_context(ctx); }
void fence(const uint32_t dev) { apsim_fence(dev); }
void g_k_tool() noexcept { KE::ToolProgrammingInterface t{}; t.fence = fence; kokkosp_provide_tool_programming_interface(1, t); }
uint64_t g_k_kernel_begin(int kind, const char *name, uint32_t dev) noexcept
{
  uint64_t id = 0;
  (kind == 0 ? kokkosp_begin_parallel_for : kind == 1 ? kokkosp_begin_parallel_scan : kokkosp_begin_parallel_reduce)(name, dev, &id);
  return id;
}
void g_k_kernel_end(int kind, uint64_t id) noexcept { (kind == 0 ? kokkosp_end_parallel_for : kind == 1 ? kokkosp_end_parallel_scan : kokkosp_end_parallel_reduce)(id); }

const NodeApi api = {
    g_finalize, g_init, g_rank_size, g_train, g_flush, g_region_new, g_region_new_c, g_begin, g_begin_kind,
    g_begin_features, g_set_feature, g_policy, g_end, g_end_metric, g_dep_set_feature, g_dep_policy,
    g_dep_end, g_dep_end_metric, g_c_begin, g_c_set_feature, g_c_policy, g_c_end, g_c_train,
    g_region_train, g_set_timer, g_trainable, g_dataset, g_model_index, g_model_store, g_fm_new, g_fm_path,
    g_fm_train, g_fm_index, g_fm_store, g_fm_load, g_fm_free, g_k_init, g_k_finalize, g_k_args,
    g_k_declare, g_k_request, g_k_end, g_k_tool, g_k_kernel_begin, g_k_kernel_end};
}  // namespace

extern "C" __attribute__((visibility("default"))) const NodeApi *apsim_node_api() { return &api; }
