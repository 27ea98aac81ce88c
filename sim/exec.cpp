// Executes a plan: every job's processes run their programs against a fresh copy of the library each.
#include "sim.h"
#include <sys/mman.h>
#include <algorithm>
#include <cmath>
#include <iostream>

double cost_of(const string &salt, const string &region, const vector<float> &f, int policy)
{
  u64 h = hash_of(hash_str(salt), hash_str(region), policy);
  for (float x : f) { unsigned b; memcpy(&b, &x, 4); h = hcomb(h, b); }
  return 1e-4 + u01(h) * 0.1;
}
static OpRec &rec() { return W->h.ops[W->cur->curidx]; }
static ExecRec &ex(int i) { return W->h.execs[i]; }
#define CALL(...) do { g_innode = true; __VA_ARGS__; g_innode = false; } while (0)

static void ds_cb(void *out, const float *f, int n, int policy, double metric)
{
  NodeScope s(false);
  (*(DS *)out)[DKey(vector<float>(f, f + n), policy)] = metric;
}
static map<std::pair<Node *, int>, PDS> lastds;
static void snapshot()
{
  Node *n = W->cur;
  for (auto &r : n->regs) {
    RegSnap s;
    int t; CALL(t = n->api->trainable(r.second.h));
    s.trainable = t;
    auto d = std::make_shared<DS>();
    CALL(n->api->dataset(r.second.h, d.get(), ds_cb));
    auto &l = lastds[{n, r.first}];
    if (l && *l == *d) s.ds = l; else s.ds = l = d;
    rec().regs[r.first] = s;
  }
  if (W->o.snap_files) rec().files = std::make_shared<Files>(vfs_snapshot());
}
static void op_begin(const Op &o)
{
  Node *n = W->cur;
  OpRec r; r.job = n->job; r.rank = n->rank; r.op = o.id; r.kind = o.kind; r.a = o.a; r.started = true; r.t0 = W->now;
  W->h.ops.push_back(r);
  n->curidx = (int)W->h.ops.size() - 1;
  n->opid = o.id; n->seamk = 0; n->randk = 0; n->polls_call = 0; n->cerr_buf.clear();
  hash_event(0x0b, o.id);
}
static void op_end()
{
  Node *n = W->cur;
  OpRec &r = rec();
  r.heap = n->heap; r.objs = n->objs; r.events = n->events; r.libs = (int)n->dl.size(); for (auto &f : W->vfs) { size_t l = f.first.size(); if (f.first.find("step-") == string::npos || l < 5 || (f.first.compare(l - 5, 5, ".yaml") && f.first.compare(l - 4, 4, ".txt"))) r.nfiles++; }   // every training step may have files of its own for (auto &f : W->fds) if (f.second.owner == n) r.nfds++;
  r.t1 = W->now; r.seams = n->seamk; r.finished = true; r.err = n->cerr_buf;
  for (auto &s : r.out) hash_event(hash_str(s));
}
static void account(int e, double lo, double hi)
{
  ExecRec &x = ex(e);
  x.lo = lo; x.hi = hi;
  if (x.done_ix < 0) { x.done_ix = W->cur->curidx; rec().completed.push_back(e); }
}
static bool dep_open(const RegionS &r) { if (r.open_sync < 0) return false; const string &k = ex(r.open_sync).kind; return k == "d" || k == "C"; }

static int do_begin(int slot, int ctx, const string &kind, const vector<float> *pre)
{
  Node *n = W->cur;
  auto ri = n->regs.find(slot);
  if (ri == n->regs.end() || n->ctx.count(ctx)) return -1;
  RegionS &r = ri->second;
  bool async = kind == "c" || kind == "h";
  if (dep_open(r)) return -1;
  if (!async && r.open_sync >= 0) return -1;
  // the deprecated calls know one current execution: another one's completion must not come between its begin and its end
  if ((kind == "d" || kind == "C") && rec().kind != "x" && rec().kind != "X")
    for (auto &x : W->h.execs) if (x.job == n->job && x.rank == n->rank && x.slot == slot && x.async && x.done_ix < 0) return -1;
  ExecRec x; x.id = (int)W->h.execs.size(); x.job = n->job; x.rank = n->rank; x.slot = slot; x.kind = kind;
  x.begin_op = n->opid; x.begin_ix = n->curidx; x.idx = r.begun++; x.async = async;
  x.b0 = W->now;
  W->h.execs.push_back(x);
  int e = x.id;
  n->dev_exec = e; n->dev_stop = false;
  void *c = nullptr;
  if (kind == "s" || kind == "d") CALL(c = n->api->begin(r.h));
  else if (kind == "S") CALL(c = n->api->begin_kind(r.h, 0));
  else if (kind == "c") CALL(c = n->api->begin_kind(r.h, 1));
  else if (kind == "h") CALL(c = n->api->begin_kind(r.h, 2));
  else if (kind == "v") { CALL(c = n->api->begin_features(r.h, pre->data(), (int)pre->size())); ex(e).features = *pre; }
  else if (kind == "C") { CALL(n->api->c_begin(r.h)); c = (void *)-1; }
  ex(e).b1 = W->now;
  if (!async) { r.open_sync = e; if (n->utimer.count(r.h)) ex(e).user_timer = true; }
  n->ctx[ctx] = e; n->ctxh[ctx] = c;
  rec().slot = slot; rec().exec = e;
  return e;
}
static ExecRec *open_ctx(int ctx)
{
  Node *n = W->cur;
  auto i = n->ctx.find(ctx);
  if (i == n->ctx.end()) return nullptr;
  rec().exec = i->second; rec().slot = ex(i->second).slot;
  return &ex(i->second);
}
static void do_feature(int ctx, float v)
{
  Node *n = W->cur; int e = n->ctx[ctx]; void *h = n->regs[ex(e).slot].h;
  if (ex(e).kind == "d") CALL(n->api->dep_set_feature(h, v));
  else if (ex(e).kind == "C") CALL(n->api->c_set_feature(h, v));
  else CALL(n->api->set_feature(h, n->ctxh[ctx], v));
  ex(e).features.push_back(v);
}
static int do_policy(int ctx)
{
  Node *n = W->cur; int e = n->ctx[ctx]; void *h = n->regs[ex(e).slot].h; int p;
  if (ex(e).kind == "d") CALL(p = n->api->dep_policy(h));
  else if (ex(e).kind == "C") CALL(p = n->api->c_policy(h));
  else CALL(p = n->api->policy(h, n->ctxh[ctx]));
  ex(e).policy = p; ex(e).requests++;
  rec().out.push_back(std::to_string(p));
  return p;
}
static bool can_end(int ctx)
{
  Node *n = W->cur; auto i = n->ctx.find(ctx); if (i == n->ctx.end()) return false;
  ExecRec &x = ex(i->second);
  if (!x.requests || (int)x.features.size() != n->regs[x.slot].nf) return false;  // an application always asks
  RegionS &r = n->regs[x.slot];
  if (dep_open(r) && r.open_sync != i->second) return false;
  return true;
}
static void close_ctx(int ctx)
{
  Node *n = W->cur; int e = n->ctx[ctx];
  RegionS &r = n->regs[ex(e).slot];
  if (r.open_sync == e) r.open_sync = -1;
  n->ctx.erase(ctx); n->ctxh.erase(ctx);
}
static void do_end(int ctx)
{
  Node *n = W->cur; int e = n->ctx[ctx]; void *h = n->regs[ex(e).slot].h; void *c = n->ctxh[ctx];
  ex(e).ended = true; ex(e).end_op = n->opid; ex(e).end_ix = n->curidx; ex(e).e0 = W->now;
  n->dev_exec = e; n->dev_stop = true;
  bool plain = !ex(e).async && !ex(e).user_timer;
  if (plain) account(e, 0, 0);
  else { ex(e).lo = ex(e).hi = ex(e).metric; }
  if (ex(e).async && !ex(e).user_timer) { double m = (double)(float)(ex(e).metric * 1000.0) / 1000.0; ex(e).lo = m * (1 - 1e-6) - 1e-12; ex(e).hi = m * (1 + 1e-6) + 1e-12; }
  string k = ex(e).kind;
  close_ctx(ctx);
  if (k == "d") CALL(n->api->dep_end(h));
  else if (k == "C") CALL(n->api->c_end(h));
  else CALL(n->api->end(h, c));
  ex(e).e1 = W->now;
  if (plain) {
    ExecRec &x = ex(e);
    double tol = 1e-9 + 4e-16 * (W->plan->kn("uptime", 12345.678) + W->now * 1e-9);
    x.lo = std::max(0.0, (x.e0 - x.b1) * 1e-9 - tol); x.hi = (x.e1 - x.b0) * 1e-9 + tol;
  }
}
static void do_end_metric(int ctx, double m)
{
  Node *n = W->cur; int e = n->ctx[ctx]; void *h = n->regs[ex(e).slot].h; void *c = n->ctxh[ctx];
  ex(e).ended = true; ex(e).end_op = n->opid; ex(e).end_ix = n->curidx; ex(e).supplied = true; ex(e).metric = m; ex(e).e0 = W->now;
  n->dev_exec = e; n->dev_stop = true;
  account(e, m, m);
  string k = ex(e).kind;
  close_ctx(ctx);
  if (k == "d") CALL(n->api->dep_end_metric(h, m));
  else CALL(n->api->end_metric(h, c, m));
  ex(e).e1 = W->now;
}
static double metric_arg(const string &s, int e)
{
  if (s.compare(0, 2, "c:") == 0) return cost_of(s.substr(2), W->cur->regs[ex(e).slot].name, ex(e).features, ex(e).policy);
  if (s.compare(0, 2, "r:") == 0) {  // cost independent of the region
    return cost_of(s.substr(2), "", ex(e).features, ex(e).policy);
  }
  if (s.compare(0, 2, "n:") == 0) {  // costs that differ in the last digits only
    u64 z = hash_of(hash_str(s), hash_str(W->cur->regs[ex(e).slot].name), ex(e).policy, ex(e).features.empty() ? 0 : (u64)(i64)ex(e).features[0]);
    return 0.001 * (1 + (double)(z % 3)) * (1 + (double)(z / 3 % 5) * (z >> 40 & 1 ? 1e-10 : 1e-13));
  }
  if (s.compare(0, 2, "k:") == 0) {  // well separated: no two policies of a region are close for the same features
    u64 z = hash_of(hash_str(s), hash_str(W->cur->regs[ex(e).slot].name)); for (float x : ex(e).features) { unsigned b; memcpy(&b, &x, 4); z = hcomb(z, b); }
    return 1e-4 * (1 + (z % 997 + ex(e).policy) % 997);
  }
  if (s.compare(0, 2, "g:") == 0) {  // coarse costs: equal ones occur
    return 0.001 * (1 + hash_of(hash_str(s), ex(e).policy, hash_str(W->cur->regs[ex(e).slot].name), ex(e).features.empty() ? 0 : (u64)(i64)ex(e).features[0]) % 4);
  }
  return parsed(s);
}
void app_wait(i64 ns)
{
  if (ns <= 0) return;
  W->cur->wake = W->now + ns;
  node_switch_out();
}
static int ia(const Op &o, size_t i, int d = 0) { return i < o.a.size() ? atoi(o.a[i].c_str()) : d; }
static string sa(const Op &o, size_t i) { return i < o.a.size() ? o.a[i] : ""; }
static vector<float> fa(const Op &o, size_t i) { vector<float> v; for (; i < o.a.size(); i++) v.push_back((float)parsed(o.a[i])); return v; }

struct AuxIt { const DS *d; DS::const_iterator i; };
static int aux_next(void *p, const float **f, int *n, int *pol, double *m)
{
  auto *a = (AuxIt *)p;
  if (a->i == a->d->end()) return 0;
  *f = a->i->first.first.data(); *n = (int)a->i->first.first.size(); *pol = a->i->first.second; *m = a->i->second;
  ++a->i;
  return 1;
}
static map<std::pair<Node *, size_t>, int> ktype;

static void run_op(const Op &o)
{
  Node *n = W->cur;
  const NodeApi *A = n->api;
  auto skip = [&] { rec().skipped = true; };
  const string &k = o.kind;
  if (k == "reg") {  // slot name nf np min info yaml capi
    int slot = ia(o, 0);
    if (n->regs.count(slot)) return skip();
    string name = sa(o, 1); for (auto &r : n->regs) if (r.second.name == name) return skip();
    RegInfo ri{n->job, n->rank, slot, name, sa(o, 5), ia(o, 2), ia(o, 3), ia(o, 4), n->curidx};
    rec().slot = slot;
    void *h;
    if (ia(o, 7)) CALL(h = A->region_new_c(ri.nf, name.c_str(), ri.np, ri.min, ri.info.c_str()));
    else CALL(h = A->region_new(ri.nf, name.c_str(), ri.np, ri.min, ri.info.c_str(), o.a.size() > 6 ? o.a[6].c_str() : ""));
    RegionS r; r.slot = slot; r.h = h; r.name = name; r.nf = ri.nf; r.np = ri.np;
    n->regs[slot] = r;
    W->h.regs.push_back(ri);
  } else if (k == "b") {
    vector<float> f = fa(o, 3);
    if (sa(o, 2) == "v" && n->regs.count(ia(o, 0)) && (int)f.size() != n->regs[ia(o, 0)].nf) return skip();
    if (do_begin(ia(o, 0), ia(o, 1), sa(o, 2), &f) < 0) return skip();
  } else if (k == "u") {
    ExecRec *x = open_ctx(ia(o, 0));
    if (!x || x->kind == "C") return skip();
    void *h = n->regs[x->slot].h;
    UTimer *t = new UTimer(); t->n = n; t->exec = x->id;
    x->user_timer = true;
    n->dev_exec = x->id; n->dev_stop = false;
    if (!x->async) n->utimer[h] = t;
    CALL(A->set_timer(n->ctxh[ia(o, 0)], t));
  } else if (k == "f") {
    ExecRec *x = open_ctx(ia(o, 0));
    if (!x) return skip();
    int left = n->regs[x->slot].nf - (int)x->features.size();
    for (float v : fa(o, 1)) if (left-- > 0) do_feature(ia(o, 0), v);
  } else if (k == "p") {
    ExecRec *x = open_ctx(ia(o, 0));
    if (!x || (int)x->features.size() != n->regs[x->slot].nf) return skip();
    do_policy(ia(o, 0));
  } else if (k == "w") {
    app_wait((i64)parsed(sa(o, 0)));
  } else if (k == "e") {  // ctx elapsed ready_op ready_polls
    ExecRec *x = open_ctx(ia(o, 0));
    if (!x || !can_end(ia(o, 0))) return skip();
    x->metric = parsed(sa(o, 1)); x->ready_op = ia(o, 2); x->ready_polls = ia(o, 3);
    do_end(ia(o, 0));
  } else if (k == "m") {
    ExecRec *x = open_ctx(ia(o, 0));
    if (!x || !can_end(ia(o, 0)) || x->kind == "C") return skip();
    do_end_metric(ia(o, 0), metric_arg(sa(o, 1), x->id));
  } else if (k == "xn") {  // slot count metric f... : that many executions in a row, of which only the answers are kept
    auto ri = n->regs.find(ia(o, 0)); vector<float> f = fa(o, 3);
    if (ri == n->regs.end() || ri->second.open_sync >= 0 || (int)f.size() != ri->second.nf) return skip();
    rec().slot = ia(o, 0); void *h = ri->second.h, *c = nullptr; double m = parsed(sa(o, 2)); int q = 0;
    for (int i = ia(o, 1); i > 0; i--) {
      n->polls_call = 0; CALL(c = n->api->begin(h)); for (float v : f) CALL(n->api->set_feature(h, c, v));
      CALL(q = n->api->policy(h, c)); rec().out.push_back(std::to_string(q)); CALL(n->api->end_metric(h, c, m));
      ri->second.begun++;
    }
  } else if (k == "x" || k == "X" || k == "y") {
    // x slot kind nreq metric f... : complete execution, metric supplied
    // X slot kind nreq work f...   : complete synchronous execution taking `work`
    // y slot kind nreq elapsed ready_op ready_polls f... : complete asynchronous execution
    int slot = ia(o, 0), ctx = -1000000 - o.id; string kind = sa(o, 1);
    size_t f0 = k == "y" ? 6 : 4;
    vector<float> f = fa(o, f0);
    if (!n->regs.count(slot) || (int)f.size() != n->regs[slot].nf) return skip();
    int e = do_begin(slot, ctx, kind, &f);
    if (e < 0) return skip();
    if (kind != "v") for (float v : f) do_feature(ctx, v);
    for (int i = 0; i < std::max(1, ia(o, 2)); i++) do_policy(ctx);
    if (k == "x") { if (kind == "C") { do_end(ctx); } else do_end_metric(ctx, metric_arg(sa(o, 3), e)); }
    else if (k == "X") { double m = metric_arg(sa(o, 3), e); if (ex(e).user_timer) ex(e).metric = m; else app_wait((i64)(m * 1e9)); do_end(ctx); }
    else { ex(e).metric = metric_arg(sa(o, 3), e); ex(e).ready_op = ia(o, 4); ex(e).ready_polls = ia(o, 5); do_end(ctx); }
  } else if (k == "t") {
    CALL(A->train(ia(o, 0)));
  } else if (k == "fl") {
    CALL(A->flush(ia(o, 0)));
  } else if (k == "r") {  // slot step collect force capi
    if (!n->regs.count(ia(o, 0))) return skip();
    rec().slot = ia(o, 0);
    if (ia(o, 4)) CALL(A->c_train(n->regs[ia(o, 0)].h, ia(o, 1)));
    else CALL(A->region_train(n->regs[ia(o, 0)].h, ia(o, 1), ia(o, 2), ia(o, 3)));
  } else if (k == "q") {  // slot count f...
    int slot = ia(o, 0);
    if (!n->regs.count(slot)) return skip();
    rec().slot = slot;
    vector<float> f = fa(o, 2);
    if ((int)f.size() != n->regs[slot].nf) return skip();
    for (int i = 0; i < ia(o, 1); i++) { int p; CALL(p = A->model_index(n->regs[slot].h, f.data(), (int)f.size())); rec().out.push_back(std::to_string(p)); }
  } else if (k == "st") {
    if (!n->regs.count(ia(o, 0))) return skip();
    CALL(A->model_store(n->regs[ia(o, 0)].h, sa(o, 1).c_str()));
  } else if (k == "R") { n->rand_op = ia(o, 0, -1);
  } else if (k == "mk") { vfs_put(vpath(sa(o, 0)), sa(o, 1));
  } else if (k == "rmf") { W->vfs.erase(vpath(sa(o, 0)));
  } else if (k == "cut") { PInode f = vfs_get(vpath(sa(o, 0))); if (!f || f->dir) return skip(); size_t l = (size_t)parsed(sa(o, 1)); if (l >= f->data.size()) return skip(); auto g = std::make_shared<Inode>(*f); g->data.resize(l); g->snap = nullptr; W->vfs[vpath(sa(o, 0))] = g; note("fault.truncated_file"); rec().out.push_back("cut");
  } else if (k == "fn") { void *m; CALL(m = A->fm_new(sa(o, 1).c_str(), ia(o, 2), ia(o, 3), sa(o, 4).c_str())); n->fm[ia(o, 0)] = m;
  } else if (k == "fp") { void *m; CALL(m = A->fm_path(sa(o, 1).c_str(), ia(o, 2), sa(o, 3).c_str())); n->fm[ia(o, 0)] = m;
  } else if (k == "ft") {
    if (!n->fm.count(ia(o, 0)) || ia(o, 1) >= (int)W->o.aux.size()) return skip();
    AuxIt it; it.d = &W->o.aux[ia(o, 1)]; it.i = it.d->begin();
    CALL(A->fm_train(n->fm[ia(o, 0)], &it, aux_next));
  } else if (k == "fq") { if (!n->fm.count(ia(o, 0))) return skip(); vector<float> f = fa(o, 2); for (int i = 0; i < ia(o, 1); i++) { int p; CALL(p = A->fm_index(n->fm[ia(o, 0)], f.data(), (int)f.size())); rec().out.push_back(std::to_string(p)); }
  } else if (k == "fs") { if (!n->fm.count(ia(o, 0))) return skip(); CALL(A->fm_store(n->fm[ia(o, 0)], sa(o, 1).c_str()));
  } else if (k == "fo") { if (!n->fm.count(ia(o, 0))) return skip(); CALL(A->fm_load(n->fm[ia(o, 0)], sa(o, 1).c_str()));
  } else if (k == "ff") { if (!n->fm.count(ia(o, 0))) return skip(); CALL(A->fm_free(n->fm[ia(o, 0)])); n->fm.erase(ia(o, 0));
  } else if (k == "ki") { CALL(A->k_init());
  } else if (k == "kf") { CALL(A->k_finalize());
  } else if (k == "ka") { vector<char *> v; for (auto &s : o.a) v.push_back(const_cast<char *>(s.c_str())); CALL(A->k_args((int)v.size(), v.data()));
  } else if (k == "kd") {  // out name id type cat quantity n v... | lower upper step ol ou
    size_t id = ia(o, 2); int type = ia(o, 3), qu = ia(o, 5);
    if (ktype.count({n, id})) return skip();
    vector<double> dv; vector<int64_t> iv; vector<const char *> sv; double dr[3] = {0, 0, 0}; int64_t ir[3] = {0, 0, 0}; int ol = 0, ou = 0, cnt = 0;
    if (qu == 0) { cnt = ia(o, 6); for (int i = 0; i < cnt; i++) { dv.push_back(parsed(sa(o, 7 + i))); iv.push_back(atoll(sa(o, 7 + i).c_str())); sv.push_back(o.a[7 + i].c_str()); } }
    else if (qu == 1) { for (int i = 0; i < 3; i++) { dr[i] = parsed(sa(o, 6 + i)); ir[i] = atoll(sa(o, 6 + i).c_str()); } ol = ia(o, 9); ou = ia(o, 10); }
    ktype[{n, id}] = type;
    CALL(A->k_declare(ia(o, 0), sa(o, 1).c_str(), id, type, ia(o, 4), qu, cnt, dv.data(), iv.data(), sv.data(), dr, ir, ol, ou));
  } else if (k == "kr") {  // ctx nin (id val)... nout id...
    int nin = ia(o, 1); size_t p = 2; vector<size_t> iid, oid; vector<double> ind; vector<int64_t> ini; vector<const char *> ins;
    for (int i = 0; i < nin; i++, p += 2) { iid.push_back(ia(o, p)); if (!ktype.count({n, iid.back()})) return skip(); ind.push_back(parsed(sa(o, p + 1))); ini.push_back(atoll(sa(o, p + 1).c_str())); ins.push_back(o.a[p + 1].c_str()); }
    int nout = ia(o, p++);
    for (int i = 0; i < nout; i++) { oid.push_back(ia(o, p++)); if (!ktype.count({n, oid.back()})) return skip(); }
    vector<double> od(nout + 1); vector<int64_t> oi(nout + 1); auto *os = new char[nout + 1][64]();
    CALL(A->k_request(atoll(sa(o, 0).c_str()), nin, iid.data(), ind.data(), ini.data(), ins.data(), nout, oid.data(), od.data(), oi.data(), os));
    for (int i = 0; i < nout; i++) { int t = ktype[{n, oid[i]}]; rec().out.push_back(t == 0 ? hexd(od[i]) : t == 1 ? std::to_string(oi[i]) : string(os[i])); }
    delete[] os;
  } else if (k == "kt") { CALL(A->k_tool());
  } else if (k == "kb") {  // id kind dev work name
    if (n->kern.count(ia(o, 0))) return skip();
    uint32_t dev = (uint32_t)ia(o, 2); u64 id; n->fences = 0;
    CALL(id = A->k_kernel_begin(ia(o, 1), sa(o, 4).c_str(), dev));
    n->kern[ia(o, 0)] = {ia(o, 1), id};
    rec().out = {std::to_string(n->fences), std::to_string(std::max<i64>(0, n->busy[dev] - W->now))};
    n->busy[dev] = std::max(n->busy[dev], W->now) + (i64)parsed(sa(o, 3));
  } else if (k == "kx") {  // id dev
    auto i = n->kern.find(ia(o, 0)); if (i == n->kern.end()) return skip();
    auto q = i->second; n->kern.erase(i); n->fences = 0;
    CALL(A->k_kernel_end(q.first, q.second));
    rec().out = {std::to_string(n->fences), std::to_string(std::max<i64>(0, n->busy[ia(o, 1)] - W->now))};
  } else if (k == "ke") { CALL(A->k_end(atoll(sa(o, 0).c_str())));
  } else return skip();
}
static void node_main()
{
  Node *n = W->cur;
  op_begin(Op{OP_INIT, "init", {}});
  if (n->spec->variant != "kk") CALL(n->api->init());
  snapshot(); op_end();
  for (auto &o : n->spec->prog[n->rank]) {
    n = W->cur;
    op_begin(o);
    run_op(o);
    snapshot();
    op_end();
    if (o.kind != "R") n->rand_op = -1;
  }
  op_begin(Op{OP_EXIT, "exit", {}});
  n->shutting = true; n->dev_exec = -1;
  for (auto &c : n->ctx) if (!ex(c.second).async && !n->regs.empty()) note("probe.open_at_exit");
  CALL(n->api->finalize());
  if (W->o.snap_files) rec().files = std::make_shared<Files>(vfs_snapshot());
  op_end();
  n->st = Node::DEAD; n->death = D_EXIT;
  hash_event(0xe817);
  setcontext(&W->main_uc);
}
Hist execute(const Plan &p, const RunOpts &o)
{
  World *w = new World();
  World *prev = W;
  W = w;
  w->plan = &p; w->o = o; w->maxsteps = (u64)p.kn("maxsteps", 3000000);
  if (o.init) for (auto &f : *o.init) { auto n = std::make_shared<Inode>(*f.second); w->vfs[f.first] = n; }
  vfs_mkdirs("/work"); vfs_mkdirs("/tmp"); vfs_mkdirs("/scratch"); set_outdir(p.tx("odir"));
  ktype.clear(); lastds.clear();
  for (size_t j = 0; j < p.jobs.size() && (o.only_jobs < 0 || (int)j < o.only_jobs); j++) {
    const Job &b = p.jobs[j];
    w->nodes.clear();
    w->colls.clear();
    for (size_t r = 0; r < b.prog.size(); r++) {
      Node *n = new Node();
      n->job = (int)j; n->rank = (int)r; n->spec = &b; n->api = new_image(b.variant);
      n->pid = b.pid_base + (b.same_pid ? 0 : (int)r);
      n->mpi_n = b.mpi ? (int)b.prog.size() : 1;
      for (auto &e : b.env) { size_t q = e.find('='); if (q != string::npos) n->env[e.substr(0, q)] = e.substr(q + 1); }
      if (!p.tx("odir").empty()) n->env["APOLLO_OUTPUT_DIR"] = p.tx("odir");
      n->wake = w->now + (r < b.start.size() ? b.start[r] : 0);
      const size_t SS = 1 << 20;
      n->stack = (char *)mmap(nullptr, SS, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
      getcontext(&n->uc);
      n->uc.uc_stack.ss_sp = n->stack; n->uc.uc_stack.ss_size = SS; n->uc.uc_link = nullptr;
      makecontext(&n->uc, (void (*)())node_main, 0);
      w->nodes.push_back(n);
    }
    run_nodes();
    bool blocked = false, died = false;
    for (Node *n : w->nodes) {
      NodeEnd e; e.job = n->job; e.rank = n->rank; e.death = n->death; e.why = n->why; e.op = n->opid;
      if (n->st == Node::BLOCKED) { blocked = true; e.why = "blocked"; }
      if (n->death != D_EXIT && n->death != D_ALIVE) { died = true; if (n->curidx >= 0) { w->h.ops[n->curidx].err = n->cerr_buf; w->h.ops[n->curidx].seams = n->seamk; } }
      if (n->curidx >= 0) { const string &s = n->cerr_buf; size_t q = s.rfind("total region executions: "); if (q != string::npos) e.total = atoll(s.c_str() + q + 25); }
      w->h.ends.push_back(e);
      if (n->death == D_KILLED) w->h.count["node.killed"]++;
      if (n->death == D_ABORT) w->h.count["node.aborted"]++;
    }
    if (blocked && !died) w->h.deadlock = true;
    w->h.files_job.push_back(vfs_snapshot());
    w->fds.clear();
    if (w->stop) break;
    w->now += 1000000;
  }
  w->h.vtime = w->now;
  for (auto &f : vfs_snapshot()) hash_event(hash_str(f.first), hash_str(*f.second));
  if (o.out_vfs) *o.out_vfs = w->vfs;
  Hist h = std::move(w->h);
  W = prev;
  return h;
}
void RunResult::add(const Hist &h, bool main)
{
  hash = hcomb(hash, h.hash); sched = hcomb(sched, h.sched_hash); steps += h.steps; switches += h.switches; nops += h.ops.size(); nexec += h.execs.size(); vtime += h.vtime; worlds++;
  for (auto &c : h.count) count[c.first] += c.second;
  if (main) { fired = h.fired; lat = h.lat; }
}
