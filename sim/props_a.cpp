// Plan building and history reading helpers; properties C01 to C08.
#include "props.h"

// ================================================================ helpers
float feature_value(Rng &r, int style)
{
  switch (style) {
    case ST_INT: return (float)r.range(0, 9);
    case ST_BIGINT: return (float)r.range(0, 3000000);
    case ST_TENTH: return 0.1f * r.range(0, 60);
    case ST_REAL: return (float)(r.uni() * 1000);
    case ST_CLOSE: { float b = r.chance(.5) ? 1.0f : 1000.1f; for (int i = r.range(0, 8); i > 0; i--) b = nextafterf(b, 1e30f); return b; }
    case ST_NEG: return (float)(r.range(-40, 40)) / 4;
    case ST_HUGE: { static const float v[] = {1e30f, 3e38f, -3e38f, 2.5e38f, 1e-30f, 3.4e38f, -3.4e38f, 0, 1.5e38f, 1e10f}; return v[r.below(10)]; }
    default: { static const float v[] = {123456.78f, 1234567.0f, 1234567.5f, 0.1234567f, 3.1415927f, 16777216.0f, 16777215.0f, 1e-7f, 0.3333333f, 99999.99f}; return v[r.below(10)] + (r.chance(.5) ? r.range(0, 3) : 0); }
  }
}
vector<vector<float>> feature_pool(Rng &r, int nf, int n, int style)
{
  std::set<vector<float>> s; vector<vector<float>> v;
  for (int tries = 0; (int)v.size() < n && tries < n * 20; tries++) {
    vector<float> f;
    for (int i = 0; i < nf; i++) f.push_back(feature_value(r, style >= 0 ? style : (int)r.below(ST_N)));
    if (s.insert(f).second) v.push_back(f);
  }
  return v;
}
string model_params(Rng &r, const string &m, bool deep)
{
  string s = m;
  if (m == "DecisionTree" || m == "RandomForest") {
    if (deep) s += ",max_depth=64"; else if (r.chance(.6)) s += ",max_depth=" + S(r.range(0, 5));
    if (m == "RandomForest" && r.chance(.6)) s += ",num_trees=" + S(r.range(1, 12));
    if (r.chance(.4)) s += r.chance(.5) ? ",explore=RoundRobin" : ",explore=Random";
  }
  if (m == "PolicyNet") {
    if (r.chance(.5)) s += ",lr=" + string(r.chance(.5) ? "0.05" : "0.001");
    if (r.chance(.2)) s += ",threshold=" + string(r.chance(.5) ? "0.5" : "2.0");
    if (r.chance(.2)) s += ",beta=0.9";
  }
  return s;
}
GR make_region(PB &b, int slot, const RegOpts &o)
{
  Rng &r = b.r; GR g;
  g.slot = slot; g.model = r.pick(o.models);
  static const char *nm[] = {"r", "loop-kernel.", "Region_", "a.very.long.name-for_a_region@0x7f00deadbeef-that-nearly-fills-", "k"};
  g.name = string(nm[r.chance(.7) ? 0 : r.below(5)]) + S(slot);
  if (g.name.size() > 63) { string d = S(slot); g.name = g.name.substr(0, 63 - d.size()) + d; }
  g.nf = r.range(o.minnf, o.maxnf); g.np = r.range(o.minnp, o.maxnp);
  if (g.model == "PolicyNet") { g.nf = std::max(1, std::min(g.nf, 2)); if (g.nf * 64 + g.np < 4) g.np = 2; }
  int poolmax = o.pool;
  if (o.tails && g.model != "PolicyNet") {   // now and then far more of something than usual
    if (o.maxnp >= 6 && r.chance(.04)) g.np = r.range(100, 300);
    if (o.maxnf >= 3 && r.chance(.04)) g.nf = r.chance(.2) ? r.range(20, 80) : r.range(6, 20);
  }
  if (o.tails && o.pool >= 5 && r.chance(.04)) poolmax = 5 * o.pool;
  g.min = r.chance(o.pmin) ? r.range(1, r.chance(.1) ? 40 : 8) : 0;
  g.info = model_params(r, g.model, o.deep);
  if (o.tails && g.np >= 100 && r.chance(.7)) {   // let exploration reach the high policies
    size_t e = g.info.find(",explore=RoundRobin");
    if (e != string::npos) g.info.replace(e, 19, ",explore=Random");
    else if ((g.model == "DecisionTree" || g.model == "RandomForest") && g.info.find("explore=") == string::npos) g.info += ",explore=Random";
  }
  int style = o.style >= 0 ? o.style : (int)r.below(ST_N);
  if (g.model == "PolicyNet" && (style == ST_NEG || style == ST_HUGE)) style = ST_BIGINT;
  if (r.chance(.2) && g.model != "PolicyNet" && o.style < 0) style = -1;
  g.pool = feature_pool(r, g.nf, r.range(1, poolmax), style);
  return g;
}
void emit_reg(PB &b, const GR &g, const string &suffix, const string &yaml)
{
  b.op("reg", {S(g.slot), g.name, S(g.nf), S(g.np), S(g.min), g.info + suffix, yaml, S(g.capi && yaml.empty())});
}
double rnd_metric(Rng &r)
{
  switch (r.below(9)) {
    case 8: { if (r.chance(.1)) return r.uni() * 20000; double m = r.range(1, 5) * 1e-3; return m * (1 + r.range(-2, 2) * (r.chance(.5) ? 1e-10 : 1e-14)); }   // very long, or equal but for the last digits
    case 0: return r.uni() * 1e-6;
    case 1: return r.uni() * 100;
    case 2: return r.range(1, 4) * 0.25;
    case 3: return r.chance(.3) ? 0 : 1e-9 * r.range(1, 1000);
    default: return 1e-4 + r.uni() * 0.1;
  }
}
double rnd_work(Rng &r) { return r.chance(.04) ? r.uni() * (r.chance(.5) ? 3 : 20000) : 1e-6 * r.range(0, 20000); }
int some(Rng &r, int lo, int hi, int tail) { return r.chance(.04) ? r.range(hi, tail) : r.range(lo, hi); }
void common_knobs(Rng &r, Plan &p)
{
  p.knob["latmode"] = r.range(0, 5);
  if (r.chance(.3)) p.knob["walljump"] = (double)(1000 + r.below(5000000));
  if (r.chance(.3)) p.knob["uptime"] = r.chance(.5) ? 0.001 : 4e6 + r.below(1000000) + 0.25;
}
vector<float> Mix::feats(GR &x)
{
  vector<float> f;
  if (!x.pool.empty()) f = b.r.pick(x.pool);
  else f.assign(x.nf, 0);
  if (unique && x.nf > 0) f[0] = (float)uniq++;
  return f;
}
string Mix::metric() { return !cost.empty() ? cost : hexd(rnd_metric(b.r)); }
vector<string> Mix::ready()
{
  double u = b.r.uni();
  if (u < .35) return {"0", "0"};
  if (u < .9 || !shutready) return {S(b.next() + 1 + b.r.below((u64)maxready)), "0"};
  return {"-1", S(b.r.chance(.03) ? b.r.range(1000, 2500) : b.r.range(0, 3))};
}
void Mix::burst()
{
  Rng &r = b.r; GR &x = g[r.below(g.size())];
  int n = r.chance(.5) ? r.range(60, 140) : r.range(100, 420); if (x.model == "PolicyNet") n = r.range(40, 70); bool out = async && (r.chance(.6) || !(supplied || sync)), fresh = r.chance(.6);
  string far = shutready && r.chance(.5) ? "-1" : S(b.next() + n + r.below(20)); const char *k = r.chance(.5) ? "c" : "h";
  for (int i = 0; i < n; i++) {
    vector<float> f = feats(x); if (fresh && !unique && x.nf > 0) f[r.chance(.8) ? 0 : r.below(x.nf)] = (float)(1000 + i);
    if (out) b.op("y", cat({S(x.slot), k, "1", hexd(rnd_metric(r)), far, "0"}, f));
    else if (supplied) b.op("x", cat({S(x.slot), "s", "1", metric()}, f));
    else b.op("X", cat({S(x.slot), "s", "1", hexd(1e-6 * r.range(0, 20000))}, f));
  }
}
void Mix::exec(int i)
{
  Rng &r = b.r; GR &x = g[i];
  vector<float> f = feats(x);
  string nreq = r.chance(.15) ? S(r.range(2, 4)) : "1";
  vector<int> k;
  if (supplied) k.insert(k.end(), 3, 0);
  if (sync) k.insert(k.end(), 2, 1);
  if (async) k.insert(k.end(), 2, 2);
  static const char *sk[] = {"s", "S", "v", "d", "C"};
  int c = r.pick(k);
  if (c == 0) { const char *kk = async && r.chance(.2) ? (r.chance(.5) ? "c" : "h") : sk[r.below(dep ? 4 : 3)]; b.op("x", cat({S(x.slot), kk, nreq, metric()}, f)); }
  else if (c == 1) b.op("X", cat({S(x.slot), sk[r.below(dep ? 5 : 3)], nreq, hexd(rnd_work(r))}, f));
  else { vector<string> rd = ready(); b.op("y", cat({S(x.slot), r.chance(.5) ? "c" : "h", nreq, hexd(rnd_metric(r)), rd[0], rd[1]}, f)); }
}
void Mix::step()
{
  Rng &r = b.r;
  if (r.chance(pburst / 30)) { burst(); return; }
  if (!overlap || r.chance(.45)) { exec((int)r.below(g.size())); return; }
  if (open.size() < 5 && r.chance(.4)) {
    Open o; o.ctx = ctxn++; o.reg = (int)r.below(g.size()); o.stage = 0; o.d = false;
    o.async = async && (!(sync || supplied) || r.chance(.6));
    if (!o.async) for (auto &q : open) if (q.reg == o.reg && !q.async) { exec(o.reg); return; }
    vector<string> a = {S(g[o.reg].slot), S(o.ctx)};
    if (o.async) a.push_back(r.chance(.5) ? "c" : "h"); else { string k = r.chance(.5) ? "s" : "S"; if (dep && r.chance(.15)) k = "d"; a.push_back(k); }
    b.op("b", a);
    if (user && r.chance(o.async ? .3 : .1)) b.op("u", {S(o.ctx)});
    open.push_back(o);
    return;
  }
  if (open.empty()) { exec((int)r.below(g.size())); return; }
  size_t i = r.below(open.size()); Open &o = open[i];
  if (o.stage == 0) { b.op("f", cat({S(o.ctx)}, feats(g[o.reg]))); o.stage = 1; }
  else if (o.stage == 1 || r.chance(.1)) { b.op("p", {S(o.ctx)}); o.stage = 2; }
  else if (r.chance(.2)) b.op("w", {S(r.below(3000000))});
  else {
    if (supplied && ((!o.async && !sync) || r.chance(o.async ? .15 : .5))) b.op("m", {S(o.ctx), metric()});
    else { vector<string> rd = ready(); if (!o.async) rd = {"0", r.chance(.6) ? "0" : S(r.range(1, 3))}; b.op("e", {S(o.ctx), hexd(rnd_metric(r)), rd[0], rd[1]}); }
    open.erase(open.begin() + i);
  }
}
void Mix::finish()
{
  for (auto &o : open) {
    if (o.stage == 0) b.op("f", cat({S(o.ctx)}, feats(g[o.reg])));
    if (o.stage <= 1) b.op("p", {S(o.ctx)});
    if (!o.async && !sync) b.op("m", {S(o.ctx), metric()});
    else b.op("e", {S(o.ctx), hexd(rnd_metric(b.r)), "0", "0"});
  }
  open.clear();
}

vector<const OpRec *> node_ops(const Hist &h, int job, int rank)
{
  vector<const OpRec *> v;
  for (auto &o : h.ops) if (o.job == job && o.rank == rank) v.push_back(&o);
  return v;
}
string show(const vector<float> &f)
{
  string s = "[";
  for (size_t i = 0; i < f.size(); i++) { char b[40]; snprintf(b, sizeof b, "%s%.9g", i ? " " : "", f[i]); s += b; }
  return s + "]";
}
string show(const DS &d)
{
  string s = "{"; int n = 0;
  for (auto &e : d) { if (n++ > 12) { s += " ..."; break; } char b[64]; snprintf(b, sizeof b, "->%d=%.17g ", e.first.second, e.second); s += show(e.first.first) + b; }
  return s + "}";
}
string where(const OpRec &o)
{
  string s = "job " + S(o.job) + " rank " + S(o.rank) + " op " + (o.op == OP_EXIT ? string("exit") : S(o.op)) + " (" + o.kind;
  for (size_t i = 0; i < o.a.size() && i < 8; i++) s += " " + o.a[i];
  return s + ")";
}
bool near(double a, double b, double rel) { return a == b || std::fabs(a - b) <= rel * std::max(std::fabs(a), std::fabs(b)); }
bool ds_equal(const DS &a, const DS &b, double rel, string *why)
{
  for (auto &e : a) {
    auto i = b.find(e.first);
    if (i == b.end()) { if (why) *why = show(e.first.first) + " policy " + S(e.first.second) + " is missing"; return false; }
    if (rel == 0 ? !(e.second == i->second) : !near(e.second, i->second, rel)) { if (why) { char c[120]; snprintf(c, sizeof c, " policy %d: %.17g against %.17g", e.first.second, e.second, i->second); *why = show(e.first.first) + c; } return false; }
  }
  for (auto &e : b) if (!a.count(e.first)) { if (why) *why = show(e.first.first) + " policy " + S(e.first.second) + " is extra"; return false; }
  return true;
}
std::set<int> argmin(const DS &d, const vector<float> &f)
{
  std::set<int> s; double m = INFINITY;
  for (auto &e : d) if (e.first.first == f) { if (e.second < m) { m = e.second; s.clear(); } if (e.second == m) s.insert(e.first.second); }
  return s;
}
string env_of(const Job &j, const string &k) { for (auto &e : j.env) if (e.compare(0, k.size() + 1, k + "=") == 0) return e.substr(k.size() + 1); return ""; }
// Regions that load saved state: an earlier job must have saved it.
bool loads_valid(const Plan &p)
{
  for (size_t j = 0; j < p.jobs.size(); j++) for (size_t rk = 0; rk < p.jobs[j].prog.size(); rk++) for (auto &o : p.jobs[j].prog[rk]) {
    if (o.kind != "reg" || o.a.size() < 7) continue;
    bool load = o.a[5].find(",load") != string::npos || !o.a[6].empty() || o.a[5].find("DatasetMap") == 0;
    if (!load) continue;
    bool ok = false;
    for (size_t i = 0; i < j && !ok; i++) {
      if (rk >= p.jobs[i].prog.size()) continue;
      bool reg = false, ex = false, tr = false;
      for (auto &q : p.jobs[i].prog[rk]) {
        if (q.kind == "reg" && q.a[1] == o.a[1]) reg = true;
        if (reg && (q.kind == "x" || q.kind == "X") && q.a[0] == o.a[0]) ex = true;
        if (ex && q.kind == "r" && q.a[0] == o.a[0] && q.a.size() > 3 && q.a[3] == "1") tr = true;
      }
      bool needs_model = o.a[5].find(",load-dataset") == string::npos && o.a[5].find("DatasetMap") != 0;
      if (needs_model && tr && (env_of(p.jobs[i], "APOLLO_STORE_MODELS") == "1")) ok = true;
      if (!needs_model && ex && env_of(p.jobs[i], "APOLLO_PERSISTENT_DATASETS") == "1") ok = true;
    }
    if (!ok) return false;
  }
  return true;
}
bool alive(const Plan &p, const Hist &h, RunResult &r, int job)
{
  if (h.hang) { r.fail("hang: the run made no progress any more: " + h.note); return false; }
  if (h.deadlock) { r.fail("deadlock: some processes wait for each other for ever"); return false; }
  for (auto &e : h.ends) {
    if (job >= 0 && e.job != job) continue;
    if (e.death == D_EXIT) continue;
    if (e.death == D_ALIVE) continue;
    string err; const OpRec *o = h.find(e.job, e.rank, e.op); if (o) err = o->err;
    if (err.size() > 200) err = err.substr(err.size() - 200);
    r.fail(string("death (") + death_name[e.death] + " in " + (o ? o->kind : "?") + "): the process of job " + S(e.job) + " rank " + S(e.rank) + " ended by " + death_name[e.death] + " (" + e.why + ") in " + (o ? where(*o) : "?") + (err.empty() ? "" : "; it said: " + err));
    return false;
  }
  return true;
}
void finish_shape(const Hist &h, RunResult &r)
{
  u64 x = 1;
  for (auto &o : h.ops) { x = hcomb(x, hash_str(o.kind)); for (auto &s : o.out) x = hcomb(x, hash_str(s)); }
  r.shape = hcomb(r.shape, x);
  if (r.sample.empty()) {
    string s; int n = 0;
    for (auto &o : h.ops) { if (n++ >= 14) { s += " ..."; break; } s += o.kind; if (o.slot >= 0) s += S(o.slot); if (!o.out.empty()) s += "=" + o.out[0]; s += " "; }
    r.sample = s + "| " + S((i64)h.ops.size()) + " ops, " + S((i64)h.execs.size()) + " executions, " + S((i64)h.steps) + " seam calls";
  }
}
IDS to_ids(const DS &d) { IDS o; for (auto &e : d) o[e.first] = {e.second, e.second}; return o; }
void fold(IDS &d, const ExecRec &x)
{
  DKey k(x.features, x.policy);
  auto i = d.find(k);
  if (i == d.end()) d[k] = {x.lo, x.hi};
  else { i->second.lo = .5 * i->second.lo + .5 * x.lo; i->second.hi = .5 * i->second.hi + .5 * x.hi; }
}
bool ids_match(const IDS &e, const DS &d, string *why)
{
  for (auto &x : e) {
    auto i = d.find(x.first);
    if (i == d.end()) { if (why) *why = show(x.first.first) + " policy " + S(x.first.second) + " is missing"; return false; }
    double tol = 1e-12 * std::max(std::fabs(x.second.lo), std::fabs(x.second.hi));
    if (!(i->second >= x.second.lo - tol && i->second <= x.second.hi + tol)) { char c[160]; snprintf(c, sizeof c, " policy %d holds %.17g, expected %.17g to %.17g", x.first.second, i->second, x.second.lo, x.second.hi); if (why) *why = show(x.first.first) + c; return false; }
  }
  for (auto &x : d) if (!e.count(x.first)) { if (why) *why = show(x.first.first) + " policy " + S(x.first.second) + " is extra"; return false; }
  return true;
}
bool final_ids(const Plan &p, const Hist &h, int job, int rank, int slot, IDS &out)
{
  auto ops = node_ops(h, job, rank);
  const OpRec *last = nullptr; bool have = false;
  for (auto *o : ops) { if (o->regs.count(slot)) { out = to_ids(*o->regs.at(slot).ds); have = true; } last = o; }
  if (!have || !last || last->kind != "exit") return have;
  for (int e : last->completed) if (h.execs[e].slot == slot) fold(out, h.execs[e]);
  return true;
}
DsFile parse_dataset(const string &s)
{
  // "data: {" then entries "<n>: { features: [ a, b, ], policy: p, xtime: t }," then "}"
  DsFile f; size_t p = 0;
  auto ws = [&] { while (p < s.size() && (isspace((unsigned char)s[p]) || s[p] == ',')) p++; };
  auto lit = [&](const char *t) { ws(); size_t l = strlen(t); if (s.compare(p, l, t)) return false; p += l; return true; };
  auto num = [&](double &v) { ws(); char *e; v = strtod(s.c_str() + p, &e); if (e == s.c_str() + p) return false; p = e - s.c_str(); return true; };
  if (!lit("data:") || !lit("{")) return f;
  for (;;) {
    ws();
    if (p < s.size() && s[p] == '}') { f.ok = true; return f; }
    double v; vector<float> ft; double pol, t;
    if (!num(v) || !lit(":") || !lit("{") || !lit("features:") || !lit("[")) return f;
    for (;;) { ws(); if (p < s.size() && s[p] == ']') { p++; break; } if (!num(v)) return f; ft.push_back((float)v); }
    if (!lit("policy:") || !num(pol) || !lit("xtime:") || !num(t) || !lit("}")) return f;
    f.ds[DKey(ft, (int)pol)] = t;
  }
}

// ================================================================ C01 valid policies
static const vector<string> ALLM = {"DecisionTree", "RandomForest", "PolicyNet", "RoundRobin", "Random", "Static"};
static void gen01(Rng &r, Plan &p)
{
  PB b(p, r); common_knobs(r, p);
  int scen = r.range(0, 5);
  bool mpi = scen == 5;
  int ranks = mpi ? r.range(2, 3) : 1;
  int njobs = r.chance(.5) ? 1 : 2;
  RegOpts o; o.models = ALLM; o.maxnp = r.chance(.2) ? 30 : 6; o.maxnf = 4;
  vector<GR> g; int n = some(r, 1, 3, 12) * (r.chance(.005) ? 3 : 1);
  for (int i = 0; i < n; i++) { GR x = make_region(b, i, o); if (x.model == "Static") x.info = r.chance(.3) ? "Static" : "Static,policy=" + S(r.range(0, x.np + 2)); if (x.model == "PolicyNet" && r.chance(.1)) x.info = "PolicyNet,lr=" + string(r.chance(.3) ? "1000000" : r.chance(.5) ? "100" : "5.0"); g.push_back(x); }
  bool persist = r.chance(.4), single = !mpi && r.chance(.15);
  if (single) { GR x = g[0]; if (!x.tree()) { x.model = "DecisionTree"; x.info = "DecisionTree,max_depth=" + S(r.range(0, 4)); } for (int i = 0; i < n; i++) { GR y = x; y.slot = i; y.name = "s" + S(i); y.min = 0; g[i] = y; } }
  vector<string> suf(n);
  for (int jb = 0; jb < njobs; jb++) {
    b.newjob(ranks, mpi ? "mpi" : "def"); if (mpi) { b.job().mpi = true; for (auto &s : b.job().start) s = r.below(1000000); }
    if (mpi && r.chance(.5)) { b.env("APOLLO_COLLECTIVE_TRAINING=1"); b.env("APOLLO_LOCAL_TRAINING=0"); }
    if (persist) b.env("APOLLO_PERSISTENT_DATASETS=1");
    if (single) { b.env("APOLLO_SINGLE_MODEL=1"); b.env("APOLLO_REGION_MODEL=0"); }
    else if (!single) b.env("APOLLO_STORE_MODELS=1");
    if (r.chance(.2) && !mpi && !single) b.env("APOLLO_GLOBAL_TRAIN_PERIOD=" + S(r.range(1, 15)));
    if (r.chance(.2) && !single) b.env("APOLLO_PER_REGION_TRAIN_PERIOD=" + S(r.range(1, 9)));
    if (r.chance(.2)) b.env("APOLLO_TRACE_POLICY=1");
    if (r.chance(.1)) b.env("APOLLO_TRACE_CSV=1");
    int trains = r.range(0, 2), len = r.range(5, 40);
    for (int rk = 0; rk < ranks; rk++) {
      b.rank = rk;
      for (int i = 0; i < n; i++) {
        string s; GR x = g[i];
        if (jb && x.tree() && !single) s = persist && r.chance(.3) ? ",load-dataset" : r.chance(.6) ? ",load" : "";
        if (jb && x.model == "PolicyNet" && r.chance(.6)) s = ",load";
        if (single) x.min = 0;
        emit_reg(b, x, s);
      }
      Mix m{b, g}; m.async = r.chance(.5); m.cost = r.chance(.5) ? "c:k" : "";
      int tr = 0;
      for (int i = 0; i < len; i++) { m.step(); if (tr < trains && i == (tr + 1) * len / (trains + 1)) { b.op("t", {S(i)}); tr++; } }
      m.finish();
      while (tr++ < trains) b.op("t", {"99"});
      if (!single) for (int i = 0; i < n; i++) { b.op("x", cat({S(i), "s", "1", hexd(rnd_metric(r))}, r.pick(g[i].pool))); if (g[i].trainable()) b.op("r", {S(i), "0", "1", "1"}); }
      for (int i = 0; i < n; i++) for (int k = 0; k < 3; k++) { vector<float> f; for (int q = 0; q < g[i].nf; q++) f.push_back(feature_value(r, g[i].model == "PolicyNet" ? ST_INT : (int)r.below(ST_N))); b.op("q", cat({S(i), "2"}, f)); }
    }
  }
}
static void chk01(const Plan &p, RunResult &r)
{
  if (!loads_valid(p)) { r.skip = "plan loads what was not saved"; return; }
  Hist h = execute(p); r.add(h);
  for (auto &o : h.ops) {
    if (!(is_exec_kind(o.kind) || o.kind == "q") || o.slot < 0) continue;
    const RegInfo *ri = h.reg(o.job, o.rank, o.slot); if (!ri) continue;
    for (auto &s : o.out) {
      r.nontrivial = true;
      int v = atoi(s.c_str());
      if (v < 0 || v >= ri->np) { r.fail("range: region " + ri->name + " (" + ri->info + ", " + S(ri->np) + " policies) recommended policy " + s + " in " + where(o)); return; }
    }
  }
  alive(p, h, r);
  finish_shape(h, r);
}

// ================================================================ C02 exactly-once accounting
static void gen02(Rng &r, Plan &p)
{
  PB b(p, r); common_knobs(r, p); b.newjob();
  bool persist = r.chance(.6);
  if (persist) b.env("APOLLO_PERSISTENT_DATASETS=1");
  if (r.chance(.3)) b.env("APOLLO_GLOBAL_TRAIN_PERIOD=" + S(r.range(2, 20)));
  if (r.chance(.2)) b.env("APOLLO_PER_REGION_TRAIN_PERIOD=" + S(r.range(2, 12)));
  if (r.chance(.2)) b.env("APOLLO_TRACE_CSV=1");
  if (r.chance(.2)) b.env("APOLLO_STORE_MODELS=1");
  if (r.chance(.2)) b.env("APOLLO_STORE_EXEC_INFO=1");
  vector<GR> g; int n = some(r, 1, 4, 12) * (r.chance(.005) ? 3 : 1);
  RegOpts o; o.models = {"DecisionTree", "PolicyNet", "RandomForest", "RoundRobin", "Random", "Static"}; o.style = ST_INT; o.pool = 3;
  for (int i = 0; i < n; i++) { g.push_back(make_region(b, i, o)); g.back().capi = r.chance(.1); emit_reg(b, g.back()); }
  if (!persist && r.chance(.0015)) for (auto &x : g) if (x.model == "Static" || x.model == "RoundRobin") { b.op("xn", cat({S(x.slot), S(r.range(65536, 66500)), "0x1p-3"}, x.pool[0])); break; }
  Mix m{b, g}; m.unique = true; m.maxready = r.chance(.5) ? 5 : 30;
  int len = r.range(8, 60);
  for (int i = 0; i < len; i++) {
    m.step();
    if (r.chance(.04)) b.op(r.chance(.8) ? "t" : "fl", {S(i)});
    if (r.chance(.04)) { int k = r.range(0, n - 1); b.op("r", {S(k), S(i), r.chance(.8) ? "1" : "0", g[k].trainable() && r.chance(.4) ? "1" : "0", S(r.chance(.2))}); }
  }
  if (r.chance(.7)) m.finish();
}
static void chk02(const Plan &p, RunResult &r)
{
  RunOpts ro; ro.snap_files = false;
  Hist h = execute(p, ro); r.add(h);
  if (!alive(p, h, r)) return;
  for (size_t rk = 0; rk < p.jobs[0].prog.size(); rk++) {
    bool persist = env_of(p.jobs[0], "APOLLO_PERSISTENT_DATASETS") == "1";
    map<int, RegSnap> prev; map<int, std::set<int>> done; map<int, std::set<int>> has;  // per slot: executions completed; those in the data
    long long total = 0;
    for (auto *o : node_ops(h, 0, (int)rk)) {
      for (int e : o->completed) { done[h.execs[e].slot].insert(e); total++; }
      if (o->kind == "xn" && !o->skipped) { if (persist) { r.skip = "unrecorded executions"; return; } total += (long long)o->out.size(); }
      for (auto &sn : o->regs) {
        int slot = sn.first; const DS &d = *sn.second.ds;
        map<DKey, int> mine;
        for (int e : done[slot]) mine[DKey(h.execs[e].features, h.execs[e].policy)] = e;
        for (auto &x : d) {
          auto i = mine.find(x.first);
          if (i == mine.end()) { r.fail("invented: after " + where(*o) + " region " + h.reg(0, rk, slot)->name + " holds a measurement of features " + show(x.first.first) + " policy " + S(x.first.second) + " that no completed execution of it had"); return; }
          const ExecRec &e = h.execs[i->second];
          double tol = 1e-12 * std::fabs(e.hi);
          if (!(x.second >= e.lo - tol && x.second <= e.hi + tol)) { char c[100]; snprintf(c, sizeof c, "%.17g, not within %.17g to %.17g", x.second, e.lo, e.hi); r.fail("credit: after " + where(*o) + " the measurement of " + show(x.first.first) + " is " + c); return; }
        }
        bool before = prev.count(slot) ? prev[slot].trainable : true, after = sn.second.trainable;
        int first = 1;
        for (int e : o->completed) if (h.execs[e].slot == slot) {
          bool must = persist || after || (before && first);
          bool in = d.count(DKey(h.execs[e].features, h.execs[e].policy));
          if (must && !in && !(first && !persist && !before)) { r.fail("lost: after " + where(*o) + " region " + h.reg(0, rk, slot)->name + " does not hold the measurement of the execution with features " + show(h.execs[e].features) + " policy " + S(h.execs[e].policy) + " that has completed"); return; }
          if (in) r.nontrivial = true;
          first = 0;
        }
        if (prev.count(slot)) for (auto &x : *prev[slot].ds) if (!d.count(x.first)) { r.fail("lost: " + where(*o) + " removed the measurement of " + show(x.first.first)); return; }
        prev[slot] = sn.second;
      }
    }
    const NodeEnd *e = h.end(0, (int)rk);
    // everything ended must have completed by the end
    for (auto &x : h.execs) if (x.rank == (int)rk && x.ended && x.done_ix < 0) { r.fail("undrained: the execution with features " + show(x.features) + " ended but was never accounted, not even at shutdown"); return; }
    if (e && e->total != total) { r.fail("total: " + S(total) + " executions completed but the process reported a total of " + S(e->total)); return; }
    if (persist) for (auto &ri : h.regs) if (ri.rank == (int)rk) {
      auto fs = h.files_end(); auto f = fs.find(dsfile(ri.name));
      if (f == fs.end()) { r.fail("lost: no dataset was saved for region " + ri.name); return; }
      DsFile df = parse_dataset(*f->second);
      if (!df.ok) continue;
      std::set<DKey> want; for (int e : done[ri.slot]) want.insert(DKey(h.execs[e].features, h.execs[e].policy));
      for (auto &k : want) if (!df.ds.count(k) && ri.nf > 0) { bool close = false; for (auto &x : df.ds) if (x.first.second == k.second && x.first.first.size() == k.first.size() && near(x.first.first[0], k.first[0], 1e-5)) close = true; if (!close) { r.fail("lost: at shutdown the measurement of " + show(k.first) + " is not in the saved dataset"); return; } }
      if (df.ds.size() > want.size()) { r.fail("invented: the saved dataset of region " + ri.name + " has " + S(df.ds.size()) + " entries for " + S(want.size()) + " executions"); return; }
    }
  }
  finish_shape(h, r);
}

// ================================================================ C03 elapsed time
static void gen03(Rng &r, Plan &p)
{
  PB b(p, r); common_knobs(r, p); if (r.chance(.5)) p.knob["walljump"] = (double)(500 + r.below(3000000));
  b.newjob(); b.env("APOLLO_PERSISTENT_DATASETS=1");
  vector<GR> g; int n = some(r, 1, 3, 12) * (r.chance(.005) ? 3 : 1);
  RegOpts o; o.models = {"RoundRobin", "DecisionTree", "Static"}; o.style = ST_INT; o.pool = 2; o.pmin = .1;
  for (int i = 0; i < n; i++) { g.push_back(make_region(b, i, o)); emit_reg(b, g.back()); }
  Mix m{b, g}; m.unique = true;
  if (r.chance(.3)) m.async = false;
  if (r.chance(.3)) m.supplied = false;
  int len = r.range(6, 50);
  for (int i = 0; i < len; i++) { m.step(); if (r.chance(.1)) b.op("w", {S(r.below(20000000))}); if (r.chance(.03)) b.op("t", {S(i)}); }
  if (r.chance(.5)) m.finish();
  if (r.chance(.05)) p.rules.push_back(Rule{F_DEVERR, r.chance(.5) ? .05 : .4, 0, 0, r.chance(.5) ? n + r.range(0, len) : 0, 1 << 29});
}
static void chk03(const Plan &p, RunResult &r)
{
  Hist h = execute(p); r.add(h);
  for (auto &f : h.fired) if (f.second.kind == F_DEVERR) {   // the first one must have stopped the process
    const NodeEnd *e = h.end(0, 0); const OpRec *o = h.find(0, 0, f.first.op);
    if (!h.hang && e && (e->death == D_ABORT || e->death == D_EXITCALL) && e->op == f.first.op) { r.nontrivial = true; r.count["probe.stopped_by_device_error"]++; finish_shape(h, r); return; }
    r.fail("device-error: the device reported an error in " + (o ? where(*o) : "exit") + ", but the process " + (h.hang ? "hangs" : e && e->death == D_SIGNAL ? "fails by " + e->why : "carries on with made-up times")); return;
  }
  if (!alive(p, h, r)) return;
  // nothing is recorded for an execution before its time is known (features are unique, so a pair stands for one execution)
  map<std::pair<int, vector<float>>, const ExecRec *> by; bool uniq = true;
  for (auto &x : h.execs) { auto &b = by[{x.slot, x.features}]; if (b && b->features.size()) uniq = false; b = &x; }
  map<int, PDS> prev;
  for (size_t ix = 0; uniq && ix < h.ops.size(); ix++) for (auto &g : h.ops[ix].regs) {
    PDS &l = prev[g.first]; if (l == g.second.ds) continue;
    l = g.second.ds;
    for (auto &e : *l) {
      auto b = by.find({g.first, e.first.first}); if (b == by.end() || !b->second || e.first.first.empty()) continue;
      const ExecRec &x = *b->second;
      if (x.done_ix >= 0 && x.done_ix <= (int)ix) continue;
      char c[200]; snprintf(c, sizeof c, "recorded %.17g s", e.second);
      r.fail("early: " + string(c) + " for the " + (x.async ? "asynchronous" : "synchronous") + (x.user_timer ? " (application timer)" : "") + " execution of slot " + S(x.slot) + " with features " + show(x.features) + " in " + where(h.ops[ix]) + ", when its time is not known yet"); return;
    }
  }
  for (auto *o : node_ops(h, 0, 0)) for (int e : o->completed) {
    const ExecRec &x = h.execs[e];
    if (o->kind == "exit") continue;
    auto i = o->regs.find(x.slot); if (i == o->regs.end()) continue;
    auto k = i->second.ds->find(DKey(x.features, x.policy));
    if (k == i->second.ds->end()) continue;
    r.nontrivial = true;
    double tol = x.supplied ? 0 : 1e-12 * std::fabs(x.hi);
    if (!(k->second >= x.lo - tol && k->second <= x.hi + tol)) {
      char c[200]; snprintf(c, sizeof c, "recorded %.17g s, the execution took between %.17g and %.17g s", k->second, x.lo, x.hi);
      r.fail(string("metric: ") + (x.supplied ? "supplied" : x.async ? "asynchronous" : "synchronous") + (x.user_timer ? " (application timer)" : "") + " execution of slot " + S(x.slot) + " ended at " + where(*o) + ": " + c); return;
    }
  }
  finish_shape(h, r);
}

// ================================================================ C04 moving average
static void gen04(Rng &r, Plan &p)
{
  PB b(p, r); common_knobs(r, p); b.newjob();
  if (r.chance(.4)) b.env("APOLLO_PERSISTENT_DATASETS=1");
  if (r.chance(.2)) b.env("APOLLO_GLOBAL_TRAIN_PERIOD=" + S(r.range(5, 40)));
  if (r.chance(.2)) b.env("APOLLO_TRACE_BEST_POLICIES=1");
  vector<GR> g; int n = some(r, 1, 3, 12) * (r.chance(.005) ? 3 : 1);
  RegOpts o; o.models = {"DecisionTree", "PolicyNet", "RandomForest", "DecisionTree", "RoundRobin", "Static"}; o.pool = 4; o.maxnp = r.chance(.3) ? 6 : 4; o.pmin = .2; o.minnf = 0;
  for (int i = 0; i < n; i++) { g.push_back(make_region(b, i, o)); emit_reg(b, g.back()); }
  Mix m{b, g}; m.maxready = r.chance(.5) ? 4 : 25;
  int len = r.range(10, 60);
  for (int i = 0; i < len; i++) {
    m.step();
    if (r.chance(.03)) b.op("t", {S(i)});
    if (r.chance(.05)) { int k = r.range(0, n - 1); b.op("r", {S(k), S(i), r.chance(.8) ? "1" : "0", g[k].trainable() && r.chance(.6) ? "1" : "0"}); }
  }
  m.finish();
}
static bool match_any_order(const DS &before, vector<int> done, const Hist &h, const DS &after, bool prefix_ok, string *why)
{
  // all executions in the observed order; permutations only among completions of one call
  int lo = prefix_ok ? 1 : (int)done.size();
  for (int k = (int)done.size(); k >= lo; k--) {
    vector<int> d(done.begin(), done.begin() + k);
    IDS e = to_ids(before); for (int x : d) fold(e, h.execs[x]);
    if (ids_match(e, after, why)) return true;
  }
  if (done.size() > 1 && done.size() <= 6) {
    vector<int> d = done; std::sort(d.begin(), d.end());
    do {
      for (int k = (int)d.size(); k >= lo; k--) { IDS e = to_ids(before); for (int i = 0; i < k; i++) fold(e, h.execs[d[i]]); string w; if (ids_match(e, after, &w)) return true; }
    } while (std::next_permutation(d.begin(), d.end()));
  } else if (done.size() > 6) {   // every pair by itself
    map<DKey, vector<int>> by; for (int x : done) by[DKey(h.execs[x].features, h.execs[x].policy)].push_back(x);
    for (auto &e : before) if (!by.count(e.first)) { auto i = after.find(e.first); if (i == after.end() || i->second != e.second) { if (why) *why = show(e.first.first) + " changed"; return false; } }
    for (auto &e : after) if (!before.count(e.first) && !by.count(e.first)) { if (why) *why = show(e.first.first) + " is extra"; return false; }
    for (auto &k : by) {
      if (k.second.size() > 6) continue;
      DS b1, a1; auto i = before.find(k.first); if (i != before.end()) b1.insert(*i); auto j = after.find(k.first); if (j != after.end()) a1.insert(*j);
      bool ok = false; vector<int> d = k.second; std::sort(d.begin(), d.end());
      do { for (int n = (int)d.size(); n >= (prefix_ok ? 0 : (int)d.size()) && !ok; n--) { IDS e = to_ids(b1); for (int q = 0; q < n; q++) fold(e, h.execs[d[q]]); ok = ids_match(e, a1, why); } } while (!ok && std::next_permutation(d.begin(), d.end()));
      if (!ok) return false;
    }
    return true;
  }
  return false;
}
static void chk04(const Plan &p, RunResult &r)
{
  Hist h = execute(p); r.add(h);
  if (!alive(p, h, r)) return;
  bool persist = env_of(p.jobs[0], "APOLLO_PERSISTENT_DATASETS") == "1";
  map<int, RegSnap> prev; DS empty; int rep = 0;
  for (auto *o : node_ops(h, 0, 0)) for (auto &sn : o->regs) {
    int slot = sn.first; const DS &d = *sn.second.ds;
    const DS &b = prev.count(slot) ? *prev[slot].ds : empty;
    bool was = prev.count(slot) ? prev[slot].trainable : true, is = sn.second.trainable;
    vector<int> done; for (int e : o->completed) if (h.execs[e].slot == slot) done.push_back(e);
    string why;
    bool ok;
    if (done.empty() || (!persist && !was)) ok = ds_equal(b, d, 0, &why);
    else { for (int e : done) if (b.count(DKey(h.execs[e].features, h.execs[e].policy))) rep++; ok = match_any_order(b, done, h, d, !persist && was && !is, &why); }
    if (!ok) { r.fail("data: after " + where(*o) + " the data of region " + h.reg(0, 0, slot)->name + " is not the moving average of its measurements: " + why + "; before: " + show(b) + ", after: " + show(d) + ", completed now: " + S(done.size())); return; }
    prev[slot] = sn.second;
  }
  r.nontrivial = rep > 0;
  finish_shape(h, r);
}

// ================================================================ C05 exploration
static void gen05(Rng &r, Plan &p)
{
  PB b(p, r); common_knobs(r, p);
  int njobs = r.range(1, 2);
  vector<GR> g; int n = some(r, 1, 4, 12) * (r.chance(.005) ? 3 : 1);
  RegOpts o; o.models = {"DecisionTree", "RoundRobin", "RandomForest", "Random"}; o.pool = 5; o.maxnp = 12;
  PB tmp(p, r);
  bool persist = r.chance(.3);
  for (int jb = 0; jb < njobs; jb++) {
    b.newjob();
    if (persist) b.env("APOLLO_PERSISTENT_DATASETS=1");
    if (r.chance(.3)) b.env("APOLLO_GLOBAL_TRAIN_PERIOD=" + S(r.range(5, 40)));
    if (r.chance(.2)) b.env("APOLLO_PER_REGION_TRAIN_PERIOD=" + S(r.range(5, 40)));
    if (!jb) for (int i = 0; i < n; i++) g.push_back(make_region(b, i, o));
    vector<GR> cur; int made = r.range(1, n);
    for (int i = 0; i < made; i++) { emit_reg(b, g[i]); cur.push_back(g[i]); }
    vector<GR> live = cur;
    if (r.chance(.002) && !live.empty()) { GR &x = live[r.below(live.size())]; b.op("xn", cat({S(x.slot), S(r.range(65536, 66500)), "0x1p-3"}, x.pool[0])); }
    Mix m{b, live};
    int len = r.range(10, 60);
    for (int i = 0; i < len; i++) {
      m.step();
      if ((int)live.size() < n && r.chance(.1)) { emit_reg(b, g[live.size()]); live.push_back(g[live.size()]); }
      if (r.chance(.08)) { int k = (int)r.below(live.size()); b.op("q", cat({S(k), S(r.range(1, 5))}, m.feats(live[k]))); }
      if (r.chance(.01)) b.op("t", {S(i)});
    }
    m.finish();
    for (size_t k = 0; k < live.size(); k++) if (live[k].np > 40 || r.chance(.1)) b.op("q", cat({S(k), S(2 * live[k].np + r.range(1, 9))}, m.feats(live[k])));
    for (size_t k = 0; k < live.size(); k++) if (live[k].info.find("Random") == 0 ? live[k].model == "Random" : live[k].info.find("explore=Random") != string::npos) {
      int q = (int)std::ceil(live[k].np * (std::log((double)live[k].np) + 28)) + 5;
      for (int i = 0; i < 3; i++) b.op("q", cat({S(k), S(q / 3 + 1)}, m.feats(live[k])));
    }
  }
}
static void chk05(const Plan &p, RunResult &r)
{
  Hist h = execute(p); r.add(h);
  if (!alive(p, h, r)) return;
  for (size_t jb = 0; jb < h.files_job.size(); jb++) {
    map<int, int> next; map<int, vector<int>> rnd; map<int, bool> exploring;
    for (auto *o : node_ops(h, (int)jb, 0)) {
      if ((is_exec_kind(o->kind) || o->kind == "q" || o->kind == "xn") && o->slot >= 0) {
        const RegInfo *ri = h.reg(jb, 0, o->slot); bool between = o->kind == "xn" && exploring[o->slot] && !o->regs.at(o->slot).trainable;   // trained somewhere in between
        bool tr = ri->info.find("DecisionTree") == 0 || ri->info.find("RandomForest") == 0;
        bool random = ri->info.find("Random") == 0 && !tr ? true : ri->info.find("explore=Random") != string::npos;
        if (!tr || (exploring[o->slot] && !between)) for (auto &s : o->out) {
          int v = atoi(s.c_str());
          if (!random) {
            int e = next[o->slot];
            if (v != e) { r.fail("order: region " + ri->name + " (" + ri->info + ", " + S(ri->np) + " policies) recommended " + s + " instead of " + S(e) + " as its next exploration step in " + where(*o)); return; }
            next[o->slot] = (e + 1) % ri->np; if (ri->np > 1) r.nontrivial = true;
          } else rnd[o->slot].push_back(v);
        }
      }
      for (auto &s : o->regs) exploring[s.first] = s.second.trainable;
    }
    for (auto &x : rnd) {
      const RegInfo *ri = h.reg(jb, 0, x.first); size_t w = (size_t)std::ceil(ri->np * (std::log((double)ri->np) + 28));
      vector<long> last(ri->np, -1);
      for (size_t i = 0; i <= x.second.size(); i++) {
        for (int k = 0; k < ri->np; k++) if ((long)i - last[k] > (long)w + 1) { r.fail("starved: region " + ri->name + " (" + ri->info + ") did not recommend policy " + S(k) + " of " + S(ri->np) + " once in " + S(w) + " requests"); return; }
        if (i < x.second.size() && x.second[i] >= 0 && x.second[i] < ri->np) last[x.second[i]] = (long)i;
      }
      if (x.second.size() > w && ri->np > 1) r.nontrivial = true;
    }
  }
  finish_shape(h, r);
}

// ================================================================ C06 the fastest measured policy
static void gen06(Rng &r, Plan &p)
{
  PB b(p, r); common_knobs(r, p); b.newjob();
  if (r.chance(.05)) {   // many features with one fastest policy and a few exceptions
    int N = r.range(60, 520), ex = r.range(1, 3); RegOpts o; o.models = {"DecisionTree"}; o.maxnf = 1; o.minnp = 2; o.maxnp = 2; o.pmin = 0;
    GR x = make_region(b, 0, o); x.info = "DecisionTree,explore=RoundRobin,max_depth=" + S(N + 1); emit_reg(b, x);
    std::set<int> odd; while ((int)odd.size() < ex) odd.insert((int)r.below(N));
    for (int i = 0; i < N; i++) for (int k = 0; k < 2; k++) b.op("x", cat({"0", "s", "1", hexd((odd.count(i) ? k == 1 : k == 0) ? 1 : 2)}, vector<float>{(float)i}));
    b.op("r", {"0", "1", "1", "1"});
    for (int i : odd) for (int d = -1; d <= 1; d++) if (i + d >= 0 && i + d < N) b.op("q", cat({"0", "1"}, vector<float>{(float)(i + d)}));
    return;
  }
  if (r.chance(.04)) {   // every feature vector has a fastest policy of its own: a tree that may become as deep as there are features
    int N = r.range(10, 80); RegOpts o; o.models = {"DecisionTree"}; o.maxnf = 1; o.pmin = 0;
    GR x = make_region(b, 0, o); x.np = N; x.info = "DecisionTree,explore=RoundRobin,max_depth=" + S(N + r.range(0, 40)); emit_reg(b, x);
    double st = r.pick(vector<double>{1, -1, .5, 1000, 1e-3});
    for (int i = 0; i < N; i++) b.op("x", cat({"0", "s", "1", hexd(rnd_metric(r))}, vector<float>{(float)(i * st)}));
    b.op("r", {"0", "1", "1", "1"});
    for (int i = 0; i < N; i++) b.op("q", cat({"0", "1"}, vector<float>{(float)(i * st)}));
    return;
  }
  if (r.chance(.2)) b.env("APOLLO_PERSISTENT_DATASETS=1");
  int n = r.range(1, 2); vector<GR> g;
  for (int i = 0; i < n; i++) {
    RegOpts o; o.minnf = r.chance(.1) ? 0 : 1; o.models = {r.chance(.8) ? "DecisionTree" : "RandomForest"}; o.maxnf = 3; o.pool = 12; o.minnp = 2; o.maxnp = 5; o.pmin = 0; o.deep = r.chance(.6);
    GR x = make_region(b, i, o);
    if (!o.deep) { x.info = x.model + ",max_depth=" + S(r.range(0, 3)); }
    if (r.chance(.2) && x.model == "DecisionTree") x.info += ",explore=Random";
    g.push_back(x); emit_reg(b, x);
  }
  string cost = (r.chance(.6) ? "c:" : r.chance(.5) ? "n:" : "g:") + S(r.below(1000));
  int rounds = r.range(1, 3);
  for (int i = 0; i < n; i++)
    for (int k = 0; k < rounds * g[i].np; k++) for (auto &f : g[i].pool) if (r.chance(.8)) b.op("x", cat({S(i), "s", "1", r.chance(.9) ? cost : hexd(rnd_metric(r))}, f));
  if (r.chance(.5)) b.op("t", {"1"}); else for (int i = 0; i < n; i++) b.op("r", {S(i), "1", "1", r.chance(.5) ? "1" : "0"});
  for (int i = 0; i < n; i++) {
    for (auto &f : g[i].pool) { if (r.chance(.5)) b.op("q", cat({S(i), "1"}, f)); else b.op("x", cat({S(i), "s", "1", cost}, f)); }
    if (r.chance(.6)) { Mix m{b, g}; m.cost = cost; m.pburst = .01; for (int k = r.range(4, 30); k > 0; k--) m.step(); m.finish(); }
    for (int k = 0; k < 4; k++) { vector<float> f; for (int q = 0; q < g[i].nf; q++) f.push_back(feature_value(r, (int)r.below(ST_N))); b.op("q", cat({S(i), "1"}, f)); }
  }
}
typedef vector<std::pair<vector<float>, int>> TD;
static double gini(const TD &d)
{
  map<int, int> c; for (auto &x : d) c[x.second]++;
  double g = 1; for (auto &x : c) { double q = (double)x.second / d.size(); g -= q * q; }
  return g;
}
// the classes that some tree of Gini-optimal splits (ties within the tolerance) may answer for f
static void reach(const TD &d, const vector<float> &f, int depth, std::set<int> &out, int &budget)
{
  if (--budget < 0) return;
  map<int, int> c; for (auto &x : d) c[x.second]++;
  if (depth == 0 || c.size() == 1) { int m = 0; for (auto &x : c) m = std::max(m, x.second); for (auto &x : c) if (x.second == m) out.insert(x.first); return; }
  struct Sp { double g; size_t fi; float l, rr; }; vector<Sp> sp; double best = 2;
  for (size_t i = 0; i < d[0].first.size(); i++) {
    std::set<float> vals; for (auto &x : d) vals.insert(x.first[i]);
    float prev = 0; bool first = true;
    for (float v : vals) {
      if (!first) {
        TD a, e; for (auto &x : d) (x.first[i] < v ? a : e).push_back(x);
        double g = (a.size() * gini(a) + e.size() * gini(e)) / d.size();
        sp.push_back({g, i, prev, v}); best = std::min(best, g);
      }
      prev = v; first = false;
    }
  }
  if (sp.empty()) { int m = 0; for (auto &x : c) m = std::max(m, x.second); for (auto &x : c) if (x.second == m) out.insert(x.first); return; }
  std::set<vector<size_t>> seen;
  for (auto &s : sp) if (s.g <= best + 1e-4) {
    bool left = f[s.fi] < s.rr; TD sub; vector<size_t> key;
    for (size_t q = 0; q < d.size(); q++) if ((d[q].first[s.fi] < s.rr) == left) { sub.push_back(d[q]); key.push_back(q); }
    if (!seen.insert(key).second) continue;
    reach(sub, f, depth - 1, out, budget);
  }
}
static void chk06(const Plan &p, RunResult &r)
{
  Hist h = execute(p); r.add(h);
  if (!alive(p, h, r)) return;
  map<int, RegSnap> prev; map<int, DS> model;  // data at the last training
  for (auto *o : node_ops(h, 0, 0)) {
    if ((o->kind == "q" || is_exec_kind(o->kind)) && o->slot >= 0 && model.count(o->slot) && !o->out.empty()) {
      const RegInfo *ri = h.reg(0, 0, o->slot); const DS &d = model[o->slot];
      vector<float> f; if (o->kind == "q") for (size_t i = 2; i < o->a.size(); i++) f.push_back((float)parsed(o->a[i])); else if (o->exec >= 0) f = h.execs[o->exec].features;
      int v = atoi(o->out[0].c_str());
      std::set<vector<float>> vecs; std::set<int> anybest; bool ties = false;
      for (auto &e : d) vecs.insert(e.first.first);
      TD td; for (auto &x : vecs) { auto s = argmin(d, x); if (s.size() > 1) ties = true; anybest.insert(s.begin(), s.end()); td.push_back({x, *s.begin()}); }
      if (!anybest.count(v)) { r.fail("never-best: region " + ri->name + " (" + ri->info + ") recommends policy " + S(v) + " for " + show(f) + ", which was best for none of the measured features; data " + show(d)); return; }
      if (ri->info.find("DecisionTree") == 0 && vecs.count(f)) {
        r.nontrivial = r.nontrivial || anybest.size() > 1;
        int depth = 2; size_t q = ri->info.find("max_depth="); if (q != string::npos) depth = atoi(ri->info.c_str() + q + 10);
        if (depth >= (int)vecs.size()) {
          auto s = argmin(d, f);
          if (!s.count(v)) { r.fail("not-fastest: region " + ri->name + " (" + ri->info + ") recommends policy " + S(v) + " for " + show(f) + " although policy " + S(*s.begin()) + " was measured fastest; data " + show(d)); return; }
        } else if (!ties) {
          std::set<int> s; int budget = 20000; reach(td, f, depth, s, budget);
          if (budget > 0 && !s.count(v)) { string w; for (int x : s) w += S(x) + " "; r.fail("not-majority: region " + ri->name + " (" + ri->info + ") recommends policy " + S(v) + " for " + show(f) + "; Gini-optimal trees of that depth answer " + w + "; data " + show(d)); return; }
        }
      }
    }
    for (auto &s : o->regs) {
      bool was = prev.count(s.first) ? prev[s.first].trainable : true;
      bool forced = o->kind == "r" && o->slot == s.first && o->a.size() > 3 && o->a[3] == "1" && !s.second.ds->empty();
      if ((was && !s.second.trainable) || forced) model[s.first] = *s.second.ds;
      prev[s.first] = s.second;
    }
  }
  finish_shape(h, r);
}

// ================================================================ C07 retraining supersedes
static void gen07(Rng &r, Plan &p)
{
  PB b(p, r); common_knobs(r, p);
  RegOpts o; o.models = {"DecisionTree", "RandomForest", "RandomForest"}; o.minnp = 2; o.pool = 8; o.pmin = 0; o.minnf = r.chance(.1) ? 0 : 1;
  vector<GR> g; int n = r.range(1, 2), njobs = r.range(1, 3);
  for (int jb = 0; jb < njobs; jb++) {
    b.newjob(); b.env("APOLLO_PERSISTENT_DATASETS=1"); b.env("APOLLO_STORE_MODELS=1");
    if (!jb) for (int i = 0; i < n; i++) g.push_back(make_region(b, i, o));
    for (int i = 0; i < n; i++) emit_reg(b, g[i], jb ? ",load" : "");
    int rounds = r.range(2, 4);
    if (jb && r.chance(.5)) for (int i = 0; i < n; i++) for (auto &f : g[i].pool) b.op("q", cat({S(i), "1"}, f));
    for (int k = 0; k < rounds; k++) {
      Mix m{b, g}; m.async = r.chance(.3); m.overlap = false; m.cost = "c:" + S(k + 10 * jb);
      for (int i = 0; i < n; i++) m.exec(i);
      for (int i = r.range(0, 20); i > 0; i--) m.step();
      for (int i = 0; i < n; i++) {
        b.op("x", cat({S(i), "s", "1", "c:z"}, r.pick(g[i].pool)));
        // the last question before the training may be the first one after it
        vector<float> f = r.pick(g[i].pool); bool same = r.chance(.5); if (same) b.op("q", cat({S(i), "1"}, f));
        b.op("r", {S(i), S(k), "1", "1"});
        if (same) b.op("q", cat({S(i), "1"}, f));
      }
      for (int i = 0; i < n; i++) {
        for (auto &f : g[i].pool) b.op("q", cat({S(i), "1"}, f));
        for (int z = 0; z < 4; z++) { vector<float> f; for (int q = 0; q < g[i].nf; q++) f.push_back(feature_value(r, (int)r.below(ST_N))); b.op("q", cat({S(i), "1"}, f)); }
      }
    }
  }
}
static void chk07(const Plan &p, RunResult &r)
{
  if (!loads_valid(p)) { r.skip = "plan loads what was not saved"; return; }
  Hist h = execute(p); r.add(h);
  if (!alive(p, h, r)) return;
  // a second world trains a fresh model for every training and asks it the same
  Plan q; q.prop = p.prop; q.seed = p.seed; q.knob["latmode"] = 0; q.jobs.push_back(Job()); q.jobs[0].prog.resize(1);
  RunOpts ro; vector<std::pair<const OpRec *, size_t>> asks; int id = 1, fm = 0;
  auto &prog = q.jobs[0].prog[0]; int retrained = 0;
  map<string, std::pair<int, bool>> cur; map<string, bool> wasload;  // region -> fresh model
  for (size_t jb = 0; jb < h.files_job.size(); jb++) {
    map<int, int> trained; map<int, RegSnap> prev;
    for (auto *o : node_ops(h, (int)jb, 0)) {
      if (o->kind == "q" && trained.count(o->slot) && !o->out.empty()) {
        vector<string> a = o->a; a[0] = S(trained[o->slot]); a[1] = "1";
        prog.push_back(Op{id++, "fq", a}); asks.push_back({o, prog.size() - 1});
      }
      for (auto &s : o->regs) {
        bool was = prev.count(s.first) ? prev[s.first].trainable : s.second.trainable;
        bool forced = o->kind == "r" && o->slot == s.first && o->a.size() > 3 && o->a[3] == "1" && !s.second.ds->empty();
        if (forced || (was && !s.second.trainable)) {
          const RegInfo *ri = h.reg(jb, 0, s.first);
          if (trained.count(s.first) || ri->info.find(",load") != string::npos) retrained++;
          trained[s.first] = ++fm; ro.aux.push_back(*s.second.ds);
          size_t c = ri->info.find(','); string params = c == string::npos ? "" : ri->info.substr(c + 1);
          size_t l = params.find(",load"); if (l != string::npos) params = params.substr(0, l);
          if (params == "load") params = "";
          prog.push_back(Op{id++, "fn", {S(fm), ri->info.substr(0, c), S(ri->nf), S(ri->np), params}});
          prog.push_back(Op{id++, "ft", {S(fm), S(ro.aux.size() - 1)}});
        }
        prev[s.first] = s.second;
      }
    }
  }
  if (asks.empty()) return;
  Hist f = execute(q, ro); r.add(f, false);
  if (!alive(q, f, r)) { r.viol = "reference-" + r.viol; return; }
  auto fo = node_ops(f, 0, 0);
  for (auto &a : asks) {
    const OpRec *x = f.find(0, 0, prog[a.second].id);
    if (!x || x->out.empty()) { r.skip = "reference incomplete"; return; }
    if (x->out[0] != a.first->out[0]) { r.fail("differs: a fresh model trained on the same measurements answers " + x->out[0] + " where the region answers " + a.first->out[0] + " in " + where(*a.first) + " (" + h.reg(a.first->job, 0, a.first->slot)->info + ")"); return; }
  }
  r.nontrivial = retrained > 0;
  finish_shape(h, r);
}

// ================================================================ C08 training when due
static void gen08(Rng &r, Plan &p)
{
  PB b(p, r); common_knobs(r, p); b.newjob();
  int scen = r.range(0, 3);
  bool per = false;
  if (r.chance(.005)) {   // a period or minimum that is only reached after very many executions
    RegOpts o; o.models = {"DecisionTree", "RandomForest"}; o.pool = 5; o.maxnp = 4; o.pmin = 0; GR x = make_region(b, 0, o);
    int k = r.range(100, r.chance(.5) ? 300 : 700);
    if (scen & 1) { x.nf = 1; x.pool.clear(); for (int i = 0; i < k + 40; i++) x.pool.push_back({(float)i}); x.min = k; } else b.env("APOLLO_PER_REGION_TRAIN_PERIOD=" + S(k));
    b.env("APOLLO_STORE_MODELS=1"); emit_reg(b, x);
    for (int i = 0; i < k + 30; i++) b.op("x", cat({"0", "s", "1", "c:1"}, scen & 1 ? x.pool[i] : r.pick(x.pool)));
    return;
  }
  if (scen == 0 || (scen == 3 && r.chance(.5))) b.env("APOLLO_GLOBAL_TRAIN_PERIOD=" + S(r.range(1, 12)));
  if (scen == 1 || (scen == 3 && r.chance(.5))) { per = true; b.env("APOLLO_PER_REGION_TRAIN_PERIOD=" + S(r.range(1, 10))); }
  b.env("APOLLO_STORE_MODELS=1");
  RegOpts o; o.models = {"DecisionTree", "RandomForest", "PolicyNet", "RoundRobin", "DecisionTree", "Static"}; o.pool = 5; o.pmin = scen == 2 ? .8 : scen == 3 ? .4 : .05; o.maxnp = 4;
  vector<GR> g; int n = some(r, 1, 4, 12) * (r.chance(.005) ? 3 : 1);
  if (r.chance(.15)) b.op("t", {"0"});
  int made = r.range(1, n);
  vector<GR> live;
  for (int i = 0; i < n; i++) { g.push_back(make_region(b, i, o)); if (i < made) { emit_reg(b, g[i]); live.push_back(g[i]); } }
  if (r.chance(.3)) b.op("t", {"0"});
  Mix m{b, live}; m.async = !per && r.chance(.5); m.dep = r.chance(.5); m.user = false;
  int len = r.range(8, 50);
  for (int i = 0; i < len; i++) {
    m.step();
    if ((int)live.size() < n && r.chance(.1)) { emit_reg(b, g[live.size()]); live.push_back(g[live.size()]); }
    if (r.chance(.02)) b.op(r.chance(.7) ? "t" : "fl", {S(i)});
    if (r.chance(.03)) { int k = (int)r.below(live.size()); b.op("r", {S(k), S(i), "1", "0", S(r.chance(.2))}); }
  }
  m.finish();
}
static void chk08(const Plan &p, RunResult &r)
{
  if (env_of(p.jobs[0], "APOLLO_STORE_MODELS") != "1") { r.skip = "trainings are seen by the stored models"; return; }
  RunOpts ro; ro.snap_files = true;
  Hist h = execute(p, ro); r.add(h);
  if (!alive(p, h, r)) return;
  const Job &jb = p.jobs[0];
  long G = atol(env_of(jb, "APOLLO_GLOBAL_TRAIN_PERIOD").c_str()), P = atol(env_of(jb, "APOLLO_PER_REGION_TRAIN_PERIOD").c_str());
  long E = 0; map<int, RegSnap> prev; map<int, long> comp; map<string, string> latest; int due = 0, earlier = 0;
  for (auto *o : node_ops(h, 0, 0)) {
    if (o->kind == "exit") break;
    map<int, bool> tr, train; map<int, std::set<DKey>> keys;
    for (auto &s : o->regs) {
      bool had = prev.count(s.first);
      tr[s.first] = had ? prev[s.first].trainable : h.reg(0, 0, s.first)->info.find("DecisionTree") == 0 || h.reg(0, 0, s.first)->info.find("RandomForest") == 0 || h.reg(0, 0, s.first)->info.find("PolicyNet") == 0;
      if (had) for (auto &e : *prev[s.first].ds) keys[s.first].insert(e.first);
    }
    auto pn = [&](int s) { return h.reg(0, 0, s)->info.find("PolicyNet") == 0; };
    auto do_train = [&](int s) { if (!tr[s] || keys[s].empty()) return; train[s] = true; if (!pn(s)) tr[s] = false; };
    string ctx;
    for (int e : o->completed) {
      int s = h.execs[e].slot;
      if (tr[s]) keys[s].insert(DKey(h.execs[e].features, h.execs[e].policy));
      E++; comp[s]++;
      bool any = false; for (auto &t : tr) any = any || t.second;
      if (G && E % G == 0 && any) { due++; for (auto &t : o->regs) do_train(t.first); }
      else if (tr[s]) {
        int mn = h.reg(0, 0, s)->min;
        long begun = 0; for (auto &x : h.execs) if (x.slot == s && x.begin_ix <= h.execs[e].end_ix) begun = std::max<long>(begun, x.idx + 1);
        if (P && begun % P == 0) { due++; do_train(s); }
        else if (mn > 0 && mn <= (long)keys[s].size()) { due++; do_train(s); }
      }
    }
    if ((o->kind == "t" || o->kind == "fl") && !o->skipped) for (auto &t : o->regs) do_train(t.first);
    if (o->kind == "r" && !o->skipped && o->slot >= 0) do_train(o->slot);
    for (auto &s : o->regs) {
      const RegInfo *ri = h.reg(0, 0, s.first);
      if (pn(s.first)) {
        string cont; auto f = o->files ? o->files->find(outdir() + "/models/PolicyNet-latest-rank-" + S((i64)p.kn("asrank")) + "-" + ri->name + ".yaml") : Files::iterator();
        if (o->files && f != o->files->end()) cont = *f->second;
        bool did = cont != latest[ri->name];
        if (did != train[s.first]) { r.fail(string(did ? "early: " : "missed: ") + "region " + ri->name + " (" + ri->info + ") was " + (did ? "" : "not ") + "trained in " + where(*o) + "; completed executions so far: " + S(E) + " in all, " + S(comp[s.first]) + " of this region, " + S(keys[s.first].size()) + " distinct measurements"); return; }
        latest[ri->name] = cont;
      } else if (tr[s.first] != s.second.trainable) {
        r.fail(string(tr[s.first] ? "early: " : "missed: ") + "region " + ri->name + " (" + ri->info + ", min " + S(ri->min) + ") is " + (s.second.trainable ? "still exploring" : "trained") + " after " + where(*o) + " but should " + (tr[s.first] ? "still explore" : "be trained") + "; completed executions so far: " + S(E) + " in all, " + S(comp[s.first]) + " of this region, " + S(keys[s.first].size()) + " distinct measurements"); return;
      }
      prev[s.first] = s.second;
    }
  }
  r.nontrivial = due > 0;
  finish_shape(h, r);
}
void register_a()
{
  PROPS.push_back({"C01", gen01, chk01, "def*3 mpi*6"});
  PROPS.push_back({"C02", gen02, chk02, "def*1 mpi*1"});
  PROPS.push_back({"C03", gen03, chk03, "def*1 mpi*1"});
  PROPS.push_back({"C04", gen04, chk04, "def*1 mpi*1"});
  PROPS.push_back({"C05", gen05, chk05, "def*2 mpi*2"});
  PROPS.push_back({"C06", gen06, chk06, "def*1 mpi*1"});
  PROPS.push_back({"C07", gen07, chk07, "def*4 mpi*4"});
  PROPS.push_back({"C08", gen08, chk08, "def*1 mpi*1"});
}
