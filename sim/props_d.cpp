// Properties C25 to C28: warm starts, equivalent ways of use, diagnostics, resources.
#include "props.h"
#include <climits>
#include <sstream>

static void benign(Rng &r, Plan &p)
{
  if (r.chance(.5)) p.rules.push_back(Rule{F_SHORT, r.chance(.5) ? .1 : .5});
  if (r.chance(.5)) p.rules.push_back(Rule{F_EINTR, r.chance(.5) ? .1 : .3});
}
static string params_of(const string &info)   // without what loads
{
  size_t c = info.find(','); string out; if (c == string::npos) return out;
  std::stringstream ss(info.substr(c + 1)); string w;
  while (std::getline(ss, w, ',')) if (w.compare(0, 4, "load")) out += (out.empty() ? "" : ",") + w;
  return out;
}

// ================================================================ C25 warm start
static void gen25(Rng &r, Plan &p)
{
  PB b(p, r); common_knobs(r, p); benign(r, p);
  int n = some(r, 1, 3, 8), njobs = r.range(2, 3); vector<GR> g;
  RegOpts o; o.models = {"DecisionTree", "DecisionTree", "RandomForest"}; o.minnp = 2; o.pool = 8; o.pmin = 0; o.deep = r.chance(.3);
  string od = r.chance(.15) ? "APOLLO_OUTPUT_DIR=tuning" : "", dd = r.chance(.15) ? "APOLLO_DATASETS_DIR=db" : "";
  for (int i = 0; i < n; i++) g.push_back(make_region(b, i, o));
  for (int jb = 0; jb < njobs; jb++) {
    b.newjob(); bool last = jb == njobs - 1, pers = !last || r.chance(.6);
    if (pers) b.env("APOLLO_PERSISTENT_DATASETS=1");
    if (!od.empty()) b.env(od);
    if (!dd.empty()) b.env(dd);
    if (r.chance(.3)) b.env("APOLLO_STORE_MODELS=1");
    if (jb && r.chance(.2)) b.env("APOLLO_GLOBAL_TRAIN_PERIOD=" + S(1000000 + r.range(0, 9)));   // far from due
    vector<GR> live; vector<int> late;
    for (int i = 0; i < n; i++) {
      GR x = g[i]; string suf;
      if (jb == 0) { if (r.chance(.4)) { x.model = r.chance(.5) ? "RoundRobin" : "Random"; x.info = x.model; } }
      else if (r.chance(pers ? .4 : .85)) { suf = ",load-dataset"; x.min = r.chance(.5) ? 0 : r.range(1, 40); }
      else x.min = r.chance(.25) ? 0 : r.range(1, r.chance(.3) ? 40 : 12);
      x.capi = r.chance(.2); x.info += suf; live.push_back(x);
      if (jb && r.chance(.15)) late.push_back(i); else emit_reg(b, live[i]);
    }
    auto ask = [&] { if (jb) for (auto &x : live) { for (auto &f : x.pool) b.op("q", cat({S(x.slot), "1"}, f)); for (int z = 0; z < 3; z++) { vector<float> f; for (int q = 0; q < x.nf; q++) f.push_back(feature_value(r, (int)r.below(ST_N))); b.op("q", cat({S(x.slot), "1"}, f)); } } };
    if (r.chance(.5)) ask();
    Mix m{b, live}; m.user = false; m.cost = r.chance(.6) ? "c:" + S(jb) : "";
    m.async = r.chance(.4); m.overlap = r.chance(.4);
    if (jb == 0) for (auto &x : live) b.op("x", cat({S(x.slot), "s", "1", "c:0"}, r.pick(x.pool)));
    for (int i = r.range(jb ? 0 : 2, some(r, 6, 25, 90)); i > 0; i--) { m.step(); if (jb && r.chance(.03)) b.op(r.chance(.5) ? "t" : "fl", {S(i)}); }
    for (int i : late) emit_reg(b, live[i]);
    if (!late.empty()) for (int i = r.range(0, 8); i > 0; i--) m.step();
    m.finish(); ask();
  }
}
static void chk25(const Plan &p, RunResult &r)
{
  // what is loaded must have been saved
  for (size_t j = 0; j < p.jobs.size(); j++) for (auto &o : p.jobs[j].prog[0]) {
    if (o.kind != "reg" || o.a[5].find("load-dataset") == string::npos) continue;
    bool ok = false;
    for (size_t i = 0; i < j && !ok; i++) { bool reg = false; for (auto &q : p.jobs[i].prog[0]) { if (q.kind == "reg" && q.a[1] == o.a[1] && q.a[2] == o.a[2] && q.a[3] == o.a[3] && q.a[5].find("load") == string::npos) reg = true; if (reg && q.kind == "x" && q.a[0] == o.a[0]) ok = env_of(p.jobs[i], "APOLLO_PERSISTENT_DATASETS") == "1" && env_of(p.jobs[i], "APOLLO_OUTPUT_DIR") == env_of(p.jobs[j], "APOLLO_OUTPUT_DIR") && env_of(p.jobs[i], "APOLLO_DATASETS_DIR") == env_of(p.jobs[j], "APOLLO_DATASETS_DIR"); } }
    if (!ok) { r.skip = "plan loads what was not saved"; return; }
  }
  Hist h = execute(p); r.add(h);
  if (!alive(p, h, r)) return;
  struct Saved { IDS d; std::set<DKey> unsure; };
  map<string, Saved> saved;
  Plan q; q.prop = p.prop; q.seed = p.seed; q.knob["latmode"] = 0; q.jobs.push_back(Job()); q.jobs[0].prog.resize(1);
  RunOpts ro; auto &prog = q.jobs[0].prog[0]; vector<std::pair<const OpRec *, int>> asks; int id = 1, fm = 0; bool warm = false;
  for (size_t jb = 0; jb < p.jobs.size(); jb++) {
    const Job &job = p.jobs[jb];
    bool pers = env_of(job, "APOLLO_PERSISTENT_DATASETS") == "1"; string dirs = env_of(job, "APOLLO_OUTPUT_DIR") + "|" + env_of(job, "APOLLO_DATASETS_DIR") + "|";
    bool period = !env_of(job, "APOLLO_GLOBAL_TRAIN_PERIOD").empty() || !env_of(job, "APOLLO_PER_REGION_TRAIN_PERIOD").empty();
    map<int, int> fresh; map<int, bool> trained, tunable; map<int, size_t> size;
    for (auto *o : node_ops(h, (int)jb, 0)) {
      if (o->kind == "reg" && !o->skipped) {
        const RegInfo *ri = h.reg((int)jb, 0, o->slot); const RegSnap &s = o->regs.at(o->slot); string why;
        bool tree = ri->info.find("DecisionTree") == 0 || ri->info.find("RandomForest") == 0; tunable[o->slot] = tree;
        bool ld = ri->info.find("load-dataset") != string::npos;
        static const Saved none; auto k = saved.find(dirs + ri->name); const Saved &v = (pers || ld) && k != saved.end() ? k->second : none;
        if (!ids_match(v.d, *s.ds, &why)) { r.fail("start: region " + ri->name + " of job " + S(jb) + " does not start with the measurements saved for it: " + why); return; }
        bool want = tree && !s.ds->empty() && (ld || (pers && ri->min > 0 && (size_t)ri->min <= s.ds->size()));
        if (tree && !period && want == s.trainable) { r.fail(string(want ? "untuned: " : "early: ") + "region " + ri->name + " (" + ri->info + ", minimum " + S(ri->min) + ") starts job " + S(jb) + " with " + S((i64)s.ds->size()) + " saved measurements and is " + (want ? "not " : "already ") + "tuned"); return; }
        trained[o->slot] = tree && !s.trainable; size[o->slot] = s.ds->size();
        if (jb && tree && !s.ds->empty()) { warm = true; r.count[want ? "probe.tuned_at_start" : "probe.explores_with_saved_data"]++; }
        if (tree && !s.trainable) {
          fresh[o->slot] = ++fm; ro.aux.push_back(*s.ds);
          prog.push_back(Op{id++, "fn", {S(fm), ri->info.substr(0, ri->info.find(',')), S(ri->nf), S(ri->np), params_of(ri->info)}});
          prog.push_back(Op{id++, "ft", {S(fm), S((i64)ro.aux.size() - 1)}});
        }
        continue;
      }
      std::set<int> done; int ndone = 0; for (int e : o->completed) { done.insert(h.execs[e].slot); ndone++; }
      for (auto &s : o->regs) {
        if (!trained.count(s.first) || !tunable[s.first]) continue;
        const RegInfo *ri = h.reg((int)jb, 0, s.first); bool call = o->kind == "t" || o->kind == "fl" || o->kind == "r";
        bool is = !s.second.trainable;
        if (trained[s.first] && !is) { r.fail("forgot: region " + ri->name + " was tuned and explores again after " + where(*o)); return; }
        if (!trained[s.first]) {
          bool due = ri->min > 0 && (size_t)ri->min <= s.second.ds->size() && done.count(s.first), may = due || call || o->kind == "exit";
          if (is && !may && !period) { r.fail("early: region " + ri->name + " with " + S((i64)s.second.ds->size()) + " of " + S(ri->min) + " measurements was tuned by " + where(*o)); return; }
          if (!is && due) { r.fail("late: region " + ri->name + " holds " + S((i64)s.second.ds->size()) + " measurements, saved ones included, of the " + S(ri->min) + " it waits for, and is not tuned after " + where(*o)); return; }
          if (is) {
            // trained here: on the data it now holds, unless more was added within the same call
            if (call || ndone == 1) {
              fresh[s.first] = ++fm; ro.aux.push_back(*s.second.ds);
              prog.push_back(Op{id++, "fn", {S(fm), ri->info.substr(0, ri->info.find(',')), S(ri->nf), S(ri->np), params_of(ri->info)}});
              prog.push_back(Op{id++, "ft", {S(fm), S((i64)ro.aux.size() - 1)}});
            }
            trained[s.first] = true;
          }
        }
      }
      if (!o->out.empty() && fresh.count(o->slot) && (o->kind == "q" || is_exec_kind(o->kind))) {
        // an execution that trains asks before it does
        bool before = false; for (auto &f : prog) (void)f;
        vector<float> f; if (o->kind == "q") for (size_t i = 2; i < o->a.size(); i++) f.push_back((float)parsed(o->a[i])); else f = h.execs[o->exec].features;
        if (o->kind != "q" && o->regs.count(o->slot) && done.count(o->slot)) { auto &x = h.execs[o->exec]; (void)x; const OpRec *prev = nullptr; for (auto *z : node_ops(h, (int)jb, 0)) { if (z == o) break; prev = z; } before = prev && prev->regs.count(o->slot) && prev->regs.at(o->slot).trainable; }
        if (!before) { vector<string> a = {S(fresh[o->slot]), "1"}; for (float x : f) a.push_back(hexd(x)); prog.push_back(Op{id++, "fq", a}); asks.push_back({o, id - 1}); }
      }
    }
    if (pers) for (auto &ri : h.regs) if (ri.job == (int)jb) {
      IDS f; if (!final_ids(p, h, (int)jb, 0, ri.slot, f)) continue;
      saved[dirs + ri.name] = {f, {}};
    }
  }
  if (asks.size()) {
    Hist f = execute(q, ro); r.add(f, false);
    if (!alive(q, f, r)) { r.viol = "reference-" + r.viol; return; }
    for (auto &a : asks) {
      const OpRec *x = f.find(0, 0, a.second);
      if (!x || x->out.empty()) { r.skip = "reference incomplete"; return; }
      for (auto &v : a.first->out) if (x->out[0] != v) { r.fail("differs: a fresh model trained on the saved measurements answers " + x->out[0] + " where the region answers " + v + " in " + where(*a.first) + " (" + h.reg(a.first->job, 0, a.first->slot)->info + ")"); return; }
      r.count["probe.warm_answer_compared"]++;
    }
  }
  r.nontrivial = warm;
  finish_shape(h, r);
}

// ================================================================ C26 equivalent ways of use
static void gen26(Rng &r, Plan &p)
{
  PB b(p, r); common_knobs(r, p); p.knob["latmode"] = r.chance(.7) ? 0 : 1; p.knob["filelat0"] = 1; p.knob["alt"] = (double)r.below(1000000);
  int n = some(r, 1, 3, 8), njobs = r.chance(.35) ? 2 : 1; vector<GR> g; bool async = r.chance(.5), sync = r.chance(.6);
  RegOpts o; o.models = {"DecisionTree", "RandomForest", "DecisionTree", "RandomForest", "PolicyNet", "RoundRobin", "Random", "Static"}; o.maxnf = 4; o.minnf = r.chance(.1) ? 0 : 1;
  for (int i = 0; i < n; i++) { g.push_back(make_region(b, i, o)); if (g[i].model == "PolicyNet" && sync) { g[i].model = "DecisionTree"; g[i].info = "DecisionTree"; } if (g[i].model == "Static") g[i].info = "Static,policy=" + S(r.below(g[i].np)); }
  bool pers = r.chance(.5), store = r.chance(.5), csv = r.chance(.4);
  for (int jb = 0; jb < njobs; jb++) {
    b.newjob();
    if (pers) b.env("APOLLO_PERSISTENT_DATASETS=1");
    if (store) b.env("APOLLO_STORE_MODELS=1");
    if (csv) b.env("APOLLO_TRACE_CSV=1");
    if (r.chance(.25)) b.env("APOLLO_GLOBAL_TRAIN_PERIOD=" + S(r.range(2, 15)));
    else if (r.chance(.2)) b.env("APOLLO_PER_REGION_TRAIN_PERIOD=" + S(r.range(1, 8)));
    for (int i = 0; i < n; i++) { GR x = g[i]; x.capi = r.chance(.3); emit_reg(b, x); }
    Mix m{b, g}; m.user = false; m.overlap = false; m.async = async; m.sync = sync; m.cost = "k:" + S(jb); m.shutready = true;
    for (int i = r.range(3, some(r, 10, 40, 120)); i > 0; i--) {
      m.step();
      if (r.chance(.08)) b.op(r.chance(.5) ? "t" : "fl", {S(i)});
      if (r.chance(.08)) b.op("r", {S(r.below(n)), S(i), "1", "0", r.chance(.5) ? "1" : "0"});
      if (r.chance(.1)) { GR &x = g[r.below(n)]; b.op("q", cat({S(x.slot), "1"}, r.pick(x.pool))); }
    }
  }
  // work of synchronous executions: well separated, so that a few clock ticks never decide
  for (auto &j : p.jobs) for (auto &o2 : j.prog[0]) if (o2.kind == "X" && o2.a.size() > 3) o2.a[3] = "k:w";
}
static void chk26(const Plan &p, RunResult &r)
{
  if (p.jobs.empty()) return;
  Plan q = p; Rng c(hash_of((u64)p.kn("alt"), 77)); bool measured = false; int changed = 0;
  for (auto &j : q.jobs) {
    bool async = false; for (auto &o : j.prog[0]) if (o.kind == "y" || ((o.kind == "x" || o.kind == "X") && (o.a[1] == "c" || o.a[1] == "h"))) async = true;
    bool devs = async;
    string envmodel; int use = c.chance(.5);
    for (auto &o : j.prog[0]) {
      auto &a = o.a;
      if (o.kind == "reg" && a.size() > 7) {
        string cap = c.chance(.5) ? "1" : "0"; if (a[7] != cap) changed++; a[7] = cap;
        if (use && !a[5].empty() && (envmodel.empty() || envmodel == a[5]) && env_of(j, "APOLLO_POLICY_MODEL").empty()) { if (c.chance(.7)) { envmodel = a[5]; a[5] = ""; changed++; } }
      }
      if (o.kind == "x") { static const char *k[] = {"s", "S", "v", "d"}, *k2[] = {"s", "S", "v", "d", "c", "h"}; string w = devs ? k2[c.below(6)] : k[c.below(4)]; if (a[1] == "C") continue; if (w != a[1]) changed++; a[1] = w; }
      if (o.kind == "X" && (a[1] != "c" && a[1] != "h")) { measured = true; static const char *k[] = {"s", "S", "v", "d", "C"}; string w = k[c.below(5)]; if (w != a[1]) changed++; a[1] = w; }
      if (o.kind == "y") { string w = c.chance(.5) ? "c" : "h"; if (w != a[1]) changed++; a[1] = w; }
      if (o.kind == "t" || o.kind == "fl") { string w = c.chance(.5) ? "t" : "fl"; if (w != o.kind) changed++; o.kind = w; }
      if (o.kind == "r" && a.size() > 4 && a[2] == "1" && a[3] == "0") { string w = c.chance(.5) ? "1" : "0"; if (w != a[4]) changed++; a[4] = w; }
    }
    if (!envmodel.empty()) j.env.push_back("APOLLO_POLICY_MODEL=" + envmodel);
  }
  Hist h = execute(p), d = execute(q); r.add(h); r.add(d, false);
  if (!alive(p, h, r)) return;
  if (!alive(q, d, r)) { r.viol = "other-way-" + r.viol; return; }
  for (size_t jb = 0; jb < p.jobs.size(); jb++) {
    for (auto *o : node_ops(h, (int)jb, 0)) {
      const OpRec *x = d.find((int)jb, 0, o->op); if (!x || x->skipped != o->skipped) { r.skip = "an operation did not apply"; return; }
      if (x->out != o->out) { r.fail("differs: " + where(*o) + " recommends " + (o->out.empty() ? "nothing" : o->out[0]) + ", the same execution made as " + where(*x) + " recommends " + (x->out.empty() ? "nothing" : x->out[0])); return; }
      for (auto &s : o->regs) {
        auto i = x->regs.find(s.first); if (i == x->regs.end()) continue; string why;
        if (s.second.trainable != i->second.trainable) { r.fail("tuned: after " + where(*o) + " region " + S(s.first) + " is " + (s.second.trainable ? "not " : "") + "tuned, but the other way after " + where(*x) + " it is" + (i->second.trainable ? " not" : "")); return; }
        bool eq = true;
        if (!measured) eq = ds_equal(*s.second.ds, *i->second.ds, 1e-15, &why);
        else { for (auto &e : *s.second.ds) { auto z = i->second.ds->find(e.first); if (z == i->second.ds->end()) { eq = false; why = show(e.first.first) + " policy " + S(e.first.second) + " is missing"; } else if (std::fabs(z->second - e.second) > 2e-5) { eq = false; char t[100]; snprintf(t, sizeof t, " policy %d: %.17g against %.17g", e.first.second, e.second, z->second); why = show(e.first.first) + t; } } if (eq && s.second.ds->size() != i->second.ds->size()) { eq = false; why = "extra measurements"; } }
        if (!eq) { r.fail("data: after " + where(*o) + " the measurements of region " + S(s.first) + " are not those after " + where(*x) + ": " + why); return; }
      }
    }
    const NodeEnd *e = h.end((int)jb, 0), *f = d.end((int)jb, 0);
    if (e && f && e->total != f->total) { r.fail("total: " + S(e->total) + " executions are reported at exit, the other way " + S(f->total)); return; }
    const Files &A = h.files_job[jb], &B = d.files_job[jb];
    for (auto &fl : A) {
      if (!saved_path(fl.first)) continue;
      auto i = B.find(fl.first);
      if (i == B.end()) { r.fail("files: " + fl.first + " is saved only one way"); return; }
      if (!measured && *fl.second != *i->second) { r.fail("files: " + fl.first + " is saved with other content the other way"); return; }
    }
    for (auto &fl : B) if (saved_path(fl.first) && !A.count(fl.first)) { r.fail("files: " + fl.first + " is saved only the other way"); return; }
  }
  if (changed) { r.nontrivial = true; r.count["probe.calls_made_another_way"] += changed; }
  finish_shape(h, r);
}

// ================================================================ C27 diagnostics
static void gen27(Rng &r, Plan &p)
{
  PB b(p, r); common_knobs(r, p); p.knob["filelat0"] = 1; benign(r, p);
  bool mpi = r.chance(.4); int ranks = mpi ? r.range(2, 3) : 1, njobs = r.chance(.3) ? 2 : 1, n = r.range(1, 3); vector<GR> g; bool coll = mpi && r.chance(.8);
  RegOpts o; o.models = {"DecisionTree", "RandomForest", "DecisionTree", "PolicyNet", "RoundRobin", "Random"}; o.maxnf = 3; o.pmin = coll ? 0 : .3;
  o.style = r.pick(vector<int>{ST_INT, ST_BIGINT, ST_TENTH, ST_REAL});
  for (int i = 0; i < n; i++) g.push_back(make_region(b, i, o));
  bool pers = r.chance(.5), store = r.chance(.5), load = store && njobs == 2 && r.chance(.6);
  for (int jb = 0; jb < njobs; jb++) {
    b.newjob(ranks, mpi ? "mpi" : "def"); if (mpi) { b.job().mpi = true; for (auto &s : b.job().start) s = r.below(1000000); }
    if (coll) { b.env("APOLLO_COLLECTIVE_TRAINING=1"); b.env("APOLLO_LOCAL_TRAINING=0"); }
    if (pers && !mpi) b.env("APOLLO_PERSISTENT_DATASETS=1");
    if (store) b.env("APOLLO_STORE_MODELS=1");
    for (const char *e : {"TRACE_POLICY", "TRACE_BEST_POLICIES", "TRACE_ALLGATHER", "TRACE_CSV", "STORE_EXEC_INFO"}) if (r.chance(.6)) b.env(string("APOLLO_") + e + "=1");
    if (!mpi && r.chance(.2)) b.env("APOLLO_PER_REGION_TRAIN_PERIOD=" + S(r.range(1, 8)));
    int trains = r.range(1, 3); vector<int> steps; for (int i = 0; i < trains; i++) steps.push_back(r.range(0, 4));
    for (int rk = 0; rk < ranks; rk++) {
      b.rank = rk;
      for (auto &x : g) {   // a later run may load what this rank stored, by default or by name
        string suf; if (jb && load && x.trainable() && r.chance(.7)) suf = r.chance(.5) ? ",load" : ",load=.apollo/models/" + x.model + "-latest-rank-" + S(rk) + "-" + x.name + ".yaml";
        emit_reg(b, x, suf);
      }
      Mix m{b, g}; m.sync = false; m.user = false; m.pburst = .02; m.cost = r.chance(.5) ? "c:" + S(rk) : "";
      for (int t = 0; t < trains; t++) {
        for (int i = r.range(0, 20); i > 0; i--) m.step();
        m.finish();
        if (!coll) for (auto &x : g) if (r.chance(.3)) b.op("r", {S(x.slot), S(r.range(0, 9)), "1", r.chance(.5) ? "1" : "0", "0"});
        b.op("t", {S(steps[t])});
      }
      for (int i = r.range(0, 8); i > 0; i--) m.step();
      m.finish();
      if (!jb && load) for (auto &x : g) if (x.trainable()) { b.op("x", cat({S(x.slot), "s", "1", "0.001"}, x.pool[0])); b.op("r", {S(x.slot), "9", "1", "1", "0"}); }
    }
  }
}
static string ints(const vector<float> &f) { string s = "[ "; for (float x : f) s += S((int)x) + ", "; return s + "]"; }
static vector<string> lines_of(const string &s) { vector<string> v; std::istringstream is(s); string l; while (std::getline(is, l)) { string o; std::istringstream ws(l); string w; while (ws >> w) o += (o.empty() ? "" : " ") + w; v.push_back(o); } return v; }
static string sq(const string &s) { vector<string> v = lines_of(s); return v.empty() ? "" : v[0]; }
static void chk27(const Plan &p, RunResult &r)
{
  static const char *D[] = {"APOLLO_TRACE_POLICY=", "APOLLO_TRACE_BEST_POLICIES=", "APOLLO_TRACE_ALLGATHER=", "APOLLO_TRACE_CSV=", "APOLLO_STORE_EXEC_INFO="};
  Plan q = p; bool any = false;
  for (auto &j : q.jobs) for (size_t i = 0; i < j.env.size();) { bool d = false; for (auto *x : D) if (j.env[i].compare(0, strlen(x), x) == 0) d = true; if (d) { j.env.erase(j.env.begin() + i); any = true; } else i++; }
  if (!any) return;
  if (!loads_valid(p)) { r.skip = "plan loads what was not saved"; return; }
  RunOpts ro; ro.snap_files = true;
  Hist h = execute(p, ro), d = execute(q); r.add(h); r.add(d, false);
  if (!alive(q, d, r)) return;
  if (!alive(p, h, r)) { r.viol = "diagnostics-" + r.viol; return; }
  map<string, vector<string>> pol;
  for (size_t jb = 0; jb < p.jobs.size(); jb++) {
    const Job &job = p.jobs[jb]; auto on = [&](const char *e) { return env_of(job, e) == "1"; };
    for (size_t rk = 0; rk < job.prog.size(); rk++) {
      auto ops = node_ops(h, (int)jb, (int)rk); const OpRec *prev = nullptr; string R = S((i64)rk);
      for (auto *o : ops) {
        const OpRec *x = d.find((int)jb, (int)rk, o->op); if (!x || x->skipped != o->skipped) { r.skip = "an operation did not apply"; return; }
        if (x->out != o->out) { r.fail("changes: " + where(*o) + " recommends " + (o->out.empty() ? "nothing" : o->out[0]) + " with diagnostics and " + (x->out.empty() ? "nothing" : x->out[0]) + " without"); return; }
        for (auto &s : o->regs) {
          auto i = x->regs.find(s.first); string why; if (i == x->regs.end()) continue;
          if (s.second.trainable != i->second.trainable) { r.fail("changes: with diagnostics region " + S(s.first) + " is " + (s.second.trainable ? "not " : "") + "tuned after " + where(*o) + ", without the opposite"); return; }
          if (!ds_equal(*s.second.ds, *i->second.ds, 0, &why)) { r.fail("changes: the measurements of region " + S(s.first) + " after " + where(*o) + " are others with diagnostics than without: " + why); return; }
        }
        // recommendations as they are made
        if (on("APOLLO_TRACE_POLICY") && is_exec_kind(o->kind) && o->exec >= 0) {
          const ExecRec &e = h.execs[o->exec]; const RegInfo *ri = h.reg((int)jb, (int)rk, e.slot);
          for (auto &v : o->out) pol["/work/rank-" + R + "-policies.txt"].push_back(sq("Rank " + R + " region " + ri->name + " model ? features " + ints(e.features) + " policy " + v));
        }
        // the best policies a training is made on
        if (on("APOLLO_TRACE_BEST_POLICIES")) {
          int ndone = (int)o->completed.size(); bool call = o->kind == "t" || o->kind == "r" || o->kind == "fl";
          std::set<string> got;
          for (auto &w : o->wrote) {
            size_t z = w.first.rfind("-best_policies.txt"); if (z == string::npos) continue;
            for (auto &s : o->regs) {
              const RegInfo *ri = h.reg((int)jb, (int)rk, s.first); string suf = "-rank-" + R + "-" + ri->name + "-best_policies.txt";
              if (w.first.size() < suf.size() || w.first.compare(w.first.size() - suf.size(), suf.size(), suf)) continue;
              got.insert(ri->name);
              // pending executions collected by the call may themselves make training due, with a step of their own
              bool autos = ri->min > 0 || !env_of(job, "APOLLO_PER_REGION_TRAIN_PERIOD").empty() || !env_of(job, "APOLLO_GLOBAL_TRAIN_PERIOD").empty();
              if (call && ndone && autos) continue;
              if (call && w.first != "/work/step-" + (o->kind == "r" ? o->a[1] : o->a[0]) + suf) { r.fail("misnamed: " + where(*o) + " reports the best policies in " + w.first); return; }
              if (!call && ndone != 1) continue;
              vector<string> l = lines_of(*w.second); std::multiset<string> have; string bad;
              if (l.empty() || l[0] != sq("=== Rank " + R + " BEST POLICIES Region " + ri->name + " ===")) bad = "its first line";
              std::set<vector<float>> fs; for (auto &e : *s.second.ds) fs.insert(e.first.first);
              if (l.size() != fs.size() + 1) bad = S((i64)l.size() - 1) + " lines for " + S((i64)fs.size()) + " feature vectors";
              std::multiset<string> lines(l.begin() + (l.empty() ? 0 : 1), l.end());
              if (bad.empty()) for (auto &f : fs) {
                bool ok = false; double m = INFINITY; std::set<int> best = argmin(*s.second.ds, f);
                for (int b : best) { m = s.second.ds->at(DKey(f, b)); char t[40]; snprintf(t, sizeof t, "%g", m); string want = sq(ints(f) + " P:" + S(b) + " T: " + t); auto i = lines.find(want); if (i != lines.end()) { lines.erase(i); ok = true; break; } }
                if (!ok) { char t[60]; snprintf(t, sizeof t, " (policy %d, metric %.9g)", *best.begin(), m); bad = "no line for " + show(f) + t; break; }
              }
              if (!bad.empty()) { r.fail("best: " + w.first + " as written in " + where(*o) + " is not that of the measurements: " + bad); return; }
              r.count["probe.best_policies_compared"]++; r.nontrivial = true;
            }
          }
          for (auto &s : o->regs) {
            const RegInfo *ri = h.reg((int)jb, (int)rk, s.first);
            bool flip = prev && prev->regs.count(s.first) && prev->regs.at(s.first).trainable && !s.second.trainable, forced = o->kind == "r" && !o->skipped && o->slot == s.first && o->a.size() > 3 && o->a[3] == "1" && !s.second.ds->empty();
            if ((flip || forced) && !got.count(ri->name)) { r.fail("best: region " + ri->name + " was trained by " + where(*o) + " but its best policies were not reported"); return; }
          }
        }
        if (on("APOLLO_TRACE_ALLGATHER") && on("APOLLO_COLLECTIVE_TRAINING") && (o->kind == "t" || o->kind == "fl")) {
          string nme = "/work/step-" + o->a[0] + "-rank-" + R + "-allgather.txt"; PStr txt; for (auto &w : o->wrote) if (w.first == nme) txt = w.second;
          if (!txt) { r.fail("gathered: no report " + nme + " of the collective training in " + where(*o)); return; }
          // which collective training of the job this is: the same count on every rank
          int nth = 0; for (auto *z : ops) { if (z == o) break; if (z->kind == "t" || z->kind == "fl") nth++; }
          std::multiset<string> want; bool ok = true;
          for (size_t k = 0; k < job.prog.size() && ok; k++) {
            auto po = node_ops(h, (int)jb, (int)k); int c = 0; const OpRec *pv = nullptr, *hit = nullptr;
            for (auto *z : po) { if (z->kind == "t" || z->kind == "fl") { if (c == nth) { hit = z; break; } c++; } pv = z; }
            if (!hit || !pv || hit->a[0] != o->a[0]) { ok = false; break; }
            for (auto &s : pv->regs) for (auto &e : *s.second.ds) { char t[40]; snprintf(t, sizeof t, "%g", e.second); want.insert(sq(S((i64)k) + ", " + h.reg((int)jb, (int)k, s.first)->name + ", " + ints(e.first.first) + ", " + S(e.first.second) + ", " + t)); }
          }
          if (ok) {
            vector<string> l = lines_of(*txt); std::multiset<string> have(l.begin() + (l.empty() ? 0 : 1), l.end());
            if (have != want) { string w; for (auto &z : want) if (have.count(z) < want.count(z)) { w = "missing: " + z; break; } if (w.empty()) for (auto &z : have) if (want.count(z) < have.count(z)) { w = "not measured: " + z; break; } r.fail("gathered: " + nme + " of " + where(*o) + " is not what the ranks had measured: " + w); return; }
            r.count["probe.allgather_compared"]++; r.nontrivial = true;
          }
        }
        prev = o;
      }
      if (on("APOLLO_STORE_EXEC_INFO") && job.prog.size() == 1) {
        string dir = env_of(job, "APOLLO_OUTPUT_DIR"); auto f = h.files_job[jb].find((dir.empty() ? outdir() : "/work/" + dir) + "/apollo_exec_info.csv");
        std::multiset<string> want; for (auto &ri : h.regs) if (ri.job == (int)jb) { int c = 0; for (auto &e : h.execs) if (e.job == (int)jb && e.slot == ri.slot) c++; want.insert(ri.name + ", " + S(c)); }
        vector<string> l; if (f != h.files_job[jb].end()) l = lines_of(*f->second);
        if (std::multiset<string>(l.begin(), l.end()) != want) { string a; for (auto &z : l) a += z + "; "; string b; for (auto &z : want) b += z + "; "; r.fail("counts: the execution counts stored at exit of job " + S((i64)jb) + " are " + a + "the regions began " + b); return; }
        r.count["probe.exec_info_compared"]++; if (!want.empty()) r.nontrivial = true;
      }
    }
    for (auto &x : pol) {
      auto f = h.files_job[jb].find(x.first); vector<string> l; if (f != h.files_job[jb].end()) l = lines_of(*f->second);
      for (size_t i = 0; i < l.size() || i < x.second.size(); i++) {
        string a = i < l.size() ? l[i] : "(none)", w = i < x.second.size() ? x.second[i] : "(none)"; string a2 = a; size_t z = a2.find(" model "), y = a2.find(" features "); if (z != string::npos && y != string::npos && y > z) a2 = a2.substr(0, z + 7) + "?" + a2.substr(y);
        if (a2 != w) { r.fail("followed: record " + S((i64)i + 1) + " of " + x.first + " is \"" + a + "\", the recommendation made was \"" + w + "\""); return; }
      }
      if (!l.empty()) { r.nontrivial = true; r.count["probe.recommendation_records_compared"] += l.size(); }
    }
    // nothing else that is saved changes
    const Files &A = h.files_job[jb], &B = d.files_job[jb];
    for (auto &f : B) if (saved_path(f.first)) { auto i = A.find(f.first); if (i == A.end() || *i->second != *f.second) { r.fail("changes: " + f.first + " is saved otherwise with diagnostics than without"); return; } }
  }
  finish_shape(h, r);
}

// ================================================================ C28 resources
static void kk28(Rng &r, Plan &p)
{
  PB b(p, r); b.newjob(1, "kk"); int rounds = r.range(24, 40), nin = r.range(0, 2), nout = r.range(1, 2), ctx = 1;
  if (r.chance(.3)) b.env("APOLLO_TRACE_CSV=1");
  if (r.chance(.3)) b.env("APOLLO_PERSISTENT_DATASETS=1");
  if (r.chance(.3)) b.env("APOLLO_POLICY_MODEL=RandomForest,explore=RoundRobin,num_trees=3");
  b.op("ka", {"--flush-rate=" + S(r.range(1, 6))}); b.op("ki");
  for (int i = 1; i <= nin + nout; i++) {
    bool out = i > nin; int type = (int)r.below(3), n = r.range(1, out ? 3 : 2); vector<string> d = {S(out), string(out ? "o" : "i") + S(i), S(i), S(type), "1", "0", S(n)};
    for (int k = 0; k < n; k++) d.push_back(type == 0 ? hexd(.5 * k) : type == 1 ? S(k + 3) : "s" + S(k));
    b.op("kd", d);
  }
  auto decl = p.jobs[0].prog[0]; auto val = [&](int id) { for (auto &o : decl) if (o.kind == "kd" && o.a[2] == S(id)) return o.a[7 + r.below(atoi(o.a[6].c_str()))]; return string("0"); };
  vector<vector<string>> req; int n = r.range(1, 4);
  for (int k = 0; k < n; k++) { vector<string> a = {S(nin)}; for (int i = 1; i <= nin; i++) { a.push_back(S(i)); a.push_back(val(i)); } int m = r.range(1, nout); a.push_back(S(m)); for (int i = nin + 1; i <= nin + m; i++) a.push_back(S(i)); req.push_back(a); }
  bool w = r.chance(.5);
  for (int k = 0; k < rounds; k++) {
    for (auto &a : req) { vector<string> x = {S(ctx)}; x.insert(x.end(), a.begin(), a.end()); b.op("kr", x); if (w) b.op("w", {"5000"}); b.op("ke", {S(ctx)}); ctx++; }
    b.op("w", {"1"});
  }
}
static void gen28(Rng &r, Plan &p)
{
  PB b(p, r); common_knobs(r, p);
  if (r.chance(.15)) { kk28(r, p); return; }
  bool jit = r.chance(.05), mpi = !jit && r.chance(.2); int ranks = mpi ? 2 : 1; b.newjob(ranks, jit ? "jit" : mpi ? "mpi" : "def"); b.job().mpi = mpi;
  int n = r.range(1, jit ? 1 : 3), rounds = jit ? 18 : r.chance(.08) ? r.range(150, 250) : r.range(24, 40); vector<GR> g;
  RegOpts o; o.models = {"DecisionTree", "RandomForest", "DecisionTree", "PolicyNet", "RoundRobin", "Random", "Static"}; o.maxnp = 3; o.maxnf = 2; o.pool = 2; o.tails = false; o.pmin = mpi ? 0 : .4; if (jit) { o.models = {"DecisionTree", "DecisionTree", "RandomForest"}; o.style = ST_INT; o.pmin = 0; }
  for (int i = 0; i < n; i++) { g.push_back(make_region(b, i, o)); if (g[i].model == "Static") g[i].info = "Static"; if (g[i].model == "PolicyNet") g[i].min = 0; if (jit) { g[i].info = g[i].model + ",max_depth=1,explore=RoundRobin" + (g[i].tree() && g[i].model == "RandomForest" ? ",num_trees=2" : ""); } g[i].capi = r.chance(.2); }
  for (const char *e : {"PERSISTENT_DATASETS", "STORE_MODELS", "TRACE_CSV", "TRACE_POLICY", "TRACE_BEST_POLICIES", "TRACE_ALLGATHER"}) if (r.chance(.25)) b.env(string("APOLLO_") + e + "=1");
  if (mpi) { b.env("APOLLO_COLLECTIVE_TRAINING=1"); b.env("APOLLO_LOCAL_TRAINING=0"); }
  else if (r.chance(.2)) b.env("APOLLO_PER_REGION_TRAIN_PERIOD=" + S(r.range(1, 5)));
  bool train = jit || mpi || r.chance(.6); int tk = mpi ? 0 : jit ? 1 : (int)r.below(3); u64 cs = r.below(9);
  if (!jit && r.chance(.2)) { Rule x{(int)r.pick(vector<int>{F_ENOSPC, F_EIO, F_OPENW, F_CLOSEERR, F_RENAMEERR, F_SHORT, F_EINTR}), r.chance(.5) ? 1 : .5}; if (x.kind == F_EINTR) x.prob = .5; x.from_op = n + 1; x.path = "model"; p.rules.push_back(x); if (!mpi || r.chance(.5)) b.env("APOLLO_STORE_MODELS=1"); }
  for (int rk = 0; rk < ranks; rk++) {
    b.rank = rk;
    for (auto &x : g) emit_reg(b, x);
    // one round, repeated: drawn once as operations relative to its first
    Plan tp; Rng rr(r.next()); PB t(tp, rr); t.newjob(); vector<GR> gg = g; Mix m{t, gg}; m.maxready = 6; m.pburst = 0; m.shutready = false; m.cost = jit || r.chance(.5) ? "c:" + S((i64)cs) : ""; if (jit) m.sync = m.async = m.overlap = m.user = false;
    for (int i = r.range(2, 14); i > 0; i--) m.step();
    m.finish();
    auto &tpl = tp.jobs[0].prog[0];
    for (int k = 0; k < rounds; k++) {
      int base = b.next() - 1;
      for (auto o2 : tpl) {
        if (o2.kind == "y" && o2.a[4] != "0" && o2.a[4] != "-1") o2.a[4] = S(atoi(o2.a[4].c_str()) + base);
        if (o2.kind == "e" && o2.a.size() > 2 && o2.a[2] != "0" && o2.a[2] != "-1") o2.a[2] = S(atoi(o2.a[2].c_str()) + base);
        if ((o2.kind == "b")) o2.a[1] = S(atoi(o2.a[1].c_str()) + 1000 * k);
        if (o2.kind == "u" || o2.kind == "f" || o2.kind == "p" || o2.kind == "m" || o2.kind == "e") o2.a[0] = S(atoi(o2.a[0].c_str()) + 1000 * k);
        b.op(o2.kind, o2.a);
      }
      if (train) { if (tk == 0) b.op("t", {"1"}); else for (auto &x : g) b.op("r", {S(x.slot), "1", "1", tk == 1 && x.trainable() ? "1" : "0", "0"}); }
      b.op("w", {"1"});
    }
  }
}
static bool held28(const Hist &h, int rk, RunResult &r);
static void chk28(const Plan &p, RunResult &r)
{
  if (p.jobs.empty()) return;
  Hist h = execute(p); r.add(h);
  if (!alive(p, h, r)) return;
  for (size_t rk = 0; rk < p.jobs[0].prog.size(); rk++) if (!held28(h, (int)rk, r)) return;
  r.nontrivial = true;
  finish_shape(h, r);
}
static bool held28(const Hist &h, int rk, RunResult &r)
{
  auto ops = node_ops(h, 0, rk);
  // device events: never many more than the executions ever outstanding together need
  int out = 0, most = 0; vector<const OpRec *> marks; std::set<int> seen; map<int, bool> openx;
  for (size_t i = 0; i < ops.size(); i++) {
    const OpRec *o = ops[i];
    if (o->exec >= 0 && !seen.count(o->exec)) { seen.insert(o->exec); if (h.execs[o->exec].async) { out++; } }
    most = std::max(most, out);
    for (int e : o->completed) if (h.execs[e].async) out--;
    if (o->events > 2 * most + 2) { r.fail("events: " + S(o->events) + " device events exist after " + where(*o) + " when at most " + S(most) + " asynchronous executions have been outstanding at once"); return false; }
    if (o->kind == "w" && !o->a.empty() && o->a[0] == "1") marks.push_back(o);
  }
  if (!ops.empty() && ops.back()->kind == "exit" && ops.back()->finished && ops.back()->events > out * 2) { r.fail("events: " + S(ops.back()->events) + " device events are left at exit"); return false; }
  // the same round again and again holds no more memory or files each time
  size_t K = 12; if (marks.size() < K + 4) { r.skip = "too few rounds"; return false; }
  vector<const OpRec *> m(marks.end() - K - 1, marks.end());
  // after minimisation the rounds may no longer be the same
  { vector<const OpRec *> m(marks.begin() + 4, marks.end()); vector<string> r0, cur; bool first = true, on = false; size_t mi = 0;
    for (auto *o : ops) {
      if (o == m[mi]) { if (on) { if (first) { r0 = cur; first = false; } else if (cur != r0) { r.skip = "the rounds differ"; return false; } } cur.clear(); on = true; if (++mi == m.size()) break; continue; }
      if (!on) continue;
      string k = o->kind + (o->skipped ? "-" : ""); for (size_t i = 0; i < o->a.size(); i++) if (!(i == 4 && o->kind == "y") && !(i == 2 && o->kind == "e") && !(i == 0 && (o->kind == "kr" || o->kind == "ke")) && !(i == 1 && o->kind == "b") && !(i == 0 && (o->kind == "u" || o->kind == "f" || o->kind == "p" || o->kind == "m" || o->kind == "e"))) k += " " + o->a[i];
      cur.push_back(k);
    } }
  // only rounds in which the data no longer grew
  map<int, size_t> s0; for (auto &s : m[0]->regs) s0[s.first] = s.second.ds->size();
  for (auto &s : m.back()->regs) if (s0[s.first] != s.second.ds->size()) { r.skip = "the data still grew"; return false; }
  bool obj = true, fd = true, lib = true, fil = true; for (size_t i = 1; i < m.size(); i++) { if (m[i]->libs <= m[i - 1]->libs) lib = false; if (m[i]->nfiles <= m[i - 1]->nfiles) fil = false; if (m[i]->objs <= m[i - 1]->objs) obj = false; if (m[i]->nfds <= m[i - 1]->nfds) fd = false; }
  if (fd) { r.fail("files: each further round of the same operations leaves more files open: " + S(m[0]->nfds) + " before and " + S(m.back()->nfds) + " after " + S((i64)K) + " rounds"); return false; }
  if (fil) { r.fail("disk: each further round of the same operations leaves more files in the directories: " + S(m[0]->nfiles) + " before and " + S(m.back()->nfiles) + " after " + S((i64)K) + " rounds"); return false; }
  if (lib) { r.fail("libraries: each further round of the same operations leaves more libraries loaded: " + S(m[0]->libs) + " before and " + S(m.back()->libs) + " after " + S((i64)K) + " rounds"); return false; }
  if (obj) { r.fail("memory: each further round of the same operations leaves more allocations: " + S(m[0]->objs) + " before and " + S(m.back()->objs) + " after " + S((i64)K) + " rounds"); return false; }
  // bytes: three thirds, each wholly above the one before (a table that grows makes few, ever larger allocations)
  if (marks.size() >= 20) {
    vector<long> lo, hi; size_t b0 = 8, k = (marks.size() - b0) / 3; map<int, size_t> sz; for (auto &s : marks[b0 - 4]->regs) sz[s.first] = s.second.ds->size(); bool grew = false; for (auto &s : marks.back()->regs) if (sz[s.first] != s.second.ds->size() || !marks[b0 - 4]->regs.count(s.first) || marks[b0 - 4]->regs.at(s.first).trainable != s.second.trainable) grew = true;
    for (int t = 0; t < 3; t++) { long a = LONG_MAX, z = LONG_MIN; for (size_t i = b0 + t * k; i < b0 + (t + 1) * k; i++) { a = std::min(a, marks[i]->heap); z = std::max(z, marks[i]->heap); } lo.push_back(a); hi.push_back(z); }
    if (!grew && marks.size() >= 140) {   // or it never falls, and rises in ever larger steps
      int jumps = 0; bool falls = false; for (size_t i = 41; i < marks.size(); i++) { long d = marks[i]->heap - marks[i - 1]->heap; if (d < 0) falls = true; if (d >= 256) jumps++; }
      if (!falls && jumps >= 2) { r.fail("memory: rounds of the same operations hold ever more memory: " + S(marks[40]->heap) + " bytes after 40, " + S(marks.back()->heap) + " after " + S((i64)marks.size()) + " rounds"); return false; }
    }
    if (!grew && lo[1] > hi[0] && lo[2] > hi[1] && lo[2] > hi[0] + 512) { r.fail("memory: rounds of the same operations hold ever more memory: at most " + S(hi[0]) + ", then " + S(hi[1]) + ", then at least " + S(lo[2]) + " bytes"); return false; }
  }
  return true;
}
void register_d()
{
  PROPS.push_back({"C25", gen25, chk25, "def*4 mpi*4"});
  PROPS.push_back({"C26", gen26, chk26, "def*4 mpi*4"});
  PROPS.push_back({"C27", gen27, chk27, "def*4 mpi*12"});
  PROPS.push_back({"C28", gen28, chk28, "def*1 jit*1 mpi*2 kk*1"});
}
