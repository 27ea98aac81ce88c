// Properties C18 to C24: Kokkos, JIT, policy networks, independence, single model, fixed policies, asynchrony.
#include "props.h"
#include <sstream>

static bool starts(const string &s, const char *p) { return s.compare(0, strlen(p), p) == 0; }
static vector<float> args_f(const OpRec &o, size_t i) { vector<float> f; for (; i < o.a.size(); i++) f.push_back((float)parsed(o.a[i])); return f; }
static int max_id_c(const Plan &p, int j, int rk) { int m = 0; for (auto &o : p.jobs[j].prog[rk]) m = std::max(m, o.id); return m; }

// ================================================================ C24 asynchronous executions
static void gen24(Rng &r, Plan &p)
{
  PB b(p, r); common_knobs(r, p); b.newjob();
  if (r.chance(.4)) b.env("APOLLO_PERSISTENT_DATASETS=1");
  if (r.chance(.3)) b.env("APOLLO_GLOBAL_TRAIN_PERIOD=" + S(r.range(1, 12)));
  if (r.chance(.2)) b.env("APOLLO_PER_REGION_TRAIN_PERIOD=" + S(r.range(1, 9)));
  if (r.chance(.2)) b.env("APOLLO_TRACE_CSV=1");
  if (r.chance(.2)) b.env("APOLLO_STORE_MODELS=1");
  RegOpts o; o.models = {"DecisionTree", "RoundRobin", "PolicyNet", "RandomForest", "Static"}; o.style = ST_INT; o.pool = 4; o.pmin = .3; o.maxnp = 4;
  vector<GR> g; int n = r.range(1, 3); for (int i = 0; i < n; i++) { g.push_back(make_region(b, i, o)); emit_reg(b, g.back()); }
  Mix m{b, g}; m.maxready = r.chance(.5) ? 5 : 40; m.sync = r.chance(.5); m.supplied = r.chance(.6); m.unique = r.chance(.5); m.dep = r.chance(.3);
  int len = r.range(6, 60);
  for (int i = 0; i < len; i++) {
    m.step();
    if (r.chance(.05)) b.op(r.chance(.8) ? "t" : "fl", {S(i)});
    if (r.chance(.05)) { int k = r.range(0, n - 1); b.op("r", {S(k), S(i), r.chance(.8) ? "1" : "0", g[k].trainable() && r.chance(.3) ? "1" : "0", S(r.chance(.1))}); }
    if (r.chance(.05)) b.op("w", {S(r.below(20000000))});
  }
  if (r.chance(.7)) m.finish();
}
static void chk24(const Plan &p, RunResult &r)
{
  Hist h = execute(p); r.add(h);
  if (!alive(p, h, r)) return;
  map<int, bool> tr; vector<std::pair<int, std::set<int>>> chances;  // op index -> slots it must account for
  for (size_t i = 0; i < h.ops.size(); i++) {
    const OpRec &o = h.ops[i]; std::set<int> s;
    if (o.kind != "exit" && !o.skipped) {
      if (o.blocking) { r.fail("blocks: " + where(o) + " waited for the device"); return; }
      if (o.maxpolls > 1) { r.fail("polls: " + where(o) + " asked the same outstanding execution " + S(o.maxpolls) + " times whether it has completed"); return; }
      if (o.exec >= 0 && h.execs[o.exec].end_ix == (int)i && (h.execs[o.exec].async || h.execs[o.exec].supplied)) s.insert(o.slot);
      if (o.kind == "t" || o.kind == "fl") {
        // a completion noticed in the call may be the one that makes the periodic training of all regions due: then this region is no longer to be trained when its turn comes
        bool due = !env_of(p.jobs[0], "APOLLO_GLOBAL_TRAIN_PERIOD").empty() && !o.completed.empty();
        for (auto &t : tr) if (t.second && !due) s.insert(t.first);
      }
      if (o.kind == "r" && o.slot >= 0 && (o.a.size() > 4 && o.a[4] == "1" ? tr[o.slot] : o.a[2] == "1" && (tr[o.slot] || o.a[3] == "1"))) s.insert(o.slot);
    }
    if (!s.empty()) chances.push_back({(int)i, s});
    for (auto &x : o.regs) tr[x.first] = x.second.trainable;
  }
  for (auto &x : h.execs) {
    if (!x.async || x.supplied || !x.ended) continue;
    if (x.done_ix < 0) { r.fail("undrained: the asynchronous execution of slot " + S(x.slot) + " that ended at op " + S(x.end_op) + " was not accounted even at shutdown"); return; }
    if (x.done_ix != x.end_ix) r.nontrivial = true;
    for (auto &c : chances) {
      if (c.first < x.end_ix || !c.second.count(x.slot) || x.ready_op < 0 || h.ops[c.first].op < x.ready_op) continue;
      if (x.done_ix > c.first) { r.fail("late: the asynchronous execution of slot " + S(x.slot) + " that ended at op " + S(x.end_op) + " had completed before " + where(h.ops[c.first]) + ", which did not account for it"); return; }
      break;
    }
  }
  finish_shape(h, r);
}

// ================================================================ C23 fixed and replayed policies
static void gen23(Rng &r, Plan &p)
{
  PB b(p, r); common_knobs(r, p);
  int scen = r.range(0, 4);   // static by region, static by environment, static per region name, replay, dataset map
  p.knob["scen"] = scen;
  auto common = [&] {
    if (r.chance(.3)) b.env("APOLLO_GLOBAL_TRAIN_PERIOD=" + S(r.range(1, 8)));
    if (r.chance(.3)) b.env("APOLLO_PER_REGION_TRAIN_PERIOD=" + S(r.range(1, 8)));
    if (r.chance(.3)) b.env("APOLLO_PERSISTENT_DATASETS=1");
    if (r.chance(.2)) b.env("APOLLO_STORE_MODELS=1");
    if (r.chance(.2)) b.env("APOLLO_TRACE_CSV=1");
  };
  int n = r.range(1, 4); if (scen == 2 && r.chance(.3)) n = r.range(10, 16); vector<GR> g;
  RegOpts o; o.models = {"Static"}; o.minnf = scen == 4 ? 1 : 0; o.pool = 5; o.maxnp = 8; o.pmin = .3;
  if (scen == 4) {
    b.newjob(); b.env("APOLLO_PERSISTENT_DATASETS=1");
    o.models = {"RoundRobin", "Random", "DecisionTree"};
    for (int i = 0; i < n; i++) { g.push_back(make_region(b, i, o)); emit_reg(b, g.back()); }
    Mix m{b, g}; m.sync = false; m.async = r.chance(.5); m.user = false; m.cost = (r.chance(.7) ? "c:" : "g:") + S(r.below(99));
    for (int i = 0; i < n; i++) b.op("x", cat({S(i), "s", "1", m.cost}, r.pick(g[i].pool)));
    for (int i = r.range(2, 60); i > 0; i--) m.step();
    m.finish();
    for (auto &x : g) { x.model = x.info = "DatasetMap"; x.min = 0; }
    b.newjob(); common();
    for (auto &x : g) emit_reg(b, x);
    m.open.clear(); m.cost = "";
    for (int i = r.range(4, 40); i > 0; i--) { if (r.chance(.3)) { int k = (int)r.below(n); b.op("q", cat({S(k), "1"}, r.pick(g[k].pool))); } else m.step(); if (r.chance(.1)) b.op("t", {S(i)}); }
    m.finish();
    if (r.chance(.3)) { int k = (int)r.below(n); vector<float> f = r.pick(g[k].pool); f[0] += 12345; b.op("q", cat({S(k), "1"}, f)); }
    return;
  }
  b.newjob();
  if (scen < 3 && r.chance(.15)) { b.env("APOLLO_SINGLE_MODEL=1"); b.env("APOLLO_REGION_MODEL=0"); } else common();
  string all = "StaticRegion"; int glob = r.range(0, 9);
  if (scen == 1) b.env("APOLLO_POLICY_MODEL=" + string(glob == 9 ? "Static" : "Static,policy=" + S(glob)));
  for (int i = 0; i < n; i++) {
    GR x = make_region(b, i, o);
    if (scen == 0) x.info = r.chance(.1) ? "Static" : "Static,policy=" + S(r.range(0, x.np + 2));
    if (scen == 1) x.info = "";
    if (scen == 2) { x.info = ""; string one = "," + x.name + "=" + S(r.range(0, x.np + 2)); if (r.chance(.5)) all += one; else all.insert(strlen("StaticRegion"), one); }
    if (scen == 3) { x.model = x.info = "Optimal"; }
    g.push_back(x);
  }
  if (scen == 2) b.env("APOLLO_POLICY_MODEL=" + all);
  int len = r.range(4, r.chance(.03) ? 400 : 50);
  if (scen == 3) for (auto &x : g) { string s; int k = r.range(1, len + 10); for (int i = 0; i < k; i++) s += (i ? "," : "") + S(r.range(0, x.np - 1)); b.op("mk", {"/work/opt-" + x.name + "-rank-0.txt", s + (r.chance(.5) ? "\n" : "")}); }
  bool c = r.chance(.2);
  for (auto &x : g) { x.capi = c && scen != 1 && scen != 2; emit_reg(b, x); }
  int own = scen == 3 && r.chance(.3) ? (int)r.below(n) : -1;   // a model of its own that replays the same file
  if (own >= 0) b.op("fp", {"100", "Optimal", S(g[own].np), "/work/opt-" + g[own].name + "-rank-0.txt"});
  Mix m{b, g};
  for (int i = 0; i < len; i++) {
    m.step();
    if (own >= 0 && r.chance(.3)) b.op("fq", cat({"100", S(r.range(1, 4))}, m.feats(g[own])));
    if (r.chance(.1)) { int k = (int)r.below(n); b.op("q", cat({S(k), S(r.range(1, 4))}, m.feats(g[k]))); }
    if (r.chance(.1)) b.op(r.chance(.7) ? "t" : "fl", {S(i)});
    if (r.chance(.05)) b.op("r", {S((i64)r.below(n)), S(i), "1", "0"});
  }
  m.finish();
}
static void chk23(const Plan &p, RunResult &r)
{
  if (!loads_valid(p)) { r.skip = "plan loads what was not saved"; return; }
  int scen = (int)p.kn("scen"), jb = scen == 4 ? 1 : 0;
  if ((int)p.jobs.size() <= jb) return;
  Hist h = execute(p); r.add(h);
  if (h.hang || h.deadlock) { alive(p, h, r); return; }
  map<int, DS> data; map<int, vector<int>> seq; map<int, size_t> used;
  string env = env_of(p.jobs[jb], "APOLLO_POLICY_MODEL");
  bool stop = false; int stop_op = -1; string whystop;
  for (auto *o : node_ops(h, jb, 0)) {
    if (o->kind == "reg" && !o->skipped && o->slot >= 0 && scen == 4) {
      auto f = h.files_job[0].find(dsfile(o->a[1]));
      DsFile d; if (f != h.files_job[0].end()) d = parse_dataset(*f->second);
      if (!d.ok || d.ds.empty()) { r.skip = "no dataset"; return; }
      data[o->slot] = d.ds;
    }
    if (o->kind == "reg" && scen == 3 && o->slot >= 0) {
      string text; for (auto &q : p.jobs[jb].prog[0]) if (q.kind == "mk" && q.a[0] == "/work/opt-" + o->a[1] + "-rank-" + S((i64)p.kn("asrank")) + ".txt") text = q.a[1];
      if (text.empty()) { r.skip = "no recorded sequence"; return; }
      std::istringstream is(text); string w; while (std::getline(is, w, ',')) seq[o->slot].push_back(atoi(w.c_str()));
    }
    if (o->kind == "fp" && scen == 3) {
      string text; for (auto &q : p.jobs[jb].prog[0]) if (q.kind == "mk" && q.a[0] == o->a[3]) text = q.a[1];
      if (text.empty()) { r.skip = "no recorded sequence"; return; }
      std::istringstream is(text); string w; while (std::getline(is, w, ',')) seq[-100].push_back(atoi(w.c_str()));
    }
    if (o->kind == "fq" && scen == 3 && !o->skipped) {
      for (auto &s : o->out) {
        size_t k = used[-100]++;
        if (k >= seq[-100].size() || atoi(s.c_str()) != seq[-100][k]) { r.fail("not-followed: a model made from the file of a recorded sequence answers " + s + " to request " + S((i64)k) + " of " + S((i64)seq[-100].size()) + " in " + where(*o)); return; }
        r.nontrivial = true;
      }
      if (!o->finished) { stop = used[-100] >= seq[-100].size(); stop_op = o->op; }
    }
    if (o->slot < 0 || o->skipped || !(is_exec_kind(o->kind) || o->kind == "q")) continue;
    const RegInfo *ri = h.reg(jb, 0, o->slot); if (!ri) continue;
    string info = ri->info.empty() ? env : ri->info;
    vector<float> f;
    if (o->kind == "q") f = args_f(*o, 2); else if (o->exec >= 0) f = h.execs[o->exec].features; else if (o->kind == "x" || o->kind == "X") f = args_f(*o, 4); else if (o->kind == "y") f = args_f(*o, 6);
    for (auto &s : o->out) {
      int v = atoi(s.c_str()); std::set<int> want;
      if (scen == 3) {
        if (used[o->slot] >= seq[o->slot].size()) { r.fail("exhausted: region " + ri->name + " answers " + s + " in " + where(*o) + " although its recorded sequence of " + S(seq[o->slot].size()) + " is used up"); return; }
        want.insert(seq[o->slot][used[o->slot]++]);
      } else if (scen == 4) {
        want = argmin(data[o->slot], f);
        if (want.empty()) { r.fail("exhausted: region " + ri->name + " answers " + s + " for features " + show(f) + " that are not in its dataset"); return; }
      } else {
        int w = 0; size_t q;
        if (starts(info, "StaticRegion")) { q = info.find("," + ri->name + "="); if (q == string::npos) { r.skip = "region not named"; return; } w = atoi(info.c_str() + q + ri->name.size() + 2); }
        else if ((q = info.find("policy=")) != string::npos) w = atoi(info.c_str() + q + 7);
        want.insert(w < ri->np ? w : 0);
      }
      if (!want.count(v)) { r.fail("not-followed: region " + ri->name + " (" + info + ", " + S(ri->np) + " policies) recommends " + s + " instead of " + S(*want.begin()) + " in " + where(*o)); return; }
      r.nontrivial = true;
    }
    if (!o->finished) {   // did it have a reason to stop here?
      stop = scen == 3 ? used[o->slot] >= seq[o->slot].size() : scen == 4 && (f.empty() || argmin(data[o->slot], f).empty());
      stop_op = o->op;
    }
  }
  const NodeEnd *e = h.end(jb, 0);
  if (e && e->death != D_EXIT && stop && e->op == stop_op && (e->death == D_ABORT || e->death == D_EXITCALL)) { r.count["probe.stopped_when_exhausted"]++; }
  else if (!alive(p, h, r)) return;
  finish_shape(h, r);
}

// ================================================================ C21 independence of regions
static void gen21(Rng &r, Plan &p)
{
  PB b(p, r); common_knobs(r, p);
  int n = r.range(2, 4), njobs = r.chance(.3) ? 2 : 1; p.knob["target"] = (double)r.below(n);
  RegOpts o; o.models = {"DecisionTree", "RandomForest", "PolicyNet", "RoundRobin", "Random", "DecisionTree", "Static"}; o.pool = 6; o.pmin = .3; o.maxnp = 5;
  vector<GR> g; 
  bool persist = r.chance(.5), store = r.chance(.5);
  for (int jb = 0; jb < njobs; jb++) {
    b.newjob();
    if (persist) b.env("APOLLO_PERSISTENT_DATASETS=1");
    if (r.chance(.4)) b.env("APOLLO_PER_REGION_TRAIN_PERIOD=" + S(r.range(1, 15)));
    if (r.chance(.3)) b.env("APOLLO_TRACE_CSV=1");
    if (r.chance(.1)) b.env("APOLLO_TRACE_BEST_POLICIES=1");
    if (store) b.env("APOLLO_STORE_MODELS=1");
    if (!jb) for (int i = 0; i < n; i++) { GR x = make_region(b, i, o); if (r.chance(.3) && i) { x.info = g[0].info; x.model = g[0].model; x.nf = g[0].nf; x.np = g[0].np; x.pool = g[0].pool; } g.push_back(x); }
    int made = r.range(1, n); vector<GR> live; string suf;
    for (int i = 0; i < made; i++) { emit_reg(b, g[i]); live.push_back(g[i]); }
    Mix m{b, live}; m.sync = false; m.user = r.chance(.5); m.async = r.chance(.7); m.cost = r.chance(.5) ? "c:" + S(r.below(99)) : ""; m.shutready = r.chance(.5);
    int len = r.range(8, 60);
    for (int i = 0; i < len; i++) {
      m.step();
      if ((int)live.size() < n && r.chance(.1)) { emit_reg(b, g[live.size()]); live.push_back(g[live.size()]); }
      if (r.chance(.1)) { int k = (int)r.below(live.size()); b.op("q", cat({S(k), S(r.range(1, 3))}, m.feats(live[k]))); }
      if (r.chance(.05)) b.op("t", {S(i)});
      if (r.chance(.1)) { int k = (int)r.below(live.size()); b.op("r", {S(k), S(i), r.chance(.8) ? "1" : "0", live[k].trainable() && r.chance(.5) ? "1" : "0"}); }
      if (r.chance(.03)) b.op("w", {S(r.below(5000000))});
    }
    m.finish();
  }
}
static void chk21(const Plan &p, RunResult &r)
{
  for (auto &j : p.jobs) if (!env_of(j, "APOLLO_GLOBAL_TRAIN_PERIOD").empty()) return;
  Hist h = execute(p); r.add(h);
  if (!alive(p, h, r)) return;
  int t = (int)p.kn("target"); string T = S(t), name;
  Plan q = p; q.explicit_only = p.explicit_only;
  for (auto &j : q.jobs) {
    map<string, string> owner;  // ctx -> slot
    for (auto &o : j.prog[0]) if (o.kind == "b") owner[o.a[1]] = o.a[0];
    vector<Op> keep;
    for (auto &o : j.prog[0]) {
      if (o.kind == "reg" && o.a[0] == T) name = o.a[1];
      bool mine = o.kind == "t" || o.kind == "w";
      if (o.kind == "reg" || o.kind == "b" || o.kind == "x" || o.kind == "X" || o.kind == "y" || o.kind == "r" || o.kind == "q") mine = o.a[0] == T;
      if (o.kind == "u" || o.kind == "f" || o.kind == "p" || o.kind == "e" || o.kind == "m") mine = owner[o.a[0]] == T;
      if (mine) keep.push_back(o);
    }
    j.prog[0] = keep;
  }
  Hist s = execute(q); r.add(s, false);
  if (!alive(q, s, r)) return;
  int others = 0;
  for (size_t jb = 0; jb < p.jobs.size(); jb++) {
    for (auto &e : h.execs) if (e.job == (int)jb && e.slot != t) others++;
    for (auto *b : node_ops(s, (int)jb, 0)) {
      const OpRec *a = h.find((int)jb, 0, b->op);
      if (!a) continue;
      if (a->skipped != b->skipped) { r.skip = "operation applicable in one run only"; return; }
      if (b->kind != "t" && a->out != b->out) { r.fail("answer: region " + name + " answers " + (a->out.empty() ? "nothing" : a->out[0]) + " in " + where(*a) + ", but " + (b->out.empty() ? "nothing" : b->out[0]) + " when the other regions are left out"); return; }
      auto x = a->regs.find(t), y = b->regs.find(t);
      if ((x == a->regs.end()) != (y == b->regs.end())) continue;
      if (x != a->regs.end()) {
        string why;
        if (x->second.trainable != y->second.trainable) { r.fail(string("training: region ") + name + " is " + (x->second.trainable ? "still exploring" : "trained") + " after " + where(*a) + " but not so when the other regions are left out"); return; }
        if (!ds_equal(*x->second.ds, *y->second.ds, 0, &why)) { r.fail("data: the data of region " + name + " after " + where(*a) + " differs from the run without the other regions: " + why); return; }
        if (!x->second.ds->empty()) r.nontrivial = true;
      }
    }
    // its files
    for (auto &f : s.files_job[jb]) {
      if (f.first.find(name) == string::npos || name.empty() || f.first.find("trace-") != string::npos || f.first.find("rank-0-policies") != string::npos) continue;
      auto i = h.files_job[jb].find(f.first);
      if (i == h.files_job[jb].end()) { r.fail("file: " + f.first + " is not written when other regions run too"); return; }
      bool dsf = f.first.find("/Dataset-") != string::npos;
      if (dsf) { string why; DsFile x = parse_dataset(*i->second), y = parse_dataset(*f.second); if (x.ok != y.ok || !ds_equal(x.ds, y.ds, 0, &why)) { r.fail("file: the saved dataset of region " + name + " differs from the run without the other regions: " + why); return; } }
      else if (*i->second != *f.second) { r.fail("file: " + f.first + " differs from the run without the other regions"); return; }
    }
  }
  r.nontrivial = r.nontrivial && others > 0;
  finish_shape(h, r);
}

// ================================================================ C22 single model
static void gen22(Rng &r, Plan &p)
{
  PB b(p, r); common_knobs(r, p);
  int ranks = r.chance(.15) ? r.range(2, 3) : 1;
  if (ranks > 1) { b.newjob(ranks, "mpi"); b.job().mpi = true; b.env("APOLLO_COLLECTIVE_TRAINING=1"); b.env("APOLLO_LOCAL_TRAINING=0"); for (auto &s : b.job().start) s = r.below(1000000); }
  else b.newjob();
  b.env("APOLLO_SINGLE_MODEL=1"); b.env("APOLLO_REGION_MODEL=0");
  int n = r.range(1, 3); bool period = ranks == 1 && r.chance(.2);
  if (r.chance(.4)) b.env("APOLLO_PERSISTENT_DATASETS=1");
  if (period) b.env("APOLLO_GLOBAL_TRAIN_PERIOD=" + S(r.range(3, 30)));
  RegOpts o; o.models = {"DecisionTree", "DecisionTree", "RandomForest"}; o.pool = 8; o.minnp = 2; o.maxnp = 5; o.pmin = 0; o.deep = r.chance(.4);
  GR x = make_region(b, 0, o); vector<GR> g; size_t e;
  if ((e = x.info.find(",explore=Random")) != string::npos) x.info.erase(e, 15);
  for (int i = 0; i < n; i++) { GR y = x; y.slot = i; y.name = (r.chance(.5) ? "s" : "z") + S(9 - i); g.push_back(y); }
  int rounds = r.range(1, 3); bool t1 = r.chance(.3), t2 = r.chance(.3);
  for (b.rank = 0; b.rank < ranks; b.rank++) {
  int made = period ? n : r.range(1, n); vector<GR> live;
  if (t1) b.op("t", {"0"});
  for (int i = 0; i < made; i++) { emit_reg(b, g[i]); live.push_back(g[i]); }
  if (t2) b.op("t", {"0"});
  for (int k = 0; k < rounds; k++) {
    Mix m{b, live}; m.sync = false; m.async = r.chance(.3); m.user = false; m.cost = (r.chance(.5) ? "c:" : "r:") + S(r.below(99));
    if (r.chance(.3)) m.cost = "";
    for (int i = r.range(0, 40); i > 0; i--) m.step();
    m.finish();
    if (!(period && r.chance(.7))) b.op(r.chance(.9) ? "t" : "fl", {S(k)});
    for (auto &f : x.pool) for (auto &y : live) b.op("q", cat({S(y.slot), "1"}, f));
    for (int z = 0; z < 3; z++) { vector<float> f; for (int q = 0; q < x.nf; q++) f.push_back(feature_value(r, (int)r.below(ST_N))); for (auto &y : live) b.op("q", cat({S(y.slot), "1"}, f)); }
    while ((int)live.size() < n && r.chance(.6)) { emit_reg(b, g[live.size()]); live.push_back(g[live.size()]); }
  }
  }
}
static bool pooled(const vector<PDS> &v, DS &out)
{
  vector<int> ix; for (size_t i = 0; i < v.size(); i++) ix.push_back((int)i);
  bool first = true; map<vector<float>, int> lab;
  do {
    DS d;
    for (int i : ix) for (auto &e : *v[i]) { auto k = d.find(e.first); if (k == d.end()) d[e.first] = e.second; else k->second = .5 * k->second + .5 * e.second; }
    map<vector<float>, int> l; for (auto &e : d) { auto s = argmin(d, e.first.first); if (s.size() > 1) return false; l[e.first.first] = *s.begin(); }
    // close values could be ordered differently by another rounding
    for (auto &e : d) { double m = d[DKey(e.first.first, l[e.first.first])]; if (e.first.second != l[e.first.first] && near(m, e.second, 1e-9)) return false; }
    if (first) { lab = l; out = d; first = false; } else if (l != lab) return false;
  } while (std::next_permutation(ix.begin(), ix.end()));
  return true;
}
static void chk22(const Plan &p, RunResult &r)
{
  if (env_of(p.jobs[0], "APOLLO_SINGLE_MODEL") != "1" || env_of(p.jobs[0], "APOLLO_REGION_MODEL") != "0") { r.skip = "not a single-model run"; return; }
  int ranks = (int)p.jobs[0].prog.size();
  if (ranks > 1) { std::set<size_t> tc; for (auto &pr : p.jobs[0].prog) { size_t n = 0; for (auto &o : pr) n += o.kind == "t" || o.kind == "fl"; tc.insert(n); } if (tc.size() > 1) { r.skip = "unequal training calls"; return; } }
  Hist h = execute(p); r.add(h);
  if (!alive(p, h, r)) return;
  Plan q; q.prop = p.prop; q.seed = p.seed; q.knob["latmode"] = 0; q.jobs.push_back(Job()); q.jobs[0].prog.resize(1);
  RunOpts ro; vector<std::pair<const OpRec *, int>> asks; auto &prog = q.jobs[0].prog[0]; int id = 1, fm = 0;
  for (int rk = 0; rk < ranks; rk++) {
  int cur = 0;
  map<int, RegSnap> prev; map<int, int> explore; std::set<int> trained;
  for (auto *o : node_ops(h, 0, rk)) {
    if ((is_exec_kind(o->kind) || o->kind == "q") && o->slot >= 0 && !o->skipped) {
      const RegInfo *ri = h.reg(0, rk, o->slot);
      if (!trained.count(o->slot)) for (auto &s : o->out) { int e = explore[o->slot]; if (atoi(s.c_str()) != e) { r.fail("explores-not: region " + ri->name + " has not been trained, but answers " + s + " instead of its next exploration step " + S(e) + " in " + where(*o)); return; } explore[o->slot] = (e + 1) % ri->np; }
      else if (o->kind == "q" && cur) { vector<string> a = o->a; a[0] = S(cur); a[1] = "1"; prog.push_back(Op{id, "fq", a}); asks.push_back({o, id++}); }
    }
    if (o->kind == "exit") break;
    bool call = (o->kind == "t" || o->kind == "fl") && !o->skipped, tr = false, any = false;
    for (auto &s : o->regs) { if (prev.count(s.first) && prev[s.first].trainable && !s.second.trainable) tr = true; if (prev.count(s.first) && !prev[s.first].ds->empty()) any = true; if (ranks > 1 && !s.second.ds->empty()) any = true; }
    if (call && ranks == 1 && o->completed.empty()) for (auto &s : o->regs) { string why; if (prev.count(s.first) && !ds_equal(*prev[s.first].ds, *s.second.ds, 0, &why)) { r.fail("data: " + where(*o) + " changed the data of region " + h.reg(0, rk, s.first)->name + ": " + why); return; } }
    if (call && !any && tr) { r.fail("empty: " + where(*o) + " trained regions although nothing was measured"); return; }
    if (call && any) for (auto &s : o->regs) if (s.second.trainable) { r.fail("missed: region " + h.reg(0, rk, s.first)->name + " still explores after " + where(*o)); return; }
    if ((call && any) || tr) {
      if (tr && !call) for (auto &s : o->regs) if (s.second.trainable) { r.fail("partial: " + where(*o) + " trained only some of the regions"); return; }
      vector<PDS> v; for (auto &s : o->regs) { v.push_back(s.second.ds); trained.insert(s.first); }
      DS d;
      // executions completed in the same call after the training are in the data now, but were not in its pool
      if (o->completed.size() <= 1 && pooled(v, d)) {
        const RegInfo *ri = h.reg(0, rk, o->regs.begin()->first); size_t c = ri->info.find(',');
        cur = ++fm; ro.aux.push_back(d);
        prog.push_back(Op{id++, "fn", {S(fm), ri->info.substr(0, c), S(ri->nf), S(ri->np), c == string::npos ? "" : ri->info.substr(c + 1)}});
        prog.push_back(Op{id++, "ft", {S(fm), S((i64)ro.aux.size() - 1)}});
      } else { cur = 0; r.count["probe.order_sensitive_pool"]++; }
    }
    for (auto &s : o->regs) prev[s.first] = s.second;
  }
  }
  // the same answer everywhere, whatever the pool
  for (int rk = 0; rk < ranks; rk++) {
  map<string, std::pair<string, string>> same;
  for (auto *o : node_ops(h, 0, rk)) {
    if (o->kind != "q") { same.clear(); continue; }
    if (o->out.empty() || o->slot < 0 || !o->regs.count(o->slot) || o->regs.at(o->slot).trainable) continue;
    string k; for (size_t i = 2; i < o->a.size(); i++) k += o->a[i] + " ";
    auto i = same.find(k);
    if (i == same.end()) same[k] = {o->out[0], h.reg(0, rk, o->slot)->name};
    else if (i->second.first != o->out[0]) { r.fail("unequal: region " + h.reg(0, rk, o->slot)->name + " answers " + o->out[0] + " where region " + i->second.second + " answers " + i->second.first + " in " + where(*o)); return; }
  }
  }
  if (asks.empty()) { finish_shape(h, r); return; }
  Hist f = execute(q, ro); r.add(f, false);
  if (!alive(q, f, r)) { r.viol = "reference-" + r.viol; return; }
  for (auto &a : asks) {
    const OpRec *x = f.find(0, 0, a.second);
    if (!x || x->out.empty()) { r.skip = "reference incomplete"; return; }
    r.nontrivial = true;
    if (x->out[0] != a.first->out[0]) { r.fail("differs: a model trained on the pooled measurements answers " + x->out[0] + " where region " + h.reg(0, a.first->rank, a.first->slot)->name + " answers " + a.first->out[0] + " in " + where(*a.first)); return; }
  }
  finish_shape(h, r);
}

// ================================================================ C20 policy networks
static void gen20(Rng &r, Plan &p)
{
  PB b(p, r); common_knobs(r, p); b.newjob();
  int scen = r.range(0, r.chance(.3) ? 4 : 3);   // 0,1 answers from the current state; 2 one step from fresh; 3 threshold; 4 loading another state
  p.knob["scen"] = scen;
  if (scen == 4) {
    int nf = r.range(1, 2), np = r.range(2, 5); vector<string> mk = {"PolicyNet", S(nf), S(np), ""}; auto pool = feature_pool(r, nf, 3, ST_INT);
    auto fn = [&](int k) { vector<string> a = mk; a.insert(a.begin(), S(k)); return b.op("fn", a); };
    for (int k = 0; k < 3; k++) { fn(k); b.op("fs", {S(k), "state-" + S(k)}); }
    for (int k = r.range(2, 6); k > 0; k--) { if (r.chance(.6)) b.op("fq", cat({"0", S(r.range(1, 30))}, r.pick(pool))); else b.op("fo", {"0", "state-" + S(r.range(0, 2))}); }
    for (auto &f : pool) b.op("fq", cat({"0", "30"}, f));
    return;
  }
  if (r.chance(.3)) b.env("APOLLO_PERSISTENT_DATASETS=1");
  bool big = r.chance(.04);   // trainings on many pairs
  int n = scen < 2 && !big ? r.range(1, 2) : 1; vector<GR> g;
  for (int i = 0; i < n; i++) {
    RegOpts o; o.models = {"PolicyNet"}; o.minnp = 2; o.maxnp = r.chance(.2) ? 12 : 4; o.maxnf = 2; o.pool = big ? 150 : 5; o.pmin = 0; o.style = r.chance(.5) ? ST_INT : r.chance(.5) ? ST_BIGINT : ST_TENTH;
    GR x = make_region(b, i, o);
    x.info = "PolicyNet";
    if (scen == 2) x.info += ",lr=" + string(r.chance(.5) ? "0.0001" : "0.00001");
    else if (r.chance(.6)) x.info += ",lr=" + string(r.chance(.5) ? "0.05" : "0.002");
    if (r.chance(.3)) x.info += ",beta=" + string(r.chance(.5) ? "0.9" : "0.2");
    if (r.chance(.2)) x.info += ",beta1=0.8,beta2=0.95";
    if (scen == 3) x.info += ",threshold=" + string(r.chance(.4) ? "1.5" : r.chance(.5) ? "0.9" : "0.5");
    g.push_back(x); emit_reg(b, x);
  }
  int rounds = scen == 2 ? 1 : r.range(1, 4);
  double scale = scen == 3 ? (r.chance(.5) ? 1 : 5) : r.chance(.5) ? .5 : 3;
  auto ask = [&] { for (auto &x : g) for (auto &f : x.pool) if (r.chance(big ? .04 : .7)) b.op("q", cat({S(x.slot), S(r.range(1, 12))}, f)); };
  if (r.chance(.7)) ask();
  for (int k = 0; k < rounds; k++) {
    for (auto &x : g) for (int i = big ? r.range(60, 300) : r.range(scen == 2 ? 4 : 1, 12); i > 0; i--) b.op("x", cat({S(x.slot), "s", "1", hexd(r.uni() * scale)}, r.pick(x.pool)));
    if (r.chance(.3)) ask();
    for (auto &x : g) if (r.chance(.5) || scen == 2) b.op("r", {S(x.slot), S(k), "1", "0"}); else { b.op("t", {S(k)}); break; }
    ask();
  }
}
// A stored network: the parameters as doubles, layer by layer, then the average reward.
struct RefNet {
  int nf, np, in, hid; vector<double> w; bool ok = false; double avg = 0; int count = 0;
  RefNet(const string &s, int nf_, int np_) : nf(nf_), np(np_)
  {
    in = 64 * nf; hid = (in + np) / 2;
    size_t n = (size_t)in * hid + hid + (size_t)hid * hid + hid + (size_t)hid * np + np;
    if (s.size() != n * 8 + 8 + 4) return;
    w.resize(n); memcpy(w.data(), s.data(), n * 8); memcpy(&avg, s.data() + n * 8, 8); memcpy(&count, s.data() + n * 8 + 8, 4); ok = true;
  }
  vector<double> probs(const vector<float> &f) const
  {
    vector<double> x; for (float v : f) { u64 u = (u64)v; for (int i = 0; i < 64; i++) x.push_back((double)(u >> i & 1)); }
    const double *q = w.data();
    auto layer = [&](int a, int b, bool relu) { vector<double> y(b); for (int j = 0; j < b; j++) { for (int k = 0; k < a; k++) y[j] += q[(size_t)j * a + k] * x[k]; } q += (size_t)a * b; for (int j = 0; j < b; j++) { y[j] += q[j]; if (relu && y[j] < 0) y[j] = 0; } q += b; x = y; };
    layer(in, hid, true); layer(hid, hid, true); layer(hid, np, false);
    double m = -INFINITY, s = 0; for (double v : x) m = std::max(m, v); for (double &v : x) { v = std::exp(v - m); s += v; } for (double &v : x) v /= s;
    return x;
  }
};
// One Adam step of the configured rates up the mean of advantage times log-probability. False: an activation is at the kink of the ReLU.
struct RefAdam { vector<double> m, v; long t = 0; };
static bool ref_step(const RefNet &n, RefAdam &A, const DS &ds, double baseline, double lr, double b1, double b2, vector<double> &out)
{
  size_t N = n.w.size(); A.m.resize(N); A.v.resize(N); vector<double> g(N); bool kink = false;
  int dim[4] = {n.in, n.hid, n.hid, n.np}; size_t wo[3], bo[3], q = 0;
  for (int l = 0; l < 3; l++) { wo[l] = q; q += (size_t)dim[l] * dim[l + 1]; bo[l] = q; q += dim[l + 1]; }
  for (auto &e : ds) {
    vector<double> act[4]; for (float v : e.first.first) { u64 u = (u64)v; for (int i = 0; i < 64; i++) act[0].push_back((double)(u >> i & 1)); }
    if ((int)act[0].size() != n.in || e.first.second < 0 || e.first.second >= n.np) return false;
    for (int l = 0; l < 3; l++) { act[l + 1].assign(dim[l + 1], 0); for (int j = 0; j < dim[l + 1]; j++) { double y = 0; for (int k = 0; k < dim[l]; k++) y += n.w[wo[l] + (size_t)j * dim[l] + k] * act[l][k]; y += n.w[bo[l] + j]; if (l < 2) { if (std::fabs(y) < 1e-12) kink = true; if (y < 0) y = 0; } act[l + 1][j] = y; } }
    double mx = -INFINITY, s = 0; for (double v : act[3]) mx = std::max(mx, v); vector<double> d = act[3]; for (double &v : d) { v = std::exp(v - mx); s += v; }
    double adv = std::exp(-e.second) - baseline; for (double &v : d) v = -adv * v / s / ds.size(); d[e.first.second] += adv / ds.size();
    for (int l = 2; l >= 0; l--) {
      vector<double> in(dim[l]);
      for (int j = 0; j < dim[l + 1]; j++) { if (d[j] == 0) continue; g[bo[l] + j] += d[j]; for (int k = 0; k < dim[l]; k++) { g[wo[l] + (size_t)j * dim[l] + k] += d[j] * act[l][k]; in[k] += d[j] * n.w[wo[l] + (size_t)j * dim[l] + k]; } }
      if (l) for (int k = 0; k < dim[l]; k++) if (act[l][k] <= 0) in[k] = 0;
      d = in;
    }
  }
  A.t++; out = n.w;
  for (size_t i = 0; i < N; i++) { A.m[i] = b1 * A.m[i] + (1 - b1) * g[i]; A.v[i] = b2 * A.v[i] + (1 - b2) * g[i] * g[i]; out[i] += lr * (A.m[i] / (1 - std::pow(b1, A.t))) / (std::sqrt(A.v[i] / (1 - std::pow(b2, A.t))) + 1e-8); }
  return !kink;
}
static double param(const string &info, const char *k, double d) { size_t q = info.find(string(",") + k + "="); return q == string::npos ? d : atof(info.c_str() + q + strlen(k) + 2); }
// A network into which other states are loaded answers like a new one into which only the last was loaded.
static void chk20_load(const Plan &p, RunResult &r)
{
  Plan q = p; auto &pg = q.jobs[0].prog[0]; int id = max_id_c(p, 0, 0) + 1, draws = 0, made = -1, slot = 10; string st; vector<Op> mk, extra; vector<std::pair<int, int>> cmp; std::set<string> files;
  for (auto &o : p.jobs[0].prog[0]) {
    if (o.kind == "fn" && o.a[0] == "0") { made = o.id; mk.assign(1, o); st = ""; }
    if (o.kind == "fs") files.insert(o.a[1]);
    if (made < 0) continue;
    if (o.kind == "fs" && o.a[0] == "0" && st.empty()) st = o.a[1];
    if (o.kind == "fo" && o.a[0] == "0") { if (!files.count(o.a[1])) { r.skip = "no such state"; return; } st = o.a[1]; }
    if (o.kind == "fq" && o.a[0] == "0") {
      if (st.empty()) { r.skip = "no state"; return; }
      Op f = mk[0], l, w, a = o; f.id = id + 1; f.a[0] = S(slot); l.id = id + 2; l.kind = "fo"; l.a = {S(slot), st}; a.id = id + 4; a.a[0] = S(slot);
      extra.push_back(Op{id, "R", {S(made)}}); extra.push_back(f); extra.push_back(l);
      if (draws) { w = a; w.id = id + 3; w.a[1] = S(draws); for (size_t i = 2; i < w.a.size(); i++) w.a[i] = hexd(1048577.0); extra.push_back(w); }
      extra.push_back(a); cmp.push_back({o.id, a.id}); id += 5; slot++; draws += atoi(o.a[1].c_str());
    }
  }
  pg.insert(pg.end(), extra.begin(), extra.end());
  Hist h = execute(q); r.add(h);
  if (!alive(q, h, r)) return;
  for (auto &c : cmp) {
    const OpRec *x = h.find(0, 0, c.first), *y = h.find(0, 0, c.second);
    if (!x || !y || x->skipped || y->skipped) { r.skip = "incomplete"; return; }
    if (x->out != y->out) { string s, t; for (auto &v : x->out) s += v + " "; for (auto &v : y->out) t += v + " "; r.fail("stale-load: asked in " + where(*x) + " the network answers " + s + "; a new network with the same state loaded and the same random numbers answers " + t); return; }
    r.nontrivial = true;
  }
  finish_shape(h, r);
}
static void chk20(const Plan &p, RunResult &r)
{
  if (p.kn("scen") == 4) return chk20_load(p, r);
  for (auto &o : p.jobs[0].prog[0]) if (o.kind == "reg" && !starts(o.a[5], "PolicyNet")) { r.skip = "not a policy network"; return; }
  // store the state after every training, so that it can be looked at
  Plan q = p; q.jobs[0].prog[0].clear(); int id = max_id_c(p, 0, 0) + 1; map<int, int> made; struct St { int op; string path; int slot; }; vector<St> sts;
  map<int, string> info; map<int, std::pair<int, int>> shape;
  for (auto &o : p.jobs[0].prog[0]) {
    q.jobs[0].prog[0].push_back(o);
    if (o.kind == "reg") { int s = atoi(o.a[0].c_str()); if (info.count(s)) continue; info[s] = o.a[5]; shape[s] = {atoi(o.a[2].c_str()), atoi(o.a[3].c_str())}; }
    if (o.kind == "reg" || o.kind == "r" || o.kind == "t") for (auto &s : info) if (o.kind == "t" || atoi(o.a[0].c_str()) == s.first) { St t{id, "net-" + S(id), s.first}; sts.push_back(t); q.jobs[0].prog[0].push_back(Op{id++, "st", {S(s.first), t.path}}); }
  }
  // second job: for every question a new network, loaded from the state of the moment, with the same generator
  Job next = p.jobs[0]; next.env.clear(); next.prog[0].clear(); next.pid_base += 100; int id1 = 1;
  struct Ask { int op0, op1; }; vector<Ask> asks;
  Hist h = execute(q); r.add(h);
  if (!alive(q, h, r)) return;
  map<int, string> state; map<int, int> regop, draws; map<int, double> avg; map<int, int> cnt; map<int, bool> under, unsure; map<int, string> prevstate;
  const Files &files = h.files_job[0]; int slots = 1; int nontriv = 0; std::set<string> thr_pairs;
  struct Learn { int slot; string before, after; DS ds; double base; bool first; }; vector<Learn> learns; struct Frozen { int slot; string before, after; }; vector<Frozen> frozen;
  map<int, RegSnap> prev; map<int, double> based; Rng pr(hash_of(p.seed, 77)); map<int, int> trainings;
  for (auto *o : node_ops(h, 0, 0)) {
    if (o->kind == "reg" && !o->skipped) { regop[o->slot] = o->op; under[o->slot] = 0.0 < param(info[o->slot], "threshold", 0); }
    bool train = (o->kind == "r" && !o->skipped && o->slot >= 0) || o->kind == "t";
    if (train) for (auto &s : o->regs) if ((o->kind == "t" || o->slot == s.first) && !s.second.ds->empty()) {
      double a = 0; for (auto &e : *s.second.ds) a += std::exp(-e.second);
      a /= s.second.ds->size(); double beta = param(info[s.first], "beta", .5), th = param(info[s.first], "threshold", 0);
      avg[s.first] = beta * avg[s.first] + (1 - beta) * a; cnt[s.first]++;
      double base = avg[s.first] / (1 - std::pow(beta, cnt[s.first]));
      based[s.first] = base; under[s.first] = base < th; if (std::fabs(base - th) < 1e-9) unsure[s.first] = true;
      trainings[s.first]++;
    }
    if (o->kind == "st") {
      int s = atoi(o->a[0].c_str()); string path = o->a[1];
      if (!files.count("/work/" + path)) { r.fail("store: the network was not stored to " + path); return; }
      if (!state[s].empty() && !unsure[s]) {
        if (under[s]) frozen.push_back({s, state[s], path});
        else learns.push_back({s, state[s], path, *prev[s].ds, based[s], trainings[s] == 1});
      }
      state[s] = path;
    }
    if ((is_exec_kind(o->kind) || o->kind == "q") && o->slot >= 0 && !o->skipped && !o->out.empty()) {
      int s = o->slot; if (unsure[s]) { r.skip = "average reward at the threshold"; return; }
      if (under[s]) { for (auto &v : o->out) if (v != "0") { r.fail("threshold: the average reward is below the threshold, but the network answers " + v + " in " + where(*o)); return; } nontriv++; }
      else {
        if (o->kind == "q" && asks.size() < 40) {
          vector<float> f = args_f(*o, 2);
          string inf = info[s]; next.prog[0].push_back(Op{id1++, "R", {S(regop[s])}});
          next.prog[0].push_back(Op{id1++, "reg", {S(slots), "copy" + S(slots), S(shape[s].first), S(shape[s].second), "0", inf + ",load=" + state[s], "", "0"}});
          vector<float> g(f.size(), 1048577.0f);
          if (draws[s]) next.prog[0].push_back(Op{id1++, "q", cat({S(slots), S(draws[s])}, g)});
          asks.push_back({o->op, id1}); Op a; a.id = id1++; a.kind = "q"; a.a = o->a; a.a[0] = S(slots++); next.prog[0].push_back(a);
        }
        draws[s] += (int)o->out.size();
      }
    }
    for (auto &s : o->regs) prev[s.first] = s.second;
  }
  for (auto &s : shape) if (s.second.second < 2) { r.skip = "one policy"; return; }
  // frozen networks answer alike when asked below any threshold
  vector<std::pair<int, int>> pairs;
  for (auto &f : frozen) {
    int a[2]; vector<float> ft(shape[f.slot].first, (float)pr.range(0, 9));
    string inf = "PolicyNet";
    for (int k = 0; k < 2; k++) {
      next.prog[0].push_back(Op{id1++, "R", {S(regop[f.slot])}});
      next.prog[0].push_back(Op{id1++, "reg", {S(slots), "copy" + S(slots), S(shape[f.slot].first), S(shape[f.slot].second), "0", inf + ",load=" + (k ? f.after : f.before), "", "0"}});
      a[k] = id1; next.prog[0].push_back(Op{id1++, "q", cat({S(slots++), "60"}, ft)});
    }
    pairs.push_back({a[0], a[1]});
  }
  if (asks.empty() && pairs.empty()) return;
  q.jobs.push_back(next);
  Hist k = execute(q); r.add(k, false);
  if (!alive(q, k, r)) { r.viol = "reference-" + r.viol; return; }
  for (auto &a : asks) {
    const OpRec *x = k.find(0, 0, a.op0), *y = k.find(1, 0, a.op1);
    if (!x || !y || y->skipped) { r.skip = "reference incomplete"; return; }
    if (x->out != y->out) { string s, t; for (auto &v : x->out) s += v + " "; for (auto &v : y->out) t += v + " "; r.fail("stale: asked in " + where(*x) + " the network answers " + s + "; a new network with its stored parameters and the same random numbers answers " + t); return; }
    nontriv++;
  }
  for (size_t i = 0; i < pairs.size(); i++) {
    const OpRec *x = k.find(1, 0, pairs[i].first), *y = k.find(1, 0, pairs[i].second);
    if (!x || !y) continue;
    if (x->out != y->out) { r.fail("threshold-changed: training below the reward threshold changed the network of slot " + S(frozen[i].slot)); return; }
    nontriv++;
  }
  // the answers follow the probabilities (the stored parameters evaluated independently)
  map<int, vector<std::pair<const OpRec *, string>>> byslot;
  {
    map<int, string> st; map<string, std::pair<vector<double>, vector<int>>> tally;
    for (auto *o : node_ops(k, 0, 0)) {
      if (o->kind == "st") st[atoi(o->a[0].c_str())] = o->a[1];
      if (o->kind != "q" || o->skipped || o->slot < 0 || param(info[o->slot], "threshold", 0) > 0) continue;
      auto f = k.files_job[0].find("/work/" + st[o->slot]); if (f == k.files_job[0].end()) continue;
      auto &t = tally[st[o->slot]];
      RefNet n(*f->second, shape[o->slot].first, shape[o->slot].second);
      if (!n.ok) { r.count["probe.unknown_network_layout"]++; continue; }
      auto pb = n.probs(args_f(*o, 2));
      t.first.resize(pb.size()); t.second.resize(pb.size());
      double v = 0; (void)v;
      for (auto &s : o->out) { int w = atoi(s.c_str()); if (w >= 0 && w < (int)pb.size()) t.second[w]++; if (w >= 0 && w < (int)pb.size() && pb[w] < 1e-12) { r.fail("impossible: the network answers " + s + " in " + where(*o) + ", which has a probability below 1e-12"); return; } }
      for (size_t i = 0; i < pb.size(); i++) t.first[i] += pb[i] * o->out.size();
    }
    for (auto &t : tally) {
      double n = 0; for (int c : t.second.second) n += c;
      for (size_t i = 0; i < t.second.first.size(); i++) { double e = t.second.first[i], sd = std::sqrt(std::max(e * (1 - e / n), 0.0)); if (std::fabs(t.second.second[i] - e) > 7 * sd + 12) { char c[200]; snprintf(c, sizeof c, "frequency: of %.0f answers of the network in state %s, %d were policy %zu, where its parameters give %.1f on average", n, t.first.c_str(), t.second.second[i], i, e); r.fail(c); return; } }
    }
  }
  // learning: the first step raises the advantage-weighted log-likelihood
  map<int, RefAdam> adam; map<int, bool> lost;
  for (auto &l : learns) {
    double lr = param(info[l.slot], "lr", 1e-2); if (lost[l.slot] || unsure[l.slot]) continue;
    auto f0 = k.files_job[0].find("/work/" + l.before), f1 = k.files_job[0].find("/work/" + l.after);
    if (f0 == k.files_job[0].end() || f1 == k.files_job[0].end()) continue;
    RefNet a(*f0->second, shape[l.slot].first, shape[l.slot].second), b(*f1->second, shape[l.slot].first, shape[l.slot].second);
    if (!a.ok || !b.ok) { r.count["probe.unknown_network_layout"]++; lost[l.slot] = true; continue; }
    vector<double> want;
    if (!ref_step(a, adam[l.slot], l.ds, l.base, lr, param(info[l.slot], "beta1", .5), param(info[l.slot], "beta2", .9), want)) lost[l.slot] = true;
    else {
      r.count["probe.adam_step"]++; nontriv++; size_t worst = 0; double by = 0;
      for (size_t i = 0; i < want.size(); i++) { double e = std::fabs(want[i] - b.w[i]); if (!(e <= by)) { by = e; worst = i; } }
      if (!(by <= 1e-5 * lr + 1e-12)) { char c[240]; snprintf(c, sizeof c, "step: training slot %d from state %s on %zu measurements took parameter %zu from %.12g to %.12g, where a step of Adam (rate %g) gives %.12g", l.slot, l.before.c_str(), l.ds.size(), worst, a.w[worst], b.w[worst], lr, want[worst]); r.fail(c); return; }
    }
    if (!l.first || lr > 2e-4) continue;
    double mean = 0; for (auto &e : l.ds) mean += std::exp(-e.second); mean /= l.ds.size();
    double o0 = 0, o1 = 0, big = 0;
    for (auto &e : l.ds) { double adv = std::exp(-e.second) - mean; big = std::max(big, std::fabs(adv)); o0 += adv * std::log(a.probs(e.first.first)[e.first.second]); o1 += adv * std::log(b.probs(e.first.first)[e.first.second]); }
    // nothing to gain where measurements of one encoded state and policy cancel or the network is saturated
    map<vector<u64>, vector<double>> gl; for (auto &e : l.ds) { vector<u64> st; for (float v : e.first.first) st.push_back((u64)v); auto &g = gl[st]; auto pb = a.probs(e.first.first); g.resize(pb.size()); double adv = std::exp(-e.second) - mean; for (size_t j = 0; j < pb.size(); j++) g[j] += adv * (((int)j == e.first.second) - pb[j]); }
    double gain = 0; for (auto &x : gl) for (double v : x.second) gain = std::max(gain, std::fabs(v));
    if (big < 1e-3 || gain < 1e-3 || !std::isfinite(o0)) continue;
    r.count["probe.learning_step"]++; nontriv++;
    if (!(o1 > o0)) { char c[240]; snprintf(c, sizeof c, "learning: the first training step of slot %d (learning rate %g) took the advantage-weighted log-likelihood of its %zu measurements from %.12g to %.12g", l.slot, lr, l.ds.size(), o0, o1); r.fail(c); return; }
  }
  r.nontrivial = nontriv > 0;
  finish_shape(h, r);
}
// ================================================================ C18 Kokkos
struct KVar { int out = 0, id = 0, type = 0, qu = 2; string name; vector<string> vals; };   // vals: set, or lower upper step open-lower open-upper
static KVar kvar(const Op &o)
{
  KVar v; v.out = atoi(o.a[0].c_str()); v.name = o.a[1]; v.id = atoi(o.a[2].c_str()); v.type = atoi(o.a[3].c_str()); v.qu = atoi(o.a[5].c_str());
  v.vals.assign(o.a.begin() + (v.qu == 0 ? 7 : 6), o.a.end());
  return v;
}
// how many values a variable has: at least, at most
static std::pair<int, int> kcount(const KVar &v)
{
  if (v.qu == 0) return {(int)v.vals.size(), (int)v.vals.size()};
  bool ol = v.vals[3] == "1", ou = v.vals[4] == "1";
  if (v.type == 1) {
    i64 l = atoll(v.vals[0].c_str()), u = atoll(v.vals[1].c_str()), s = atoll(v.vals[2].c_str());
    if (ou) u--;
    auto cnt = [&](i64 from) { return from > u ? 0 : (int)((u - from) / s + 1); };
    if (!ol) return {cnt(l), cnt(l)};
    int a = cnt(l + 1), b = cnt(l + s);   // one may count the steps from either
    return {std::min(a, b), std::max(a, b)};
  }
  double l = parsed(v.vals[0]), u = parsed(v.vals[1]), s = parsed(v.vals[2]), k = (u - l) / s;
  bool dyadic = std::floor(k) == k && std::floor(s * 1024) == s * 1024 && std::floor(l * 1024) == l * 1024;
  int n = (int)std::floor(k + 1e-9) + 1; bool at = std::fabs(k - std::floor(k + 1e-9)) < 1e-9;   // values from l to u
  if (ol) n--;
  if (ou && at) n--;
  return {dyadic || !at ? n : n - 1, dyadic || !at ? n : n + 1};
}
static bool kmember(const KVar &v, const string &x)
{
  if (v.qu == 0) { for (auto &c : v.vals) { if (v.type == 0 ? parsed(c) == parsed(x) : v.type == 1 ? atoll(c.c_str()) == atoll(x.c_str()) : c == x) return true; } return false; }
  bool ol = v.vals[3] == "1", ou = v.vals[4] == "1";
  if (v.type == 1) {
    i64 l = atoll(v.vals[0].c_str()), u = atoll(v.vals[1].c_str()), s = atoll(v.vals[2].c_str()), k = atoll(x.c_str());
    if (k < l + ol || k > u - ou) return false;
    return (k - l) % s == 0 || (ol && (k - l - 1) % s == 0);
  }
  double l = parsed(v.vals[0]), u = parsed(v.vals[1]), s = parsed(v.vals[2]), k = parsed(x), t = s * 1e-6;
  if (!(k >= l - t && k <= u + t)) return false;
  if (ol && k < l + t) return false;
  if (ou && k > u - t) return false;
  double q = (k - l) / s; return std::fabs(q - std::floor(q + .5)) < 1e-6;
}
static string kkey(const vector<string> &a, vector<string> *ctxvals = nullptr, vector<int> *outs = nullptr)
{
  string k; int nin = atoi(a[1].c_str()); size_t p = 2;
  for (int i = 0; i < nin; i++, p += 2) { k += a[p] + ","; if (ctxvals) ctxvals->push_back(a[p + 1]); }
  k += ";"; int nout = atoi(a[p++].c_str());
  for (int i = 0; i < nout; i++) { k += a[p] + ","; if (outs) outs->push_back(atoi(a[p].c_str())); p++; }
  return nout ? k : "";
}
static const char *kctx[] = {"ctx0", "ctx1", "ctx2", "gemm_nt", "gemm_tn", "a-rather-long-name-of-a-kernel-that-is-called-from-the-solver-0", "a-rather-long-name-of-a-kernel-that-is-called-from-the-solver-1", "axpy"};
static void gen18(Rng &r, Plan &p)
{
  PB b(p, r); common_knobs(r, p);
  int nin = r.range(0, 4), nout = r.range(1, 5); vector<vector<string>> decl; vector<KVar> vars(1); map<int, vector<string>> inpool;
  const char *words[] = {"tile", "team-size", "vec.len", "kernelName", "N", "occ:pct", "bytes/el", "dim3", "stride", "x"};
  // variables are often named after the kernel they belong to
  string kern = r.chance(.12) ? "tuning.parallel_for." + string(r.range(10, 90), 'k') + "." : "";
  for (int i = 0; i < nin + nout; i++) {
    bool out = i >= nin; int id = i + 1, type = (int)r.below(3), qu = out ? (type == 2 || r.chance(.5) ? 0 : 1) : (int)r.below(3);
    if (type == 2 && qu == 1) qu = 0;
    string nm = string(out ? "o" : "i") + S(id) + words[r.below(10)];
    for (auto &c : nm) if (c == '/') c = '.';
    nm = kern + nm;
    vector<string> d = {S(out), nm, S(id), S(type), S(r.range(0, 3)), S(qu)};
    if (qu == 0) {
      int n = r.chance(.1) ? r.range(6, 36) : r.range(1, 5), wide = n > 5 ? 10 : 1; std::set<string> have;
      string longs; if (r.chance(.4)) longs = string(r.range(8, 58), 'a' + (char)r.below(26));   // candidates that differ in their last characters only; at most 63 characters are allowed
      while ((int)have.size() < n) have.insert(type == 0 ? hexd(r.range(-40, 40) * wide * (r.chance(.5) ? .25 : .1)) : type == 1 ? S(r.range(-9, 9) * wide * (r.chance(.2) ? 1000000 : 1) + (wide > 1 ? r.range(0, 9) : 0)) : "s" + longs + S(r.range(0, 20 * wide)));
      d.push_back(S(n)); vector<string> v(have.begin(), have.end()); for (size_t k = v.size(); k > 1; k--) std::swap(v[k - 1], v[r.below(k)]);
      for (auto &x : v) d.push_back(x);
    } else if (qu == 1) {
      int n = r.range(2, 6), ol = r.chance(.4), ou = r.chance(.4);
      if (type == 1) { int l = r.range(-20, 20), st = r.range(1, 4); d.push_back(S(l)); d.push_back(S(l + st * n + (st > 1 ? r.range(0, st - 1) : 0))); d.push_back(S(st)); }
      else { double st = r.pick(vector<double>{.25, .5, 1, 2, .1, .3}), l = r.range(-8, 8) * (r.chance(.7) ? .5 : .1); d.push_back(hexd(l)); d.push_back(hexd(l + st * n + (r.chance(.3) ? st * .4 : 0))); d.push_back(hexd(st)); }
      d.push_back(S(ol)); d.push_back(S(ou));
    }
    decl.push_back(d); vars.push_back(kvar(Op{0, "kd", d}));
    if (!out) { int n = r.range(1, 3); for (int k = 0; k < n; k++) inpool[id].push_back(type == 0 ? hexd(r.range(-99, 99) * (r.chance(.5) ? 1 : .37)) : type == 1 ? S(r.range(-5, 500)) : string(kctx[r.below(8)])); }
  }
  struct Prob { vector<int> in, out; }; vector<Prob> pr; std::set<string> have;
  for (int t = 0, n = r.range(1, 4); t < 30 && (int)pr.size() < n; t++) {
    Prob q; int m = 1;
    for (int i = 1; i <= nin; i++) if (r.chance(.5)) q.in.push_back(i);
    for (int i = nin + 1; i <= nin + nout; i++) if (r.chance(.5) && kcount(vars[i]).first > 0 && m * kcount(vars[i]).second <= 40) { q.out.push_back(i); m *= kcount(vars[i]).second; }
    if (r.chance(.3)) std::reverse(q.out.begin(), q.out.end());
    if (q.out.empty()) continue;
    string k; int len = 5; for (int i : q.in) { k += S(i) + ","; len += vars[i].name.size() + 1; } k += ";"; for (int i : q.out) { k += S(i) + ","; len += vars[i].name.size() + 1; }
    if ((len > 60 && kern.empty()) || !have.insert(k).second) continue;
    pr.push_back(q);
  }
  if (pr.empty()) { p.jobs.clear(); b.newjob(1, "kk"); return; }
  int jobs = r.range(1, 3); bool pers = r.chance(.25), odir = r.chance(.15), mdir = r.chance(.15), trace = r.chance(.8);
  if (r.chance(.2)) p.rules.push_back(Rule{F_SHORT, .3});
  if (r.chance(.2)) p.rules.push_back(Rule{F_EINTR, .2});
  if (jobs > 1 && r.chance(.2)) p.rules.push_back(Rule{F_KILL, .004, 0});
  for (int j = 0; j < jobs; j++) {
    b.newjob(1, "kk");
    if (pers) b.env("APOLLO_PERSISTENT_DATASETS=1");
    if (trace) b.env("APOLLO_TRACE_CSV=1");
    if (odir) b.env("APOLLO_OUTPUT_DIR=odir");
    if (mdir) b.env("APOLLO_MODELS_DIR=mm");
    int how = r.range(0, 3); vector<string> args = {"--flush-rate=" + S(r.chance(.7) ? r.range(1, 40) : 200)};
    if (r.chance(.2)) args.push_back("--trace");
    if (how == 2) b.env("APOLLO_POLICY_MODEL=RandomForest,explore=RoundRobin,num_trees=" + S(r.range(1, 5)));
    if (how < 2) { b.op("ka", args); b.op("ki"); } else { b.op("ki"); if (r.chance(.8)) b.op("ka", args); }
    for (auto &d : decl) b.op("kd", d);
    i64 ctx = 1 + j * 1000; if (r.chance(.2)) ctx = (r.chance(.5) ? 65536ll : 1ll << 32) - r.range(1, 40); map<int, i64> open; vector<int> pend;
    for (int i = r.range(5, 120); i > 0; i--) {
      if (r.chance(.04)) { b.op("ke", {S(r.chance(.5) ? 999999 : std::max((i64)1, ctx - r.range(1, 5)))}); continue; }
      if (r.chance(.1)) { b.op("w", {S(r.below(3000000))}); continue; }
      int k = (int)r.below(pr.size());
      if (open.count(k)) { b.op("ke", {S(open[k])}); open.erase(k); continue; }
      vector<string> a = {S(ctx), S((int)pr[k].in.size())};
      for (int v : pr[k].in) { a.push_back(S(v)); a.push_back(r.pick(inpool[v])); }
      if (r.chance(.03)) a.push_back("0"); else { a.push_back(S((int)pr[k].out.size())); for (int v : pr[k].out) a.push_back(S(v)); open[k] = ctx; }
      b.op("kr", a); ctx++; if (r.chance(.03)) ctx += (r.chance(.5) ? 65536ll : 1ll << 32) - r.range(0, 3);
      if (r.chance(.6) && open.count(k)) { if (r.chance(.3)) b.op("w", {S(r.below(2000000))}); b.op("ke", {S(open[k])}); open.erase(k); }
    }
    for (auto &o : open) if (r.chance(.8)) b.op("ke", {S(o.second)});
    // ask once more for everything, so that the next run can be compared
    if (r.chance(.7)) for (size_t k = 0; k < pr.size(); k++) if (!open.count((int)k) || open.size() == 0) for (int z = 0; z < 2; z++) {
      vector<string> a = {S(ctx), S((int)pr[k].in.size())};
      for (int v : pr[k].in) { a.push_back(S(v)); a.push_back(r.pick(inpool[v])); }
      a.push_back(S((int)pr[k].out.size())); for (int v : pr[k].out) a.push_back(S(v));
      b.op("kr", a); b.op("ke", {S(ctx++)});
    }
    if (r.chance(.5)) b.op("kf");
  }
}
static void chk18(const Plan &p, RunResult &r)
{
  for (auto &j : p.jobs) for (auto e : {"APOLLO_OUTPUT_DIR", "APOLLO_MODELS_DIR"}) if (env_of(j, e) != env_of(p.jobs[0], e)) { r.skip = "runs with different directories"; return; }
  Hist h = execute(p); r.add(h);
  if (h.hang || h.deadlock) { alive(p, h, r); return; }
  struct Tuned { bool sure = true; map<vector<string>, vector<string>> ans; };
  map<string, Tuned> stored; map<string, bool> persdata; std::set<string> unsure; Files before;
  for (size_t j = 0; j < p.jobs.size() && j < h.files_job.size(); j++) {
    const NodeEnd *end = h.end((int)j, 0); bool killed = end && end->death == D_KILLED;
    if (!killed && !alive(p, h, r, (int)j)) { if (j && r.viol.compare(0, 5, "death") == 0) r.viol = "restart-" + r.viol; return; }
    map<int, KVar> vars; int rate = 500; bool init = false, explore = starts(env_of(p.jobs[j], "APOLLO_POLICY_MODEL"), "RandomForest"); bool pers = env_of(p.jobs[j], "APOLLO_PERSISTENT_DATASETS") == "1";
    struct St { bool loaded = false, trained = false; int ended = 0, cap = -1; std::set<vector<string>> seen; map<vector<string>, vector<string>> ans; string name; int nin = 0, nout = 0; struct Rec { vector<string> in; vector<string> out; double lo, hi; }; vector<Rec> recs; };
    map<string, St> st; struct Op_ { string key; vector<string> in, out; i64 t0, t1; }; map<string, Op_> open; int enc = 0, ended = 0; std::set<string> never; vector<string> created;
    for (auto *o : node_ops(h, (int)j, 0)) {
      if (o->kind == "ka") { for (auto &a : o->a) if (starts(a, "--flush-rate=")) rate = atoi(a.c_str() + 13); if (!init) explore = true; }
      if (o->kind == "ki") init = true;
      if (o->kind == "kd" && !o->skipped) { Op x; x.a = o->a; KVar v = kvar(x); vars[v.id] = v; }
      if (o->kind == "kr" && !o->skipped) {
        if (!init || rate < 1) { r.skip = "not initialised"; return; }
        vector<string> in; vector<int> outs; string key = kkey(o->a, &in, &outs); if (key.empty()) continue;
        for (auto &x : open) if (x.second.key == key) { r.skip = "nested contexts of one tuning problem"; return; }
        if (!o->finished) continue;
        bool fresh = !st.count(key); St &s = st[key];
        int lo = 1, hi = 1; for (int v : outs) { if (!vars.count(v)) { r.skip = "undeclared"; return; } auto c = kcount(vars[v]); lo *= c.first; hi *= c.second; }
        if (fresh) {
          s.loaded = stored.count(key); s.nin = (int)in.size(); s.nout = (int)outs.size();
          size_t q = 2; for (int i = 0; i < s.nin; i++, q += 2) s.name += vars[atoi(o->a[q].c_str())].name + "_";
          for (size_t i = 0; i < outs.size(); i++) s.name += vars[outs[i]].name + (i + 1 < outs.size() ? "_" : ".yaml");
        }
        for (size_t i = 0; i < outs.size(); i++) if (!kmember(vars[outs[i]], o->out[i])) {
          const KVar &v = vars[outs[i]]; string c; for (auto &x : v.vals) c += " " + (v.type == 0 ? S(0).substr(1) + (v.qu == 1 && (&x - &v.vals[0]) > 2 ? x : std::to_string(parsed(x))) : x);
          r.fail("candidate: " + where(*o) + " gives tuning variable " + v.name + " the value " + (v.type == 0 ? std::to_string(parsed(o->out[i])) : o->out[i]) + ", declared as " + (v.qu == 0 ? "the set" : "the range (lower, upper, step, open lower, open upper)") + c); return;
        }
        if (unsure.count(key)) { }
        else if (s.loaded) {
          auto &t = stored[key].ans; auto k = t.find(in);
          if (k != t.end() && k->second != o->out) { string a, c; for (auto &x : k->second) a += x + " "; for (auto &x : o->out) c += x + " "; r.fail("restart: the model stored by an earlier run gave " + a + "for these context values, but " + where(*o) + " of the later run gives " + c); return; }
          if (k == t.end()) t[in] = o->out; else { r.count["probe.restart_compared"]++; r.nontrivial = true; }
        } else if (s.trained) {
          auto k = s.ans.find(in);
          if (k != s.ans.end() && k->second != o->out) { r.fail("unstable: after training, " + where(*o) + " gives other values than an earlier request with the same context values"); return; }
          s.ans[in] = o->out;
        } else if (explore) {
          if (s.seen.count(o->out)) {
            if ((int)s.seen.size() < (s.cap > 0 ? s.cap : lo)) { string c; for (auto &x : o->out) c += x + " "; r.fail("uneven: " + where(*o) + " repeats the combination " + c + "when only " + S((i64)s.seen.size()) + " of the at least " + S(lo) + " combinations have been tried"); return; }
            s.cap = (int)s.seen.size(); s.seen.clear(); r.nontrivial = true;
          }
          s.seen.insert(o->out);
          if ((int)s.seen.size() > hi) { r.fail("uneven: " + where(*o) + " makes " + S((i64)s.seen.size()) + " combinations where only " + S(hi) + " are declared"); return; }
        }
        open[o->a[0]] = Op_{key, in, o->out, o->t0, o->t1};
      }
      if (o->kind == "ke" && open.count(o->a[0])) {
        Op_ x = open[o->a[0]]; open.erase(o->a[0]);
        St &s = st[x.key]; s.ended++; ended++;
        double tol = 1e-9 + 4e-16 * (p.kn("uptime", 12345.678) + h.vtime * 1e-9);
        s.recs.push_back({x.in, x.out, std::max(0.0, (o->t0 - x.t1) * 1e-9 - tol), (o->t1 - x.t0) * 1e-9 + tol});
        if (++enc % rate == 0) for (auto &z : st) if (explore && !z.second.loaded && !z.second.trained && (z.second.ended || persdata[z.first])) { z.second.trained = true; if (!o->finished) unsure.insert(z.first); }
      }
    }
    for (auto &z : st) {
      if (pers && killed) { if (!stored.count(z.first) && !z.second.trained) unsure.insert(z.first); }
      if (pers && z.second.ended) persdata[z.first] = true;
      if (z.second.trained) { stored[z.first].ans = z.second.ans; r.count["probe.model_stored"]++; }
    }
    const Files &files = h.files_job[j];
    if (!killed) {
      if (end && end->total != ended && (end->total >= 0 || ended)) { r.fail("total: " + S(ended) + " contexts were ended in job " + S(j) + ", but the total reported at exit is " + S(end->total)); return; }
      if (env_of(p.jobs[j], "APOLLO_TRACE_CSV") == "1") for (auto &z : st) {
        if (z.second.name.size() > 63) continue;   // what the trace of such a region is called is not specified
        string suf = "-region-" + z.second.name + "-rank-0.csv"; PStr f;
        for (auto &x : files) if (x.first.size() > suf.size() && x.first.compare(x.first.size() - suf.size(), suf.size(), suf) == 0) { auto q = before.find(x.first); if (q == before.end() || *q->second != *x.second) f = x.second; }
        if (!f) { if (before.empty() && z.second.ended) { r.fail("unrecorded: no trace of tuning problem " + z.second.name); return; } continue; }
        std::istringstream is(*f); string line; std::getline(is, line); size_t n = 0; map<string, vector<string>> pol; map<std::pair<int, string>, string> strs; map<std::pair<int, string>, string> back; size_t nf = z.second.nin;
        while (std::getline(is, line)) {
          std::istringstream ls(line); vector<string> c; string w; while (ls >> w) c.push_back(w);
          if (n >= z.second.recs.size()) { r.fail("twice: the trace of " + z.second.name + " has more records than contexts were ended: " + line); return; }
          auto &x = z.second.recs[n++]; string why;
          if (c.size() != nf + 6) why = "columns";
          else {
            size_t q = 0; int v = 0; string key = z.first;
            for (size_t i = 0; i < nf; i++) {
              v = atoi(key.c_str() + q); q = key.find(',', q) + 1;
              if (vars[v].type == 2) { auto &m = strs[{v, x.in[i]}]; if (!m.empty() && m != c[4 + i]) why = "context values"; m = c[4 + i]; auto &bk = back[{v, m}]; if (!bk.empty() && bk != x.in[i]) why = "context values, the same as for another string"; bk = x.in[i]; continue; }
              float want = vars[v].type == 0 ? (float)parsed(x.in[i]) : (float)atoll(x.in[i].c_str());
              if (strtof(c[4 + i].c_str(), nullptr) != want) why = "context values";
            }
            auto &m = pol[c[4 + nf]]; if (!m.empty() && m != x.out) why = "policy"; m = x.out;
            double t = strtod(c[5 + nf].c_str(), nullptr); if (!(t >= x.lo && t <= x.hi)) { char t[80]; snprintf(t, sizeof t, "time (%.12g to %.12g expected)", x.lo, x.hi); why = t; }
          }
          if (!why.empty()) { r.fail("record: the measurement \"" + line + "\" of " + z.second.name + " is not that of the context ended, by its " + why); return; }
          r.count["probe.measurement_compared"]++;
        }
        if (n < z.second.recs.size()) { r.fail("lost: the trace of " + z.second.name + " has " + S((i64)n) + " records for " + S((i64)z.second.recs.size()) + " ended contexts"); return; }
      }
    }
    before = files;
  }
  finish_shape(h, r);
}

// ================================================================ C29 fences
static void gen29(Rng &r, Plan &p)
{
  PB b(p, r); common_knobs(r, p);
  int nin = r.range(0, 2), nout = r.range(1, 3), np = r.range(1, some(r, 2, 4, 10)), jobs = r.chance(.4) ? 2 : 1;
  vector<vector<string>> decl, req; std::set<string> have;
  string kern = r.chance(.1) ? "tuning.parallel_for." + string(r.range(10, 90), 'k') + "." : "";
  for (int i = 1; i <= nin + nout; i++) {
    bool out = i > nin; int n = r.range(1, 3); vector<string> d = {S(out), kern + (out ? "o" : "i") + S(i), S(i), "1", S(r.range(0, 3)), "0", S(n)};
    for (int k = 0; k < n; k++) d.push_back(S(k + 3));
    decl.push_back(d);
  }
  for (int t = 0; t < 40 && (int)req.size() < np; t++) {
    vector<string> a = {"0"}; string key; int ni = 0;
    for (int i = 1; i <= nin; i++) if (r.chance(.5)) { a.push_back(S(i)); a.push_back(""); ni++; key += S(i) + ","; }
    a[0] = S(ni); size_t at = a.size(); a.push_back("0"); int no = 0; key += ";";
    for (int i = nin + 1; i <= nin + nout; i++) if (r.chance(.5)) { a.push_back(S(i)); no++; key += S(i) + ","; }
    if (!no || !have.insert(key).second) continue;
    a[at] = S(no); req.push_back(a);
  }
  if (req.empty()) req.push_back({"0", "1", S(nin + 1)});
  for (int j = 0; j < jobs; j++) {
    b.newjob(1, "kk");
    if (r.chance(.2)) b.env("APOLLO_TRACE_CSV=1");
    int rate = r.chance(.8) ? r.range(1, 12) : 40;
    b.op("ka", {"--flush-rate=" + S(rate)}); b.op("ki");
    bool tool = r.chance(.95); if (tool && r.chance(.8)) { b.op("kt"); tool = false; }
    for (auto &d : decl) b.op("kd", d);
    if (tool) b.op("kt");
    int ctx = 1 + j * 1000, kern = 1; map<int, int> open; map<int, int> run;   // problem -> context; kernel -> device
    for (int i = r.range(5, some(r, 20, 80, 300)); i > 0; i--) {
      double u = r.uni();
      if (u < .45) {
        if (!run.empty() && r.chance(.6)) { auto k = run.begin(); std::advance(k, r.below(run.size())); b.op("kx", {S(k->first), S(k->second)}); run.erase(k); }
        else if (run.size() < 3) { int dev = (int)r.below(3); static const int devs[] = {0, 1, 33554432 + 7}; b.op("kb", {S(kern), S(r.range(0, 2)), S(devs[dev]), S(r.below(3000000)), "kernel"}); run[kern++] = devs[dev]; }
        continue;
      }
      if (u < .5) { b.op("w", {S(r.below(1000000))}); continue; }
      int k = (int)r.below(r.chance(.7) ? std::min<size_t>(req.size(), 1 + (size_t)i / 8) : req.size());
      if (open.count(k)) { if (r.chance(.7)) { b.op("ke", {S(open[k])}); open.erase(k); } continue; }
      vector<string> a = {S(ctx)}; a.insert(a.end(), req[k].begin(), req[k].end());
      for (int q = 0; q < atoi(req[k][0].c_str()); q++) a[3 + 2 * q] = S(r.range(1, 3));
      b.op("kr", a); open[k] = ctx++;
    }
    for (auto &o : open) if (r.chance(.5)) b.op("ke", {S(o.second)});
  }
}
static void chk29(const Plan &p, RunResult &r)
{
  Hist h = execute(p); r.add(h);
  if (!alive(p, h, r)) return;
  std::set<string> stored;
  for (size_t j = 0; j < p.jobs.size(); j++) {
    int rate = 500, enc = 0; bool init = false, explore = false, tool = false; map<string, bool> tuned; map<string, bool> data; map<string, string> open;
    for (auto *o : node_ops(h, (int)j, 0)) {
      if (o->kind == "ka") { for (auto &a : o->a) if (starts(a, "--flush-rate=")) rate = atoi(a.c_str() + 13); if (!init) explore = true; }
      if (o->kind == "ki") init = true;
      if (o->kind == "kt") tool = true;
      if (o->skipped || !init || !explore || rate < 1) continue;
      if (o->kind == "kb" || o->kind == "kx") {
        string what = "the kernel of " + where(*o);
        int fences = atoi(o->out[0].c_str()); i64 left = atoll(o->out[1].c_str());
        string todo; for (auto &t : tuned) if (!t.second) todo = t.first;
        if (!tool && fences) { r.fail("fence: a fence without a tool interface"); return; }
        if (!tool) continue;
        if (todo.empty() && fences) { r.fail("needless: " + what + " is fenced although nothing is to be tuned" + (tuned.empty() ? " yet" : " any more")); return; }
        if (!todo.empty() && left > 0) { r.fail("unfenced: " + string(o->kind == "kb" ? "at the start" : "at the end") + " of " + what + " its device still has " + S(left) + " ns of work, which will be measured " + (o->kind == "kb" ? "as part of the kernel" : "as part of nothing") + ", although tuning problem " + todo + " is still to be tuned"); return; }
        if (!todo.empty() && fences) r.nontrivial = true;
      }
      if (o->kind == "kr") {
        string key = kkey(o->a); if (key.empty()) continue;
        for (auto &x : open) if (x.second == key) { r.skip = "nested contexts of one tuning problem"; return; }
        if (!tuned.count(key)) tuned[key] = stored.count(key);
        open[o->a[0]] = key;
      }
      if (o->kind == "ke" && open.count(o->a[0])) {
        string key = open[o->a[0]]; open.erase(o->a[0]); data[key] = true;
        if (++enc % rate == 0) for (auto &t : tuned) if (data[t.first]) { t.second = true; stored.insert(t.first); }
      }
    }
  }
  finish_shape(h, r);
}

// ================================================================ C19 just-in-time compilation
static void gen19(Rng &r, Plan &p)
{
  PB b(p, r); common_knobs(r, p);
  int jobs = r.range(1, 2), np = r.chance(.6) ? 1 : r.range(2, 3); bool store = jobs > 1 || r.chance(.3);
  p.knob["fail"] = r.chance(.3); bool kill = !p.kn("fail") && jobs > 1 && r.chance(.3);
  if (p.kn("fail")) p.rules.push_back(Rule{F_CCFAIL, r.chance(.5) ? .3 : .15, jobs > 1 && r.chance(.5) ? 1 : -1});
  if (kill) p.rules.push_back(Rule{F_KILL, .01, 0});
  bool left = r.chance(.12);   // a killed process leaves its library behind, and the next one with its process id fails to compile
  if (left) { jobs = 2; np = 1; p.rules.clear(); p.knob["fail"] = 1; kill = false; Rule k{F_KILL, .25, 0}; k.path = "compiler"; p.rules.push_back(k); p.rules.push_back(Rule{F_CCFAIL, .7, 1}); }
  RegOpts o; o.models = {"DecisionTree", "DecisionTree", "DecisionTree", "RandomForest"}; o.minnp = 2; o.maxnp = 4; o.maxnf = 3; o.pool = 5; o.pmin = 0; o.deep = true;
  o.style = r.chance(.6) ? r.pick(vector<int>{ST_CLOSE, ST_DIGITS, ST_REAL, ST_HUGE, ST_BIGINT}) : ST_INT;
  vector<GR> g; int n = left ? 1 : r.range(1, 2);
  b.newjob(1, "jit"); for (int i = 0; i < n; i++) { GR x = make_region(b, i, o); if (x.model == "RandomForest") x.info = "RandomForest,num_trees=" + S(r.range(1, 2)) + ",explore=RoundRobin"; g.push_back(x); }
  p.jobs.clear(); b.j = -1; b.ids.clear();
  for (int j = 0; j < jobs; j++) {
    b.newjob(np, "jit"); b.job().pid_base = 1000 + (left || r.chance(.5) ? 0 : 100 * j); if (np > 1) for (auto &s : b.job().start) s = r.below(r.chance(.5) ? 1000 : 3000000);
    if (store) b.env("APOLLO_STORE_MODELS=1");
    for (int rk = 0; rk < np; rk++) {
      b.rank = rk; bool load = j > 0 && !left && r.chance(.7); string own = np > 1 ? "P" + S(rk) : "";
      for (auto &x : g) {
        GR y = x; y.name = x.name.substr(0, 50) + own;
        if (load) { string m = x.model + "-latest-rank-0-" + y.name + ".yaml"; emit_reg(b, y, "", ".apollo/models/" + m); }
        else emit_reg(b, y);
      }
      int trains = r.range(1, 3); string salt = S(r.below(99));
      for (int t = 0; t < trains; t++) {
        for (int i = r.range(3, 16); i > 0; i--) { GR &x = g[r.below(n)]; b.op("x", cat({S(x.slot), "s", "1", "c:" + salt}, r.pick(x.pool))); }
        if (r.chance(.7)) b.op("t", {S(t)});
        else { GR &x = g[r.below(n)]; b.op("r", {S(x.slot), S(t), "1", "1", "0"}); }
        if (t + 1 < trains && r.chance(.5)) salt = S(r.below(99));
        for (auto &x : g) {
          for (auto &f : x.pool) b.op("q", cat({S(x.slot), "1"}, f));
          for (int k = 0; k < 3; k++) { vector<float> f = r.pick(x.pool), h = r.pick(x.pool); for (size_t z = 0; z < f.size(); z++) f[z] = r.chance(.3) ? h[z] : r.chance(.5) ? (f[z] + h[z]) / 2 : std::nextafterf((f[z] + h[z]) / 2, r.chance(.5) ? INFINITY : -INFINITY); b.op("q", cat({S(x.slot), "1"}, f)); }
        }
        for (auto &x : g) if (r.chance(.3)) b.op("r", {S(x.slot), S(t), "1", "1", "0"});
      }
    }
  }
}
static void chk19(const Plan &p, RunResult &r)
{
  if (p.jobs.empty()) return;
  Plan def = p; for (auto &b : def.jobs) b.variant = "def";
  def.rules.clear(); for (auto i = def.faults.begin(); i != def.faults.end();) if (i->second.kind == F_CCFAIL || i->second.kind == F_KILL) i = def.faults.erase(i); else ++i;
  Hist h = execute(p); r.add(h);
  if (h.hang || h.deadlock) { alive(p, h, r); return; }
  Hist d = execute(def); r.add(d, false);
  for (auto &e : d.ends) if (e.death != D_EXIT) { r.skip = "the interpreted run does not end normally"; return; }
  bool killed = false;
  for (size_t j = 0; j < p.jobs.size(); j++) for (size_t rk = 0; rk < p.jobs[j].prog.size(); rk++) {
    const NodeEnd *e = h.end((int)j, (int)rk); if (!e) continue;
    if (e->death == D_KILLED) killed = true;
    else if (e->death != D_EXIT) {
      bool ccfail = false; for (auto &f : h.fired) if (f.second.kind == F_CCFAIL && f.first.job == (int)j && f.first.rank == (int)rk && f.first.op == e->op) ccfail = true;
      // a later run that loads what a killed or stopped one never stored
      bool gone = false; const OpRec *o = h.find((int)j, (int)rk, e->op);
      if (o && o->kind == "reg" && o->a.size() > 6 && !o->a[6].empty() && j) { auto &f = h.files_job[j - 1]; gone = !f.count("/work/" + o->a[6]); }
      if (gone) continue;
      if (e->death == D_SIGNAL || !ccfail) { RunResult t; alive(p, h, t, (int)j); r.fail(t.viol); return; }
      r.count["probe.stopped_at_compiler_failure"]++;
      r.nontrivial = true;
    } else for (auto &f : h.fired) if (f.second.kind == F_CCFAIL && f.first.job == (int)j && f.first.rank == (int)rk) r.count["probe.survived_compiler_failure"]++;
    bool loads = false; for (auto &o : p.jobs[j].prog[rk]) if (o.kind == "reg" && o.a.size() > 6 && !o.a[6].empty()) loads = true;
    if (j && killed && loads) continue;
    for (auto *o : node_ops(h, (int)j, (int)rk)) {
      if (o->out.empty() || (o->kind != "q" && !is_exec_kind(o->kind))) continue;
      const OpRec *x = d.find((int)j, (int)rk, o->op); if (!x || x->out.empty()) continue;
      for (size_t i = 0; i < o->out.size() && i < x->out.size(); i++) if (o->out[i] != x->out[i]) { r.fail("differs: " + where(*o) + " recommends " + o->out[i] + "; the same model without just-in-time compilation recommends " + x->out[i]); return; }
      if (o->kind == "q" && o->regs.count(o->slot) && !o->regs.at(o->slot).trainable) r.nontrivial = true;
    }
  }
  finish_shape(h, r);
}
void register_a(); void register_b(); void register_d();
void register_c()
{
  PROPS.push_back({"C18", gen18, chk18, "kk*3"});
  PROPS.push_back({"C29", gen29, chk29, "kk*3"});
  PROPS.push_back({"C19", gen19, chk19, "jit*6 def*6"});
  PROPS.push_back({"C20", gen20, chk20, "def*3 mpi*3"});
  PROPS.push_back({"C21", gen21, chk21, "def*4 mpi*4"});
  PROPS.push_back({"C22", gen22, chk22, "def*2 mpi*3"});
  PROPS.push_back({"C23", gen23, chk23, "def*2 mpi*2"});
  PROPS.push_back({"C24", gen24, chk24, "def*1 mpi*1"});
}
vector<Prop> PROPS;
static struct Reg { Reg() { register_a(); register_b(); register_c(); register_d(); } } reg_;
