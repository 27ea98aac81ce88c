// Properties C09 to C17: persistence, crashes, damage, storage faults, MPI, shared directories, traces.
#include "props.h"
#include <sstream>

static void benign_rules(Rng &r, Plan &p)
{
  if (r.chance(.6)) { Rule x{F_SHORT, r.chance(.5) ? .1 : .5}; p.rules.push_back(x); }
  if (r.chance(.6)) { Rule x{F_EINTR, r.chance(.5) ? .1 : .3}; p.rules.push_back(x); }
}
static const RegSnap *snap_of(const OpRec *o, int slot) { if (!o) return nullptr; auto i = o->regs.find(slot); return i == o->regs.end() ? nullptr : &i->second; }
static vector<float> feats_of(const OpRec &o, size_t i) { vector<float> v; for (; i < o.a.size(); i++) v.push_back((float)parsed(o.a[i])); return v; }
static int max_id(const Plan &p, int job, int rank) { int m = 0; if (job < (int)p.jobs.size() && rank < (int)p.jobs[job].prog.size()) for (auto &o : p.jobs[job].prog[rank]) m = std::max(m, o.id); return m; }

// ================================================================ C09 persistent datasets
static void gen09(Rng &r, Plan &p)
{
  PB b(p, r); common_knobs(r, p); benign_rules(r, p);
  RegOpts o; o.models = {"DecisionTree", "RandomForest", "PolicyNet", "RoundRobin", "Random", "Static"}; o.minnf = 0; o.maxnf = r.chance(.2) ? 12 : 4; o.maxnp = r.chance(.2) ? 40 : 5; o.pool = r.chance(.1) ? 60 : 8;
  vector<GR> g; int n = some(r, 1, 4, 12), njobs = r.range(2, 4);
  bool big = r.chance(.006); if (big) { n = 1; njobs = 3; o.minnf = 2; o.models = {"DecisionTree", "RandomForest", "RoundRobin", "Random"}; }   // now and then far more measurements than usual
  for (int i = 0; i < n; i++) g.push_back(make_region(b, i, o));
  string od = r.chance(.2) ? "APOLLO_OUTPUT_DIR=tuning" : "", dd = r.chance(.2) ? "APOLLO_DATASETS_DIR=db" : "";
  for (int jb = 0; jb < njobs; jb++) {
    b.newjob();
    if (!r.chance(.1) || jb == 0) b.env("APOLLO_PERSISTENT_DATASETS=1");
    if (!od.empty()) b.env(od);
    if (!dd.empty()) b.env(dd);
    if (r.chance(.2)) b.env("APOLLO_STORE_MODELS=1");
    if (r.chance(.2) && !big) b.env("APOLLO_GLOBAL_TRAIN_PERIOD=" + S(r.range(1, 15)));
    vector<GR> live;
    for (int i = 0; i < n; i++) if (r.chance(.8)) live.push_back(g[i]);
    if (live.empty()) continue;
    bool late = r.chance(.3);
    for (size_t i = 0; i < (late ? 1 : live.size()); i++) emit_reg(b, live[i]);
    vector<GR> cur(live.begin(), late ? live.begin() + 1 : live.end());
    Mix m{b, cur}; m.user = r.chance(.5); m.pburst = .06;
    for (int i = r.range(0, r.chance(.1) ? 120 : 30); i > 0; i--) { m.step(); if (r.chance(.05)) b.op("t", {S(i)}); }
    m.finish();
    if (big && jb < 2) { auto pool = feature_pool(r, live[0].nf, r.range(300, 1100), -1); for (auto &f : pool) b.op("x", cat({S(live[0].slot), "s", "1", hexd(rnd_metric(r))}, f)); }
    if (late) for (size_t i = 1; i < live.size(); i++) { emit_reg(b, live[i]); for (auto &f : live[i].pool) b.op("x", cat({S(live[i].slot), "s", "1", hexd(rnd_metric(r))}, f)); }
  }
}
static bool chk_initial(const map<string, std::pair<IDS, std::set<DKey>>> &known, const RegInfo *ri, const DS &d, string *why)
{
  static const std::pair<IDS, std::set<DKey>> none;
  auto k = known.find(ri->name); auto &e = k == known.end() ? none : k->second;
  if (!ids_match(e.first, d, why)) return false;
  for (auto &x : e.first) if (!e.second.count(x.first) && d.at(x.first) != x.second.lo) { char c[160]; snprintf(c, sizeof c, " policy %d: %.17g instead of %.17g", x.first.second, d.at(x.first), x.second.lo); *why = show(x.first.first) + c; return false; }
  return true;
}
static void chk09(const Plan &p, RunResult &r)
{
  Hist h = execute(p); r.add(h);
  map<string, std::pair<IDS, std::set<DKey>>> known; size_t carried = 0;
  for (size_t jb = 0; jb < p.jobs.size(); jb++) {
    bool pers = env_of(p.jobs[jb], "APOLLO_PERSISTENT_DATASETS") == "1";
    for (auto *o : node_ops(h, jb, 0)) {
      if (o->kind != "reg" || o->skipped || !o->finished || !pers) continue;
      const RegInfo *ri = h.reg(jb, 0, o->slot); string why;
      const DS &d = *o->regs.at(o->slot).ds;
      if (known.count(ri->name)) carried += known[ri->name].first.size();
      if (!chk_initial(known, ri, d, &why)) { r.fail("changed: region " + ri->name + " starts job " + S(jb) + " with other measurements than it ended with: " + why); return; }
    }
    if (pers) for (auto &ri : h.regs) if (ri.job == (int)jb) {
      IDS f; if (!final_ids(p, h, jb, 0, ri.slot, f)) continue;
      std::set<DKey> touched; auto ops = node_ops(h, jb, 0);
      if (!ops.empty()) for (int e : ops.back()->completed) if (h.execs[e].slot == ri.slot) touched.insert(DKey(h.execs[e].features, h.execs[e].policy));
      known[ri.name] = {f, touched};
    }
  }
  if (!alive(p, h, r)) return;
  r.nontrivial = carried > 0;
  finish_shape(h, r);
}

// ================================================================ C10 stored models
static void gen10(Rng &r, Plan &p)
{
  PB b(p, r); common_knobs(r, p); benign_rules(r, p); b.newjob();
  b.env("APOLLO_STORE_MODELS=1");
  string dir = ".apollo", md = "models";
  if (r.chance(.15)) { b.env("APOLLO_OUTPUT_DIR=o.ut"); dir = "o.ut"; }
  if (r.chance(.15)) { b.env("APOLLO_MODELS_DIR=mm"); md = "mm"; }
  p.text["dir"] = dir + "/" + md + "/";
  if (r.chance(.3)) b.env("APOLLO_PERSISTENT_DATASETS=1");
  p.knob["how"] = r.range(0, 3);   // latest, step file by parameter, step file by argument, chain of stores
  p.knob["step"] = r.range(1, 3);
  p.knob["execs"] = r.range(0, 1);
  p.knob["bypath"] = r.chance(.3);
  int n = r.range(1, 3); vector<GR> g; bool many = false; vector<int> nets;
  for (int i = 0; i < n; i++) {
    RegOpts o; o.models = {"DecisionTree", "RandomForest", "DecisionTree", "PolicyNet"}; o.minnp = r.chance(.1) ? 1 : 2; o.maxnp = r.chance(.2) ? 30 : 5; o.pmin = .3; o.pool = r.chance(.2) ? 40 : 10; o.deep = r.chance(.4); o.maxnf = 4;
    GR x = make_region(b, i, o);
    size_t t = x.info.find(",threshold="); if (t != string::npos) x.info.erase(t, 14);
    if (x.model == "PolicyNet" && r.chance(.4)) { x.min = 0; x.info = "PolicyNet,beta=" + string(r.chance(.5) ? "0.9" : r.chance(.5) ? "0.97" : "0.4") + ",threshold=0." + S(r.range(15, 95)); many = many || r.chance(.6); nets.push_back(i); }
    g.push_back(x); emit_reg(b, x);
  }
  Mix m{b, g}; m.async = false; m.overlap = r.chance(.5); m.user = false; m.cost = r.chance(.7) ? "c:" + S(r.below(99)) : "";
  int rounds = many ? r.range(6, 14) : r.range(1, 3), mode = r.range(0, 4);
  if (rounds == 1 && mode > 2 && r.chance(.7)) rounds = 3;
  for (int k0 = 1; k0 <= rounds; k0++) {
    int k = mode < 3 ? k0 : mode == 3 ? rounds - k0 : r.range(0, 2);   // steps may repeat or go back, as after a restart of the application's count
    int len = r.range(2, r.chance(.1) ? 100 : many ? 6 : 40);
    for (int i : nets) for (int z = r.range(1, 4); z > 0; z--) b.op("x", cat({S(i), "s", "1", hexd(r.uni() * 2)}, r.pick(g[i].pool)));
    for (int i = 0; i < len; i++) m.step();
    m.finish();
    for (int i = 0; i < n; i++) if (r.chance(.9)) { if (r.chance(.8)) b.op("r", {S(i), S(k), "1", "1"}); else b.op("t", {S(k)}); }
    m.cost = r.chance(.7) ? "c:" + S(r.below(99)) : "";
  }
}
static vector<vector<float>> probes(const DS &d, Rng &r, size_t max)
{
  std::set<vector<float>> base; for (auto &e : d) base.insert(e.first.first);
  vector<vector<float>> v(base.begin(), base.end()), out = v;
  if (v.empty()) return out;
  size_t nf = v[0].size();
  for (size_t i = 0; i < nf; i++) {
    std::set<float> vals; for (auto &x : v) vals.insert(x[i]);
    vector<float> c(vals.begin(), vals.end());
    for (size_t k = 0; k + 1 < c.size(); k++) {
      float mid = (float)(((double)c[k] + c[k + 1]) / 2);
      for (float t : {mid, nextafterf(mid, -INFINITY), nextafterf(mid, INFINITY)}) if (std::isfinite(t)) { vector<float> f = r.pick(v); f[i] = t; out.push_back(f); }
    }
  }
  if (out.size() > max) { for (size_t i = 0; i < max; i++) std::swap(out[i], out[i + r.below(out.size() - i)]); out.resize(max); }
  return out;
}
static void chk10(const Plan &p, RunResult &r)
{
  Hist h0 = execute(p); r.add(h0, false);
  if (!alive(p, h0, r)) return;
  Rng pr(hash_of(p.seed, 31));
  string dir = p.tx("dir"); int how = (int)p.kn("how"), K = 60;
  Plan q = p; auto &prog = q.jobs[0].prog[0]; int id = max_id(p, 0, 0) + 1;
  Job next = p.jobs[0]; next.prog[0].clear(); next.pid_base += 100;
  struct Probe { int op0, op1, op2, op3; string name; bool pn; };
  vector<Probe> ps; int id1 = 1, id2 = 1; Job chain = next; chain.pid_base += 100;
  for (auto &ri : h0.regs) {
    string model = ri.info.substr(0, ri.info.find(',')); bool pn = model == "PolicyNet";
    string latest = dir + model + "-latest-rank-" + S((i64)p.kn("asrank")) + "-" + ri.name + ".yaml";
    if (!h0.files_job[0].count("/work/" + latest)) continue;
    // which file, and after which op do the reference probes go
    string file; int after = -1; DS ds; const OpRec *last = nullptr;
    auto ops = node_ops(h0, 0, 0);
    for (auto *o : ops) if (snap_of(o, ri.slot)) ds = *snap_of(o, ri.slot)->ds;
    if (how == 1 || how == 2) {
      string st = S((i64)p.kn("step")); const OpRec *hit = nullptr; bool amb = false;
      for (auto *o : ops) {
        bool t = (o->kind == "r" && o->slot == ri.slot && !o->skipped) || o->kind == "t";
        if (!t || o->a.empty()) continue;
        if ((o->kind == "r" ? o->a[1] : o->a[0]) == st) { if (o->kind == "r" && o->a.size() > 3 && o->a[3] == "1" && snap_of(o, ri.slot) && !snap_of(o, ri.slot)->ds->empty()) hit = o; else if (o->kind == "t") amb = true; }
      }
      if (hit && !amb && !pn && ri.min == 0) { file = dir + model + "-step-" + st + "-rank-" + S((i64)p.kn("asrank")) + "-" + ri.name + ".yaml"; after = hit->op; ds = *snap_of(hit, ri.slot)->ds; }
    }
    vector<vector<float>> f = probes(ds, pr, pn ? 4 : 40);
    string reg = "reg", info = ri.info, yaml;
    if (file.empty()) info += ",load"; else if (how == 1) info += ",load=" + file; else yaml = file;
    if (pn) {
      // the random numbers it has drawn: none while its average reward is below the threshold
      int burn = 0, rop = -1, cnt = 0; size_t tq = ri.info.find(",threshold="), bq = ri.info.find(",beta=");
      double th = tq == string::npos ? 0 : atof(ri.info.c_str() + tq + 11), beta = bq == string::npos ? .5 : atof(ri.info.c_str() + bq + 6), avg = 0; bool under = 0 < th, unsure = false;
      if (th > 0 && (ri.min || !env_of(p.jobs[0], "APOLLO_GLOBAL_TRAIN_PERIOD").empty() || !env_of(p.jobs[0], "APOLLO_PER_REGION_TRAIN_PERIOD").empty())) continue;
      for (auto *o : ops) {
        if ((is_exec_kind(o->kind) || o->kind == "q") && o->slot == ri.slot && !under) burn += (int)o->out.size();
        if (o->kind == "reg" && o->slot == ri.slot && !o->skipped) rop = o->op;
        auto s = snap_of(o, ri.slot);
        if (((o->kind == "r" && o->slot == ri.slot && !o->skipped) || o->kind == "t" || o->kind == "fl") && s && !s->ds->empty()) {
          double a = 0; for (auto &e : *s->ds) a += std::exp(-e.second);
          avg = beta * avg + (1 - beta) * a / s->ds->size(); double base = avg / (1 - std::pow(beta, ++cnt)); under = base < th; if (std::fabs(base - th) < 1e-9) unsure = true;
        }
      }
      if (unsure) continue;
      next.prog[0].push_back(Op{id1++, "R", {S(rop)}});
      next.prog[0].push_back(Op{id1++, "reg", {S(ri.slot), ri.name, S(ri.nf), S(ri.np), "0", info, "", "0"}});
      if (burn && !f.empty()) next.prog[0].push_back(Op{id1++, "q", cat({S(ri.slot), S(burn)}, f[0])});
    }
    // the stored model as one of its own, made from the path
    int own = -1;
    if (p.kn("bypath") && !pn) { own = 100 + ri.slot; next.prog[0].push_back(Op{id1++, "fp", {S(own), model, S(ri.np), file.empty() ? latest : file}}); }
    if (!pn) next.prog[0].push_back(Op{id1++, "reg", {S(ri.slot), ri.name, S(ri.nf), S(ri.np), "0", info, yaml, "0"}});
    if (how == 3 && !pn) chain.prog[0].push_back(Op{id2++, "reg", {S(ri.slot), ri.name, S(ri.nf), S(ri.np), "0", ri.info + ",load=copy-" + S(ri.slot), "", "0"}});
    for (auto &x : f) {
      Probe b{id, id1, -1, -1, ri.name, pn};
      Op o{id++, "q", cat({S(ri.slot), S(pn ? K : 1)}, x)};
      if (after < 0) prog.push_back(o);
      else { for (size_t i = 0; i < prog.size(); i++) if (prog[i].id == after) { prog.insert(prog.begin() + i + 1, o); break; } }
      bool ex = p.kn("execs") && !pn && pr.chance(.5);
      if (ex) next.prog[0].push_back(Op{id1++, "x", cat({S(ri.slot), "s", "1", hexd(rnd_metric(pr))}, x)});
      else { Op o1 = o; o1.id = id1++; next.prog[0].push_back(o1); }
      if (own >= 0) { b.op3 = id1; next.prog[0].push_back(Op{id1++, "fq", cat({S(own), "1"}, x)}); }
      if (how == 3 && !pn) { b.op2 = id2; Op o2 = o; o2.id = id2++; chain.prog[0].push_back(o2); }
      ps.push_back(b);
    }
    if (how == 3 && !pn) next.prog[0].push_back(Op{id1++, "st", {S(ri.slot), "copy-" + S(ri.slot)}});
  }
  if (ps.empty()) { r.add(Hist(), true); return; }
  q.jobs.push_back(next); if (how == 3) q.jobs.push_back(chain);
  Hist h = execute(q); r.add(h);
  for (auto &e : h.ends) if (e.death != D_EXIT) { r.fail("load: loading a stored model fails: job " + S(e.job) + " ended by " + death_name[e.death] + " (" + e.why + ")"); return; }
  if (!alive(q, h, r)) return;
  for (auto &o : h.ops) if (o.job > 0 && o.kind == "reg" && !o.skipped) {
    const RegInfo *ri = h.reg(o.job, 0, o.slot);
    if (ri->info.find("PolicyNet") != 0 && o.regs.at(o.slot).trainable) { r.fail("explores: region " + ri->name + " still explores after loading its model"); return; }
  }
  for (auto &b : ps) {
    const OpRec *a = h.find(0, 0, b.op0);
    for (int way = 1; way <= 3; way++) {
      int oid = way == 1 ? b.op1 : way == 2 ? b.op2 : b.op3; if (oid < 0) continue;
      const OpRec *c = h.find(way == 2 ? 2 : 1, 0, oid);
      if (!a || !c || a->out.empty() || c->out.empty() || a->skipped || c->skipped) continue;
      r.nontrivial = true;
      if (b.pn ? a->out != c->out : a->out[0] != c->out[0]) { r.fail(string(b.pn ? "draws" : "answers") + ": region " + b.name + " recommends " + a->out[0] + " in " + where(*a) + " and " + c->out[0] + " in " + where(*c) + " after loading the stored model (" + h.reg(0, 0, a->slot)->info + ")"); return; }
    }
  }
  finish_shape(h, r);
}

// ================================================================ C11 crash while saving
static void gen11(Rng &r, Plan &p)
{
  PB b(p, r); common_knobs(r, p);
  if (r.chance(.3)) benign_rules(r, p);
  RegOpts o; o.models = {"DecisionTree", "RandomForest", "PolicyNet", "DecisionTree", "RoundRobin"}; o.maxnf = 2; o.maxnp = 4; o.pmin = 0; o.pool = r.chance(.2) ? 60 : 8;
  vector<GR> g; int n = r.range(1, 3);
  for (int i = 0; i < n; i++) g.push_back(make_region(b, i, o));
  p.knob["killjob"] = r.chance(.3) ? 0 : 1;
  bool load = p.kn("killjob") == 1 && r.chance(.6), store = r.chance(.7), pers = !store || r.chance(.8);
  for (int jb = 0; jb < 3; jb++) {
    b.newjob();
    if (pers) b.env("APOLLO_PERSISTENT_DATASETS=1");
    if (store) b.env("APOLLO_STORE_MODELS=1");
    for (int i = 0; i < n; i++) emit_reg(b, g[i], jb && load && store && g[i].trainable() ? ",load" : "");
    Mix m{b, g}; m.async = r.chance(.3); m.overlap = false; m.user = false; m.cost = "c:" + S(jb);
    int rounds = r.range(1, 2);
    for (int k = 0; k < rounds; k++) {
      for (int i = 0; i < n; i++) if (g[i].pool.size() > 20) for (auto &f : g[i].pool) b.op("x", cat({S(i), "s", "1", m.cost}, f));
      for (int i = r.range(2, 12); i > 0; i--) m.step();
      for (int i = 0; i < n; i++) if (jb == 0 || r.chance(.7)) { b.op("x", cat({S(i), "s", "1", m.cost}, r.pick(g[i].pool))); if (g[i].trainable()) b.op("r", {S(i), S(r.range(0, 2)), "1", "1"}); }
    }
  }
}
static string brief(const PStr &s) { if (!s) return "(absent)"; string t; for (char c : s->substr(0, 40)) t += isprint((unsigned char)c) ? c : '.'; return S(s->size()) + " bytes \"" + t + "\""; }
static void chk11(const Plan &p, RunResult &r)
{
  if (!loads_valid(p)) { r.skip = "plan loads what was not saved"; return; }
  int kj = (int)p.kn("killjob");
  if (kj >= (int)p.jobs.size()) { r.skip = "no job to kill"; return; }
  RunOpts ro; ro.snap_files = true;
  Plan q = p, u = p; bool has = false;
  for (auto i = u.faults.begin(); i != u.faults.end();) if (i->second.kind == F_KILL) { has = true; i = u.faults.erase(i); } else ++i;
  Hist t = execute(u, ro); r.add(t, false);
  if (!alive(u, t, r)) return;
  if (!has) {
    // an instant while a file is being saved, most of the time
    Rng pr(hash_of(p.seed, 41));
    struct C { int op, n; bool saves; }; vector<C> c;
    auto ops = node_ops(t, kj, 0); const Files *prev = nullptr; Files empty;
    for (auto *o : ops) {
      bool saves = false;
      if (o->files) { const Files &b = prev ? *prev : empty; for (auto &f : *o->files) if (saved_path(f.first)) { auto i = b.find(f.first); if (i == b.end() || *i->second != *f.second) saves = true; } prev = o->files.get(); }
      if (o->seams > 0) c.push_back({o->op, o->seams, saves});
    }
    if (c.empty()) return;
    vector<C> s; for (auto &x : c) if (x.saves) s.push_back(x);
    C x = !s.empty() && pr.chance(.9) ? pr.pick(s) : pr.pick(c);
    Fault f; f.kind = F_KILL; f.arg = pr.chance(.4) ? 0 : 1 + (i64)pr.below(pr.chance(.5) ? 200 : 9000);
    q.faults[Key{kj, 0, x.op, (int)pr.below(x.n)}] = f;
  }
  RunOpts rk; rk.snap_files = true;
  Hist h = execute(q, rk); r.add(h);
  if (h.hang) { r.fail("hang: " + h.note); return; }
  const NodeEnd *e = h.end(kj, 0);
  if (!e || e->death != D_KILLED) { if (e && e->death != D_EXIT) alive(q, h, r); return; }
  // the versions of each file before and after the interrupted operation
  const Files &crash = h.files_job[kj]; static const Files none;
  const Files *before = kj > 0 ? &t.files_job[kj - 1] : &none, *after = before; const OpRec *hit = nullptr;
  for (auto *o : node_ops(t, kj, 0)) { if (o->files) after = o->files.get(); if (o->op == e->op) { hit = o; break; } if (o->files) before = o->files.get(); }
  std::set<string> names; for (auto &f : t.files_job) for (auto &x : f) if (saved_path(x.first)) names.insert(x.first);
  bool mid = false;
  for (auto &nme : names) {
    auto get = [&](const Files &f) -> PStr { auto i = f.find(nme); return i == f.end() ? nullptr : i->second; };
    PStr a = get(*before), b = get(*after), c = get(crash);
    auto eq = [](const PStr &x, const PStr &y) { return (!x && !y) || (x && y && *x == *y); };
    if (!eq(a, b)) mid = true;
    bool between = false; if (hit && c) for (auto &w : hit->wrote) if (w.first == nme && *w.second == *c) between = true;   // the operation saves it more than once
    if (!eq(c, a) && !eq(c, b) && !between) { r.fail("destroyed: after the process was killed in job " + S(kj) + " op " + S(e->op) + " (" + e->why + "), " + nme + " holds " + brief(c) + ", neither its previous content (" + brief(a) + ") nor the new one (" + brief(b) + ")"); return; }
  }
  r.nontrivial = mid;
  // the next run starts normally and knows it
  if (kj + 1 >= (int)p.jobs.size()) return;
  for (auto &x : h.ends) if (x.job > kj && x.death != D_EXIT) { const OpRec *o = h.find(x.job, x.rank, x.op); r.fail("restart: the run after the crash ended by " + string(death_name[x.death]) + " (" + x.why + ") in " + (o ? where(*o) : "?")); return; }
  if (env_of(p.jobs[kj + 1], "APOLLO_PERSISTENT_DATASETS") == "1")
    for (auto *o : node_ops(h, kj + 1, 0)) if (o->kind == "reg" && !o->skipped && o->finished) {
      const RegInfo *ri = h.reg(kj + 1, 0, o->slot); auto f = crash.find(dsfile(ri->name)); DS want;
      if (f != crash.end()) { DsFile d = parse_dataset(*f->second); if (!d.ok) continue; want = d.ds; }
      string why; if (!ds_equal(want, *o->regs.at(o->slot).ds, 0, &why)) { r.fail("forgot: region " + ri->name + " starts after the crash with other measurements than were saved: " + why); return; }
    }
  finish_shape(h, r);
}

// ================================================================ C12 damaged state
static void gen12(Rng &r, Plan &p)
{
  PB b(p, r); common_knobs(r, p);
  RegOpts o; o.models = {"DecisionTree", "RandomForest", "PolicyNet", "RoundRobin"}; o.maxnf = 3; o.minnp = 2; o.maxnp = 4; o.pmin = 0; o.pool = r.chance(.2) ? 40 : 6;
  int n = r.range(1, 2); vector<GR> g;
  for (int i = 0; i < n; i++) { g.push_back(make_region(b, i, o)); size_t t = g[i].info.find(",threshold"); if (t != string::npos) g[i].info.erase(t, 14); }
  b.newjob(); b.env("APOLLO_PERSISTENT_DATASETS=1"); b.env("APOLLO_STORE_MODELS=1");
  for (int i = 0; i < n; i++) {
    emit_reg(b, g[i]);
    for (int k = 0; k < 2; k++) for (auto &f : g[i].pool) b.op("x", cat({S(i), "s", "1", "c:q"}, f));
    if (g[i].trainable()) b.op("r", {S(i), "1", "1", "1"});
  }
  b.newjob();
  bool pers = r.chance(.5); if (pers) b.env("APOLLO_PERSISTENT_DATASETS=1");
  vector<string> suf; vector<vector<string>> uses(n);
  int cutr = (int)r.below(n);
  for (int i = 0; i < n; i++) {
    vector<string> s = {""}; if (g[i].trainable()) { s.push_back(",load"); s.push_back(",load"); s.push_back(",load-dataset"); }
    suf.push_back(r.pick(s));
    if (g[i].model == "RoundRobin" && r.chance(.6)) { suf[i] = "DatasetMap"; }
    string ds = ".apollo/datasets/Dataset-" + g[i].name + ".yaml", md = ".apollo/models/" + g[i].model + "-latest-rank-0-" + g[i].name + ".yaml";
    if (pers || suf[i] == ",load-dataset" || suf[i] == "DatasetMap") uses[i].push_back(ds);
    if (suf[i] == ",load") { uses[i].push_back(md); uses[i].push_back(md); }
  }
  string f = uses[cutr].empty() ? "" : r.pick(uses[cutr]);
  int how = r.range(0, 5);
  if (how == 5) {   // the file an explicit load names is gone
    bool named = !f.empty() && (f.find("models") != string::npos || suf[cutr] == ",load-dataset" || suf[cutr] == "DatasetMap");
    if (named) b.op("rmf", {f}); else how = r.range(0, 4);
  }
  if (!f.empty() && how >= 2 && how < 5) {
    i64 size = g[cutr].model == "PolicyNet" && f.find("models") != string::npos ? 8 * ((64 * g[cutr].nf + 1) * (64 * g[cutr].nf) / 2) : f.find("models") != string::npos ? 900 : 60 + 60 * (i64)g[cutr].pool.size();
    i64 at = r.chance(.15) ? (i64)r.below(12) : (i64)r.below(size + size / 2);
    p.knob["cutend"] = r.chance(.4) ? r.range(1, 60) : 0;   // counted from the end
    if (r.chance(.35)) { p.knob["cutend"] = 0; p.knob["cutat"] = 1 + (double)r.below(1000000); }   // right after a closing bracket or a line's end
    p.text["cutfile"] = f;
    b.op("cut", {f, S(at)});
  }
  for (int i = 0; i < n; i++) {
    int rop = b.next();
    if (i == cutr && !f.empty() && how < 2) { Rule x{how == 0 ? F_OPENR : F_READERR, how == 0 || r.chance(.3) ? 1 : .3, 1, 0, rop, rop, f.substr(f.rfind('/') + 1)}; p.rules.push_back(x); }
    if (suf[i] == "DatasetMap") { GR x = g[i]; x.info = "DatasetMap"; emit_reg(b, x); }
    else emit_reg(b, g[i], suf[i], r.chance(.1) && suf[i] == ",load" ? ".apollo/models/" + g[i].model + "-latest-rank-0-" + g[i].name + ".yaml" : "");
  }
  for (int i = 0; i < n; i++) for (auto &x : g[i].pool) b.op("q", cat({S(i), g[i].model == "PolicyNet" ? "30" : "1"}, x));
}
static void chk12(const Plan &p0, RunResult &r)
{
  if (p0.jobs.size() < 2) { r.skip = "one job only"; return; }
  if (!loads_valid(p0)) { r.skip = "plan loads what was not saved"; return; }
  Plan p = p0, q = p0;
  { vector<Op> v; for (auto &o : q.jobs[1].prog[0]) if (o.kind != "cut" && o.kind != "rmf") v.push_back(o); q.jobs[1].prog[0] = v; }
  RunOpts ro; ro.nofaults = true;
  Hist t = execute(q, ro); r.add(t, false);
  if (!alive(q, t, r)) return;
  if (p.kn("cutend") && !p.tx("cutfile").empty()) {
    auto f = t.files_job[0].find("/work/" + p.tx("cutfile"));
    if (f == t.files_job[0].end()) return;
    for (auto &o : p.jobs[1].prog[0]) if (o.kind == "cut") { i64 l = (i64)f->second->size() - (i64)p.kn("cutend"); if (l < 0) l = 0; o.a[1] = S(l); }
  }
  if (p.kn("cutat") && !p.tx("cutfile").empty()) {
    auto f = t.files_job[0].find("/work/" + p.tx("cutfile"));
    if (f == t.files_job[0].end()) return;
    const string &s = *f->second; vector<i64> at; for (size_t i = 0; i + 1 < s.size(); i++) if (s[i] == '}' || s[i] == ']' || s[i] == '\n') at.push_back((i64)i + 1);
    if (!at.empty()) for (auto &o : p.jobs[1].prog[0]) if (o.kind == "cut") o.a[1] = S(at[(size_t)p.kn("cutat") % at.size()]);
  }
  Hist h = execute(p); r.add(h);
  if (h.hang || h.deadlock) { r.fail("hang: the process neither refused the damaged file nor came up: " + h.note); return; }
  const NodeEnd *e0 = h.end(0, 0), *e = h.end(1, 0);
  if (!e0 || e0->death != D_EXIT || !e) { r.skip = "first job failed"; return; }
  bool damage = false; for (auto &f : h.fired) damage = damage || f.second.kind == F_OPENR || f.second.kind == F_READERR;
  for (auto &o : h.ops) if ((o.kind == "cut" && !o.out.empty()) || (o.kind == "rmf" && o.job == 1)) damage = true;
  r.nontrivial = damage;
  if (e->death != D_EXIT) {
    if (!damage) { alive(p, h, r); return; }
    const OpRec *o = h.find(1, 0, e->op);
    if (e->death == D_SIGNAL) { r.fail("crash: loading damaged saved state makes the process fail by " + e->why + " instead of refusing it, in " + (o ? where(*o) : "?")); return; }
    if (o && o->kind == "reg") { r.count["probe.refused_damaged_state"]++; finish_shape(h, r); return; }
  }
  for (auto *o : node_ops(h, 1, 0)) {
    const OpRec *b = t.find(1, 0, o->op);
    if (!b || !b->finished || !o->finished) continue;
    if (b->out != o->out && o->kind != "cut") { r.fail("answers: with damaged saved state the region comes up and recommends " + (o->out.empty() ? string("nothing") : o->out[0]) + " instead of " + (b->out.empty() ? string("nothing") : b->out[0]) + " in " + where(*o)); return; }
    for (auto &s : o->regs) { auto i = b->regs.find(s.first); if (i == b->regs.end()) continue; string why; if (!ds_equal(*i->second.ds, *s.second.ds, 0, &why)) { r.fail("data: with damaged saved state region " + h.reg(1, 0, s.first)->name + " comes up with other measurements: " + why + " (undamaged against damaged)"); return; } if (i->second.trainable != s.second.trainable) { r.fail("exploring: with damaged saved state region " + h.reg(1, 0, s.first)->name + (s.second.trainable ? " explores instead of using its model" : " does not explore")); return; } }
  }
  if (e->death != D_EXIT) { alive(p, h, r); return; }
  finish_shape(h, r);
}

// ================================================================ C13 storage trouble while running
static void gen13_coll(Rng &r, Plan &p);
static void gen13(Rng &r, Plan &p)
{
  if (r.chance(.12)) { gen13_coll(r, p); return; }
  PB b(p, r); common_knobs(r, p); p.knob["filelat0"] = 1;
  RegOpts o; o.models = {"DecisionTree", "RandomForest", "PolicyNet", "RoundRobin", "Static", "Random"}; o.maxnf = 2; o.maxnp = 4; o.pmin = .2; o.pool = r.chance(.2) ? 50 : 6;
  vector<GR> g; int n = r.range(1, 3), njobs = r.chance(.5) ? 2 : 1;
  for (int i = 0; i < n; i++) g.push_back(make_region(b, i, o));
  for (int jb = 0; jb < njobs; jb++) {
    b.newjob();
    if (r.chance(.7)) b.env("APOLLO_PERSISTENT_DATASETS=1");
    if (r.chance(.7)) b.env("APOLLO_STORE_MODELS=1");
    if (r.chance(.5)) b.env("APOLLO_TRACE_CSV=1");
    if (r.chance(.2)) b.env("APOLLO_TRACE_POLICY=1");
    if (r.chance(.2)) b.env("APOLLO_TRACE_BEST_POLICIES=1");
    if (r.chance(.2)) b.env("APOLLO_STORE_EXEC_INFO=1");
    for (int i = 0; i < n; i++) emit_reg(b, g[i]);
    int lastreg = b.next() - 1;
    if (jb == njobs - 1) {
      static const int kinds[] = {F_ENOSPC, F_EIO, F_OPENW, F_CLOSEERR, F_RENAMEERR, F_ENOSPC};
      int nr = r.range(1, 4);
      int to = r.chance(.3) ? lastreg + r.range(3, 30) : 1 << 29;
      for (int i = 0; i < nr; i++) { Rule x{kinds[r.below(6)], r.chance(.3) ? 1. : r.chance(.5) ? .5 : .15, jb, 0, lastreg + 1, to}; p.rules.push_back(x); }
      if (r.chance(.3)) { Rule x{F_SHORT, .3, jb, 0, lastreg + 1, 1 << 29}; p.rules.push_back(x); }
    }
    Mix m{b, g}; m.sync = false; m.user = false; m.cost = "c:" + S(jb); m.pburst = .2;
    for (int i = r.range(3, 40); i > 0; i--) {
      m.step();
      if (r.chance(.06)) b.op("t", {S(i)});
      if (r.chance(.08)) { int k = (int)r.below(n); if (g[k].trainable()) { b.op("x", cat({S(k), "s", "1", "c:u"}, r.pick(g[k].pool))); b.op("r", {S(k), S(r.range(0, 2)), "1", "1"}); } }
    }
    m.finish();
  }
}
// Storage trouble of some ranks must not reach the others through collective training.
static void gen13_coll(Rng &r, Plan &p)
{
  PB b(p, r); common_knobs(r, p); p.knob["filelat0"] = 1;
  RegOpts o; o.models = {"DecisionTree", "RandomForest", "PolicyNet", "RoundRobin"}; o.maxnf = 2; o.maxnp = 4; o.pmin = 0; o.pool = 6;
  int ranks = r.range(2, 3), n = r.range(1, 3), trains = r.range(1, 3); vector<GR> g;
  b.newjob(ranks, "mpi"); b.job().mpi = true;
  b.env("APOLLO_COLLECTIVE_TRAINING=1"); b.env("APOLLO_LOCAL_TRAINING=0");
  if (r.chance(.8)) b.env("APOLLO_STORE_MODELS=1");
  if (r.chance(.3)) b.env("APOLLO_PERSISTENT_DATASETS=1");
  if (r.chance(.5)) b.env("APOLLO_TRACE_CSV=1");
  if (r.chance(.5)) b.env("APOLLO_TRACE_ALLGATHER=1");
  if (r.chance(.3)) b.env("APOLLO_TRACE_BEST_POLICIES=1");
  for (auto &s : b.job().start) s = r.below(1000000);
  for (int i = 0; i < n; i++) g.push_back(make_region(b, i, o));
  for (int rk = 0; rk < ranks; rk++) {
    b.rank = rk;
    for (int i = 0; i < n; i++) emit_reg(b, g[i]);
    static const int kinds[] = {F_ENOSPC, F_EIO, F_OPENW, F_CLOSEERR, F_RENAMEERR, F_ENOSPC};
    int lastreg = b.next() - 1;
    if (rk == 0 || r.chance(.3)) for (int i = r.range(1, 3); i > 0; i--) { Rule x{kinds[r.below(6)], r.chance(.4) ? 1. : r.chance(.5) ? .5 : .15, 0, rk, lastreg + 1, 1 << 29}; p.rules.push_back(x); }
    Mix m{b, g}; m.sync = false; m.async = false; m.user = false; m.cost = "c:" + S(rk);
    for (int t = 0; t < trains; t++) { for (int i = r.range(1, 15); i > 0; i--) m.step(); m.finish(); b.op("t", {S(t)}); }
    for (int i = r.range(0, 8); i > 0; i--) m.step();
    m.finish();
  }
}
static bool equal_trains(const Plan &p);
static void chk13(const Plan &p, RunResult &r)
{
  bool coll = p.jobs[0].prog.size() > 1;
  if (coll && !equal_trains(p)) { r.skip = "unequal training calls"; return; }
  RunOpts ro; ro.snap_files = true; ro.nofaults = true;
  Hist t = execute(p, ro); r.add(t, false);
  if (!alive(p, t, r)) return;
  ro.nofaults = false;
  Hist h = execute(p, ro); r.add(h);
  int bad = 0; for (auto &f : h.fired) if (f.second.kind != F_SHORT && f.second.kind != F_EINTR) bad++;
  r.nontrivial = bad > 0;
  int lj = (int)p.jobs.size() - 1;
  if (!alive(p, h, r)) return;
  for (auto &o : h.ops) {
    const OpRec *b = t.find(o.job, o.rank, o.op);
    if (!b) continue;
    if (o.out != b->out) { r.fail("recommendation: storage faults changed the recommendation in " + where(o) + ": " + (o.out.empty() ? "" : o.out[0]) + " instead of " + (b->out.empty() ? "" : b->out[0])); return; }
    for (auto &s : o.regs) { auto i = b->regs.find(s.first); string why; if (i == b->regs.end()) continue; if (!ds_equal(*i->second.ds, *s.second.ds, 0, &why)) { r.fail("data: storage faults changed the measurements of region " + h.reg(o.job, o.rank, s.first)->name + " after " + where(o) + ": " + why); return; } if (i->second.trainable != s.second.trainable) { r.fail("training: storage faults changed whether a region is trained after " + where(o)); return; } }
  }
  if (coll) { finish_shape(h, r); return; }
  const NodeEnd *a = t.end(lj, 0), *c = h.end(lj, 0);
  if (a && c && a->total >= 0 && c->total >= 0 && a->total != c->total) { r.fail("total: storage faults changed the number of accounted executions: " + S(c->total) + " instead of " + S(a->total)); return; }
  // files: only complete versions
  map<string, vector<std::pair<int, PStr>>> ver;   // name -> (index of the op after which it appeared, content)
  int k = 0; std::set<string> names;
  auto take = [&](const Files &f, int ix) { for (auto &x : f) if (saved_path(x.first)) { auto &v = ver[x.first]; if (v.empty() || *v.back().second != *x.second) v.push_back({ix, x.second}); names.insert(x.first); } };
  for (int j = 0; j < lj; j++) take(t.files_job[j], -1);
  vector<int> opids;
  for (auto *o : node_ops(t, lj, 0)) { opids.push_back(o->op); for (auto &w : o->wrote) if (saved_path(w.first) && o->files && o->files->count(w.first)) ver[w.first].push_back({(int)opids.size() - 1, w.second}); if (o->files) take(*o->files, (int)opids.size() - 1); }
  for (auto *o : node_ops(h, lj, 0)) {
    if (!o->files) continue;
    for (auto &x : *o->files) if (ver.count(x.first)) {
      bool ok = false; for (auto &v : ver[x.first]) ok = ok || *v.second == *x.second;
      if (!ok) { r.fail("destroyed: after storage faults " + x.first + " holds " + brief(x.second) + ", which is no complete version of it, after " + where(*o)); return; }
    }
  }
  const Files &end = h.files_job[lj];
  for (auto &v : ver) {
    bool had = v.second[0].first == -1; auto f = end.find(v.first);
    if (had && f == end.end()) { r.fail("lost: after storage faults " + v.first + " is gone"); return; }
    // saved again with no fault since: the newest version
    int last = v.second.back().first; if (last < 0) continue;
    bool faulty = false;
    for (auto &x : h.fired) if (x.first.job == lj) { for (size_t i = last; i < opids.size(); i++) if (opids[i] == x.first.op) faulty = true; }
    if (!faulty && (f == end.end() || *f->second != *v.second.back().second)) { r.fail("stale: the last save of " + v.first + " met no fault, yet it holds " + (f == end.end() ? "nothing" : brief(f->second))); return; }
  }
  finish_shape(h, r);
}

// ================================================================ C14/C15 collective training
static void gen_coll(Rng &r, Plan &p, bool c15)
{
  PB b(p, r); common_knobs(r, p);
  int ranks = c15 ? (r.chance(.5) ? 2 : r.range(3, 4)) : r.range(2, 4);
  if (r.chance(.05)) ranks = r.range(5, 8);
  b.newjob(ranks, "mpi"); b.job().mpi = true;
  b.env("APOLLO_COLLECTIVE_TRAINING=1"); b.env("APOLLO_LOCAL_TRAINING=0");
  if (r.chance(.3)) b.env("APOLLO_TRACE_ALLGATHER=1");
  if (r.chance(.2)) b.env("APOLLO_STORE_MODELS=1");
  if (!c15 && r.chance(.2)) b.env("APOLLO_PERSISTENT_DATASETS=1");
  if (r.chance(.5)) p.knob["pack_slack"] = r.range(1, 16);
  for (auto &s : b.job().start) s = r.below(3) ? r.below(1000000) : r.below(100000000);
  if (r.chance(.4)) { Rule x{F_STALL, .05, 0, r.chance(.5) ? (int)r.below(ranks) : -1}; p.rules.push_back(x); }
  RegOpts o; o.models = {"DecisionTree", "RandomForest", "DecisionTree", "RoundRobin"}; if (!c15) o.models.push_back("PolicyNet"); o.minnf = 0; o.maxnf = 5; o.maxnp = r.chance(.2) ? 6 : 4; o.pmin = 0; o.pool = 5;
  int n = some(r, 1, 4, 10); vector<GR> g; for (int i = 0; i < n; i++) { g.push_back(make_region(b, i, o)); if (r.chance(.15)) { g[i].name = string(63, 'n'); g[i].name[62] = '0' + i; } }
  if (!c15 && r.chance(.08)) { b.env("APOLLO_SINGLE_MODEL=1"); b.env("APOLLO_REGION_MODEL=0"); g[0].model = "DecisionTree"; g[0].info = "DecisionTree,max_depth=3"; for (int i = 1; i < n; i++) { GR x = g[0]; x.slot = i; x.name = g[i].name; g[i] = x; } }
  bool disjoint = c15 && ranks > 2;
  int trains = r.range(1, 3);
  bool samecost = r.chance(.3);
  for (int rk = 0; rk < ranks; rk++) {
    b.rank = rk; vector<GR> live;
    for (int i = 0; i < n; i++) if (r.chance(.85)) { emit_reg(b, g[i]); live.push_back(g[i]); if (disjoint && g[i].nf > 0) for (auto &f : live.back().pool) f[0] += (rk + 1) * 1e5f; }
    for (int t = 0; t < trains; t++) {
      if (!live.empty()) {
        Mix m{b, live}; m.sync = false; m.async = !c15 && r.chance(.4); m.user = false; m.overlap = !c15 && r.chance(.5); m.cost = samecost ? "c:s" : r.chance(.5) ? "c:" + S(rk) : "";
        if (disjoint && live.size() && r.chance(.9)) { vector<GR> d; for (auto &x : live) if (x.nf > 0) d.push_back(x); if (d.empty()) goto train; live = d; }
        { int len = r.chance(.15) ? 0 : r.range(1, 25); for (int i = 0; i < len; i++) m.step(); }
        if (r.chance(.5)) m.finish(); else m.open.clear();
      }
    train:
      b.op("t", {S(t)});
      if (r.chance(.2)) b.op("w", {S(r.below(50000000))});
    }
    if (c15) for (int i = 0; i < n; i++) for (auto &f : g[i].pool) b.op("q", cat({S(i), "1"}, f));
  }
}
// The ranks run the same program, and the period makes all of them train at the same execution.
static void gen_coll_period(Rng &r, Plan &p, bool c15)
{
  PB b(p, r); common_knobs(r, p);
  int ranks = r.range(2, 4), period = r.range(1, 9); p.knob["gperiod"] = period;
  b.newjob(ranks, "mpi"); b.job().mpi = true;
  b.env("APOLLO_COLLECTIVE_TRAINING=1"); b.env("APOLLO_LOCAL_TRAINING=0"); b.env("APOLLO_GLOBAL_TRAIN_PERIOD=" + S(period));
  if (r.chance(.2)) b.env("APOLLO_STORE_MODELS=1");
  if (r.chance(.5)) p.knob["pack_slack"] = r.range(1, 16);
  for (auto &s : b.job().start) s = r.below(3) ? r.below(1000000) : r.below(100000000);
  if (r.chance(.4)) { Rule x{F_STALL, .05, 0, r.chance(.5) ? (int)r.below(ranks) : -1}; p.rules.push_back(x); }
  RegOpts o; o.models = {"DecisionTree", "RandomForest", "DecisionTree", "RoundRobin"}; if (!c15) o.models.push_back("PolicyNet"); o.minnf = 0; o.maxnf = 3; o.maxnp = 4; o.pmin = 0; o.pool = 4;
  int n = r.range(1, 4); vector<GR> g; for (int i = 0; i < n; i++) g.push_back(make_region(b, i, o));
  bool samefeats = r.chance(.5), samecost = r.chance(.3);
  vector<int> seq, pick; for (int i = r.range(1, 30); i > 0; i--) { seq.push_back((int)r.below(n)); pick.push_back((int)r.below(64)); }
  for (int rk = 0; rk < ranks; rk++) {
    b.rank = rk;
    for (int i = 0; i < n; i++) emit_reg(b, g[i]);
    if (r.chance(.3)) emit_reg(b, make_region(b, n, o));   // one that is not executed here
    for (size_t i = 0; i < seq.size(); i++) {
      auto &pl = g[seq[i]].pool;
      b.op("x", cat({S(seq[i]), "s", "1", samecost ? "c:s" : "c:" + S(rk)}, pl[(samefeats ? pick[i] : r.below(64)) % pl.size()]));
      if (r.chance(.05)) b.op("w", {S(r.below(50000000))});
    }
    if (c15) for (int i = 0; i < n; i++) for (auto &f : g[i].pool) b.op("q", cat({S(i), "1"}, f));
  }
}
static void gen14(Rng &r, Plan &p) { if (r.chance(.15)) gen_coll_period(r, p, false); else gen_coll(r, p, false); }
static void gen15(Rng &r, Plan &p) { if (r.chance(.15)) gen_coll_period(r, p, true); else gen_coll(r, p, true); }
static bool same_programs(const Plan &p)
{
  std::set<vector<string>> c;
  std::set<string> used; for (auto &pr : p.jobs[0].prog) for (auto &o : pr) if (o.kind == "x") used.insert(o.a[0]);
  for (auto &pr : p.jobs[0].prog) { vector<string> s; for (auto &o : pr) { if (o.kind == "x") s.push_back(o.a[0]); if (o.kind == "reg" && used.count(o.a[0])) { s.push_back("r"); for (auto &a : o.a) s.push_back(a); } } c.insert(s); }
  return c.size() <= 1;
}
static vector<vector<const OpRec *>> train_ops(const Hist &h, int job, int ranks)
{
  vector<vector<const OpRec *>> t(ranks);
  for (int k = 0; k < ranks; k++) for (auto *o : node_ops(h, job, k)) if (o->kind == "t") t[k].push_back(o);
  return t;
}
static bool equal_trains(const Plan &p)
{
  std::set<size_t> c;
  for (auto &pr : p.jobs[0].prog) { size_t n = 0; for (auto &o : pr) if (o.kind == "t") n++; c.insert(n); }
  return c.size() <= 1;
}
static void merged_by_period(const Plan &p, const Hist &h, RunResult &r)
{
  int n = (int)p.jobs[0].prog.size(), period = atoi(env_of(p.jobs[0], "APOLLO_GLOBAL_TRAIN_PERIOD").c_str());
  bool pers = env_of(p.jobs[0], "APOLLO_PERSISTENT_DATASETS") == "1";
  if (period <= 0) return;
  vector<vector<const OpRec *>> x(n), prev(n);
  for (int i = 0; i < n; i++) { const OpRec *last = nullptr; for (auto *o : node_ops(h, 0, i)) { if (o->kind == "x" && !o->skipped) { x[i].push_back(o); prev[i].push_back(last); } last = o; } }
  for (size_t k = 0; k < x[0].size(); k++) {
    // what each rank held when it came to train, its own execution included
    vector<map<int, IDS>> held(n); bool train = (k + 1) % period == 0, waiting = false;
    for (int i = 0; i < n; i++) {
      if (!prev[i][k]) return;
      for (auto &s : prev[i][k]->regs) { held[i][s.first] = to_ids(*s.second.ds); }
      for (int e : x[i][k]->completed) if (pers || prev[i][k]->regs.at(h.execs[e].slot).trainable) fold(held[i][h.execs[e].slot], h.execs[e]);
      for (auto &s : prev[i][k]->regs) waiting = waiting || (s.second.trainable && !held[i][s.first].empty());
    }
    for (int i = 0; i < n; i++) for (auto &s : x[i][k]->regs) {
      IDS want = held[i][s.first];
      if (train && waiting) for (int j = 0; j < n; j++) if (j != i && held[j].count(s.first)) for (auto &e : held[j][s.first]) {
        auto w = want.find(e.first);
        if (w == want.end()) want[e.first] = e.second; else { w->second.lo = .5 * w->second.lo + .5 * e.second.lo; w->second.hi = .5 * w->second.hi + .5 * e.second.hi; }
      }
      string why;
      if (!ids_match(want, *s.second.ds, &why)) { r.fail("merge: after execution " + S(k + 1) + " (global period " + S(period) + ") rank " + S(i) + " holds for region " + h.reg(0, i, s.first)->name + " not the merged measurements of all ranks: " + why); return; }
      if (train && waiting) r.nontrivial = true;
    }
  }
}
static void chk14(const Plan &p, RunResult &r)
{
  if (p.jobs.empty() || !equal_trains(p) || (p.kn("gperiod") && (!same_programs(p) || env_of(p.jobs[0], "APOLLO_PERSISTENT_DATASETS") == "1"))) { r.skip = "unequal training calls"; return; }
  Hist h = execute(p); r.add(h);
  if (!alive(p, h, r)) return;
  if (p.kn("gperiod")) { merged_by_period(p, h, r); if (r.viol.empty()) finish_shape(h, r); return; }
  int n = (int)p.jobs[0].prog.size();
  auto tr = train_ops(h, 0, n);
  int shared = 0;
  for (size_t k = 0; k < tr[0].size(); k++) {
    // what each rank held when it entered
    vector<map<string, DS>> pre(n); vector<map<int, bool>> was(n);
    for (int i = 0; i < n; i++) {
      const OpRec *last = nullptr;
      for (auto *o : node_ops(h, 0, i)) { if (o == tr[i][k]) break; last = o; }
      if (last) for (auto &s : last->regs) { pre[i][h.reg(0, i, s.first)->name] = *s.second.ds; was[i][s.first] = s.second.trainable; }
    }
    for (int i = 0; i < n; i++) for (auto &s : tr[i][k]->regs) {
      const RegInfo *ri = h.reg(0, i, s.first);
      IDS want = to_ids(pre[i][ri->name]);
      for (int j = 0; j < n; j++) if (j != i && pre[j].count(ri->name)) for (auto &e : pre[j][ri->name]) {
        auto w = want.find(e.first);
        if (w == want.end()) want[e.first] = {e.second, e.second}; else { shared++; w->second.lo = .5 * w->second.lo + .5 * e.second; w->second.hi = .5 * w->second.hi + .5 * e.second; }
      }
      if (n > 1) r.nontrivial = true;
      for (int e : tr[i][k]->completed) if (h.execs[e].rank == i && h.execs[e].slot == s.first) fold(want, h.execs[e]);
      string why;
      if (!ids_match(want, *s.second.ds, &why)) { r.fail("merge: after collective training " + S(k) + " rank " + S(i) + " holds for region " + ri->name + " (" + S(ri->nf) + " features) not the merged measurements of all ranks: " + why); return; }
      bool tree = ri->info.find("DecisionTree") == 0 || ri->info.find("RandomForest") == 0;
      if (tree && was[i].count(s.first) && was[i][s.first] && !want.empty() && s.second.trainable) { r.fail("untrained: collective training " + S(k) + " left region " + ri->name + " on rank " + S(i) + " untrained although measurements exist"); return; }
    }
  }
  finish_shape(h, r);
}
static void chk15(const Plan &p, RunResult &r)
{
  if (p.jobs.empty() || !equal_trains(p) || (p.kn("gperiod") && (!same_programs(p) || env_of(p.jobs[0], "APOLLO_PERSISTENT_DATASETS") == "1"))) { r.skip = "unequal training calls"; return; }
  Hist h = execute(p); r.add(h);
  if (!alive(p, h, r)) return;
  int n = (int)p.jobs[0].prog.size();
  auto tr = train_ops(h, 0, n);
  if (p.kn("gperiod")) for (int i = 0; i < n; i++) { tr[i].clear(); for (auto *o : node_ops(h, 0, i)) if (o->kind == "x") tr[i].push_back(o); }
  // agreement
  map<string, map<int, int>> flipped;   // region -> rank -> training that trained it
  for (int i = 0; i < n; i++) { map<int, bool> was; for (auto *o : node_ops(h, 0, i)) for (auto &s : o->regs) { bool w = was.count(s.first) ? was[s.first] : true; if (w && !s.second.trainable && (o->kind == "t" || (p.kn("gperiod") && o->kind == "x"))) { int k = 0; while (tr[i][k] != o) k++; flipped[h.reg(0, i, s.first)->name][i] = k; } was[s.first] = s.second.trainable; } }
  for (auto &f : flipped) {
    if (f.second.size() < 2) continue;
    std::set<int> ks; for (auto &x : f.second) ks.insert(x.second);
    if (ks.size() != 1) continue;
    int k = *ks.begin();
    bool ok = n == 2;
    if (!ok && p.kn("gperiod")) continue;
    if (!ok) {  // no pair measured twice
      ok = true; std::set<DKey> seen;
      for (int i = 0; i < n; i++) { const OpRec *last = nullptr; for (auto *o : node_ops(h, 0, i)) { if (o == tr[i][k]) break; last = o; } if (last) for (auto &s : last->regs) if (h.reg(0, i, s.first)->name == f.first) for (auto &e : *s.second.ds) if (!seen.insert(e.first).second) ok = false; }
    }
    if (!ok) continue;
    map<vector<float>, std::pair<int, string>> ans;
    for (auto &x : f.second) for (auto *o : node_ops(h, 0, x.first)) {
      if (o->kind != "q" || o->skipped || o->out.empty() || h.reg(0, x.first, o->slot)->name != f.first) continue;
      bool later = false; for (auto *z : node_ops(h, 0, x.first)) { if (z == tr[x.first][k]) later = true; if (z == o) break; }
      if (!later) continue;
      vector<float> fv = feats_of(*o, 2);
      auto a = ans.find(fv);
      if (a == ans.end()) ans[fv] = {x.first, o->out[0]};
      else { r.nontrivial = true; if (a->second.second != o->out[0]) { r.fail("disagree: after the same collective training rank " + S(a->second.first) + " recommends " + a->second.second + " and rank " + S(x.first) + " " + o->out[0] + " for " + show(fv) + " in region " + f.first); return; } }
    }
  }
  for (int v = 1; v <= 2; v++) {
    RunOpts ro; ro.latseed = hash_of(p.seed, 99, v) | 1;
    Plan q = p; if (p.explicit_only) { q.explicit_only = false; q.lats.clear(); q.knob["latmode"] = 5; }
    Hist g = execute(q, ro); r.add(g, false);
    if (!alive(q, g, r)) return;
    for (auto &o : h.ops) {
      const OpRec *b = g.find(o.job, o.rank, o.op);
      if (!b) continue;
      if (o.out != b->out) { r.fail("schedule: in another schedule " + where(o) + " recommends " + (b->out.empty() ? "" : b->out[0]) + " instead of " + (o.out.empty() ? "" : o.out[0])); return; }
      for (auto &s : o.regs) { auto i = b->regs.find(s.first); string why; if (i != b->regs.end() && !ds_equal(*s.second.ds, *i->second.ds, 0, &why)) { r.fail("schedule: in another schedule rank " + S(o.rank) + " holds other measurements after " + where(o) + ": " + why); return; } }
    }
    if (g.sched_hash != h.sched_hash) r.nontrivial = true;
  }
  finish_shape(h, r);
}

// ================================================================ C16 shared directories
static void gen16(Rng &r, Plan &p)
{
  PB b(p, r); common_knobs(r, p);
  if (r.chance(.5)) p.knob["latmode"] = r.chance(.5) ? 1 : 5;
  bool mpi = r.chance(.6); int ranks = r.range(2, 4);
  if (mpi && r.chance(.05)) ranks = r.range(5, 12);
  p.knob["mpi"] = mpi;
  RegOpts o; o.models = {"DecisionTree", "RandomForest", "DecisionTree", "PolicyNet"}; o.maxnf = 2; o.minnp = 2; o.maxnp = 4; o.pmin = 0; o.pool = r.chance(.3) ? 60 : 8;
  int n = r.range(1, 2); vector<GR> g; for (int i = 0; i < n; i++) { g.push_back(make_region(b, i, o)); size_t t = g[i].info.find(",threshold"); if (t != string::npos) g[i].info.erase(t, 14); }
  if (r.chance(.3)) { Rule x{F_SHORT, .3}; p.rules.push_back(x); }
  if (r.chance(.3)) { Rule x{F_STALL, .03}; p.rules.push_back(x); }
  bool pers = r.chance(.8), same = mpi && r.chance(.5);
  for (int jb = 0; jb < 2; jb++) {
    b.newjob(ranks, mpi ? "mpi" : "def"); b.job().mpi = mpi; b.job().same_pid = same;
    for (auto &s : b.job().start) s = r.chance(.5) ? 0 : r.below(200000);
    if (pers) b.env("APOLLO_PERSISTENT_DATASETS=1");
    b.env("APOLLO_STORE_MODELS=1");
    int len = r.range(0, 8);
    for (int rk = 0; rk < ranks; rk++) {
      b.rank = rk;
      if (jb && !mpi) { if (rk == 0) for (int i = 0; i < n; i++) emit_reg(b, g[i], r.chance(.6) ? ",load" : ""); continue; }
      for (int i = 0; i < n; i++) emit_reg(b, g[i], jb && g[i].tree() ? ",load" : "");
      if (!jb) {
        Mix m{b, g}; m.sync = false; m.async = false; m.user = false; m.overlap = false; m.cost = "c:" + S(rk);
        for (int i = 0; i < n; i++) if (g[i].pool.size() > 20) for (auto &f : g[i].pool) b.op("x", cat({S(i), "s", "1", m.cost}, f));
        for (int i = 0; i < len; i++) m.step();
        for (int i = 0; i < n; i++) { b.op("x", cat({S(i), "s", "1", m.cost}, r.pick(g[i].pool))); b.op("r", {S(i), S(r.range(0, 1)), "1", "1"}); }
      }
      for (int i = 0; i < n; i++) if (g[i].tree()) for (size_t k = 0; k < g[i].pool.size() && k < 8; k++) b.op("q", cat({S(i), "1"}, g[i].pool[k]));
    }
  }
}
static void chk16(const Plan &p, RunResult &r)
{
  bool mpi = p.kn("mpi");
  // loads: every rank must have stored; for independent processes some process must have
  for (size_t rk = 0; p.jobs.size() > 1 && rk < p.jobs[1].prog.size(); rk++) for (auto &o : p.jobs[1].prog[rk]) {
    if (o.kind != "reg" || o.a[5].find(",load") == string::npos) continue;
    bool ok = false;
    for (size_t k = 0; k < p.jobs[0].prog.size() && !ok; k++) {
      if (mpi && k != rk) continue;
      bool reg = false, ex = false;
      for (auto &q : p.jobs[0].prog[k]) { if (q.kind == "reg" && q.a[0] == o.a[0]) reg = true; if (reg && q.kind == "x" && q.a[0] == o.a[0]) ex = true; if (ex && q.kind == "r" && q.a[0] == o.a[0] && q.a.size() > 3 && q.a[3] == "1") ok = true; }
    }
    if (!ok || env_of(p.jobs[0], "APOLLO_STORE_MODELS") != "1") { r.skip = "plan loads what was not saved"; return; }
  }
  Hist h = execute(p); r.add(h);
  if (!alive(p, h, r)) return;
  if (p.jobs.empty()) return;
  int n = (int)p.jobs[0].prog.size();
  bool pers = env_of(p.jobs[0], "APOLLO_PERSISTENT_DATASETS") == "1";
  map<string, vector<DS>> cand;
  for (auto &ri : h.regs) if (ri.job == 0) { IDS f; if (final_ids(p, h, 0, ri.rank, ri.slot, f)) { DS d; for (auto &x : f) d[x.first] = x.second.lo; cand[ri.name].push_back(d); } }
  for (auto &o : h.ops) if (o.kind == "reg" && !o.skipped && o.finished) {
    const RegInfo *ri = h.reg(o.job, o.rank, o.slot); const DS &d = *o.regs.at(o.slot).ds;
    bool pj = env_of(p.jobs[o.job], "APOLLO_PERSISTENT_DATASETS") == "1";
    if (o.job == 0 ? d.empty() : !(pers && pj)) continue;
    if (o.job == 1 && !cand.count(ri->name)) { if (!d.empty()) { r.fail("foreign: region " + ri->name + " has measurements from nowhere"); return; } continue; }
    bool ok = false; for (auto &c : cand[ri->name]) ok = ok || ds_equal(c, d, 0);
    if (!ok) { r.fail("mixed: region " + ri->name + " of job " + S(o.job) + " rank " + S(o.rank) + " starts with measurements that no process saved: " + show(d)); return; }
  }
  if (mpi && p.jobs.size() > 1) for (int k = 0; k < n; k++) {
    map<std::pair<int, vector<float>>, string> ans; int lastr = -1;
    for (auto *o : node_ops(h, 0, k)) { if (o->kind == "r" && !o->skipped) for (auto i = ans.begin(); i != ans.end();) if (i->first.first == o->slot) i = ans.erase(i); else ++i; if (o->kind == "q" && !o->out.empty() && !o->regs.at(o->slot).trainable) ans[{o->slot, feats_of(*o, 2)}] = o->out[0]; }
    for (auto *o : node_ops(h, 1, k)) {
      if (o->kind != "q" || o->out.empty()) continue;
      if (h.reg(1, k, o->slot)->info.find(",load") == string::npos) continue;
      auto a = ans.find({o->slot, feats_of(*o, 2)}); if (a == ans.end()) continue;
      r.nontrivial = true;
      if (a->second != o->out[0]) { r.fail("model: rank " + S(k) + " loads a model of region " + h.reg(1, k, o->slot)->name + " that recommends " + o->out[0] + " for " + show(feats_of(*o, 2)) + "; the one this rank stored last recommends " + a->second); return; }
    }
  }
  if (!mpi && h.switches > 4) r.nontrivial = true;
  finish_shape(h, r);
}

// ================================================================ C17 traces
static void gen17(Rng &r, Plan &p)
{
  PB b(p, r); common_knobs(r, p);
  bool mpi = r.chance(.2); int ranks = mpi ? r.range(2, 3) : 1;
  b.newjob(ranks, mpi ? "mpi" : "def"); b.job().mpi = mpi;
  for (auto &s : b.job().start) s = r.below(100000);
  b.env("APOLLO_TRACE_CSV=1");
  string dir = ".apollo", td = "traces";
  if (r.chance(.15)) { b.env("APOLLO_OUTPUT_DIR=odir"); dir = "odir"; }
  if (r.chance(.15)) { b.env("APOLLO_TRACES_DIR=tt"); td = "tt"; }
  p.text["dir"] = "/work/" + dir + "/" + td + "/";
  if (r.chance(.2)) b.env("APOLLO_PERSISTENT_DATASETS=1");
  if (r.chance(.2)) b.env("APOLLO_GLOBAL_TRAIN_PERIOD=" + S(r.range(2, 12)));
  p.knob["kill"] = r.chance(.35);
  if (r.chance(.4)) { Rule x{F_SHORT, .3}; p.rules.push_back(x); }
  if (r.chance(.4)) { Rule x{F_EINTR, .2}; p.rules.push_back(x); }
  RegOpts o; o.models = {"DecisionTree", "RandomForest", "PolicyNet", "RoundRobin", "Static", "Random"}; o.minnf = 0; o.maxnf = 5; o.maxnp = r.chance(.2) ? 20 : 4; o.pmin = .2; o.pool = 8;
  vector<GR> g; int n = some(r, 1, 3, 10); for (int i = 0; i < n; i++) g.push_back(make_region(b, i, o));
  int njobs = !p.kn("kill") && r.chance(.2) ? 2 : 1;   // a later run traces anew
  for (int jb = 0; jb < njobs; jb++) {
  if (jb) { vector<string> env = b.job().env; b.newjob(ranks, mpi ? "mpi" : "def"); b.job().mpi = mpi; b.job().env = env; for (auto &s : b.job().start) s = r.below(100000); }
  for (int rk = 0; rk < ranks; rk++) {
    b.rank = rk;
    for (auto &x : g) emit_reg(b, x);
    Mix m{b, g}; m.user = r.chance(.5); m.pburst = .1;
    for (int i = r.range(1, r.chance(.2) ? 150 : 40); i > 0; i--) { m.step(); if (r.chance(.03)) b.op("t", {S(i)}); }
    m.finish();
  }
  }
}
static bool trace_value(const string &s, double lo, double hi) { char *e; double v = strtod(s.c_str(), &e); if (e == s.c_str() || *e) return false; double tol = lo == hi ? 0 : 1e-12 * std::max(std::fabs(lo), std::fabs(hi)); return v >= lo - tol && v <= hi + tol; }
static void chk17(const Plan &p, RunResult &r)
{
  if (p.jobs.empty()) return;
  bool kill = p.kn("kill");
  RunOpts ro; Plan base = p; Plan q = p;
  if (kill) { for (auto i = base.faults.begin(); i != base.faults.end();) if (i->second.kind == F_KILL) i = base.faults.erase(i); else ++i; }
  Hist h = execute(base); r.add(h, !kill);
  if (!alive(base, h, r)) return;
  string dir = p.tx("dir");
  for (auto &j : p.jobs) for (auto e : {"APOLLO_OUTPUT_DIR", "APOLLO_TRACES_DIR", "APOLLO_TRACE_CSV"}) if (env_of(j, e) != env_of(p.jobs[0], e)) { r.skip = "runs with different directories"; return; }
  for (int jb = 0; jb < (int)p.jobs.size(); jb++) {
  int n = (int)p.jobs[jb].prog.size();
  const Files &files = h.files_job[jb];
  for (int rk = 0; rk < n; rk++) {
    auto ops = node_ops(h, jb, rk);
    map<string, vector<std::pair<string, int>>> seen;   // region -> (idx column, op) of records, for the global trace
    string gname = dir + "trace-rank-" + S(rk) + ".csv"; std::multiset<string> want_g;
    for (auto &ri : h.regs) if (ri.job == jb && ri.rank == rk) {
      vector<vector<int>> groups; for (auto *o : ops) { vector<int> v; for (int e : o->completed) if (h.execs[e].slot == ri.slot) v.push_back(e); if (!v.empty()) groups.push_back(v); }
      string fn = dir + "trace-" + ri.info + "-region-" + ri.name + "-rank-" + S(rk) + ".csv";
      auto f = files.find(fn);
      if (f == files.end()) { r.fail("missing: no trace file " + fn); return; }
      std::istringstream is(*f->second); string line; std::getline(is, line);
      { std::istringstream hs(line); vector<string> c; string w; while (hs >> w) c.push_back(w); if ((int)c.size() != ri.nf + 6) { r.fail("header: the trace of " + ri.name + " has the header \"" + line + "\" for " + S(ri.nf) + " features"); return; } }
      size_t gi = 0; vector<int> left; string model = ri.info.substr(0, ri.info.find(','));
      while (std::getline(is, line)) {
        std::istringstream ls(line); vector<string> c; string w; while (ls >> w) c.push_back(w);
        if (left.empty()) { if (gi >= groups.size()) { r.fail("extra: the trace of region " + ri.name + " has a record for no completed execution: " + line); return; } left = groups[gi++]; }
        bool ok = false; string why = "its columns are not as declared";
        if ((int)c.size() == ri.nf + 6) for (size_t k = 0; k < left.size() && !ok; k++) {
          ExecRec &e = h.execs[left[k]];
          if (c[0] != S(rk)) { why = "rank"; continue; }
          if (c[1].compare(0, model.size(), model)) { why = "model"; continue; }
          if (c[2] != ri.name) { why = "region name"; continue; }
          if (c[3] != S(e.idx)) { why = "sequence number, " + S(e.idx) + " expected"; continue; }
          bool fe = true; for (int z = 0; z < ri.nf; z++) { char *en; float v = strtof(c[4 + z].c_str(), &en); if (en == c[4 + z].c_str() || v != e.features[z]) fe = false; }
          if (!fe) { why = "features, " + show(e.features) + " expected"; continue; }
          if (c[4 + ri.nf] != S(e.policy)) { why = "policy, " + S(e.policy) + " expected"; continue; }
          if (!trace_value(c[5 + ri.nf], e.lo, e.hi)) { char t[80]; snprintf(t, sizeof t, "time, %.17g to %.17g expected", e.lo, e.hi); why = t; continue; }
          ok = true; left.erase(left.begin() + k);
        }
        if (!ok) { r.fail("record: the trace of region " + ri.name + " (" + S(ri.nf) + " features) has the record \"" + line + "\", which is wrong in its " + why); return; }
        want_g.insert(ri.name + " " + c[3] + " " + model + " " + c[4 + ri.nf]);
        r.nontrivial = true;
      }
      if (!left.empty() || gi < groups.size()) { r.fail("lost: the trace of region " + ri.name + " lacks the record of a completed execution"); return; }
    }
    auto f = files.find(gname);
    if (f == files.end()) { r.fail("missing: no global trace " + gname); return; }
    std::istringstream is(*f->second); string line;
    while (std::getline(is, line)) {
      if (line.empty() || line[0] == '#') continue;
      std::istringstream ls(line); vector<string> c; string w; while (ls >> w) c.push_back(w);
      string key = c.size() == 5 ? c[1] + " " + c[2] + " " + c[3] + " " + c[4] : "";
      auto i = want_g.find(key);
      if (i == want_g.end()) { r.fail("global: the global trace of rank " + S(rk) + " has the record \"" + line + "\", which matches no execution"); return; }
      want_g.erase(i);
    }
    if (!want_g.empty()) { r.fail("global-lost: the global trace of rank " + S(rk) + " lacks the record of " + *want_g.begin()); return; }
  }
  }
  if (kill) {
    int n = (int)p.jobs[0].prog.size(); const Files &files = h.files_job[0];
    bool has = false; for (auto &f : p.faults) has = has || f.second.kind == F_KILL;
    Rng pr(hash_of(p.seed, 43)); int rk = (int)pr.below(n);
    if (!has) {
      vector<std::pair<int, int>> c; for (auto *o : node_ops(h, 0, rk)) if (o->seams > 0) c.push_back({o->op, o->seams});
      if (c.empty()) return;
      auto x = pr.chance(.4) ? c.back() : pr.pick(c); Fault f; f.kind = F_KILL; f.arg = pr.chance(.5) ? 0 : 1 + (i64)pr.below(3000);
      q.faults[Key{0, rk, x.first, (int)pr.below(x.second)}] = f;
    }
    Hist k = execute(q); r.add(k);
    if (k.hang) { r.fail("hang: " + k.note); return; }
    for (auto &f : k.files_job[0]) {
      if (f.first.compare(0, dir.size(), dir)) continue;
      auto i = files.find(f.first);
      if (i == files.end()) continue;
      if (i->second->compare(0, f.second->size(), *f.second)) { if (n > 1) { r.count["probe.multi_rank_kill"]++; continue; } size_t d = 0; while (d < f.second->size() && d < i->second->size() && (*f.second)[d] == (*i->second)[d]) d++; r.fail("prefix: after a kill " + f.first + " is not a prefix of the complete trace; it differs at byte " + S(d)); return; }
    }
  }
  finish_shape(h, r);
}
void register_b()
{
  PROPS.push_back({"C09", gen09, chk09, "def*4 mpi*4"});
  PROPS.push_back({"C10", gen10, chk10, "def*4 mpi*4"});
  PROPS.push_back({"C11", gen11, chk11, "def*6 mpi*6"});
  PROPS.push_back({"C12", gen12, chk12, "def*4 mpi*4"});
  PROPS.push_back({"C13", gen13, chk13, "def*4 mpi*4"});
  PROPS.push_back({"C14", gen14, chk14, "mpi*4"});
  PROPS.push_back({"C15", gen15, chk15, "mpi*12"});
  PROPS.push_back({"C16", gen16, chk16, "def*8 mpi*8"});
  PROPS.push_back({"C17", gen17, chk17, "def*2 mpi*6"});
}
