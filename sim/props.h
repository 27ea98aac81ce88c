// Helpers shared by the property files.
#pragma once
#include "sim.h"
#include <algorithm>
#include <cmath>

// ---------------------------------------------------------------- building plans
struct GR {
  int slot = 0; string name, info, model; int nf = 1, np = 2, min = 0; bool capi = false;
  vector<vector<float>> pool; bool usertimer = false;
  bool trainable() const { return model == "DecisionTree" || model == "RandomForest" || model == "PolicyNet"; }
  bool tree() const { return model == "DecisionTree" || model == "RandomForest"; }
};
struct PB {
  Plan &p; Rng &r; int j = -1, rank = 0; map<std::pair<int, int>, int> ids;
  PB(Plan &p_, Rng &r_) : p(p_), r(r_) {}
  Job &newjob(int ranks = 1, const string &variant = "def")
  {
    p.jobs.push_back(Job()); j++; rank = 0;
    Job &b = p.jobs.back(); b.variant = variant; b.prog.resize(ranks); b.start.resize(ranks); b.pid_base = 1000 + 100 * j;
    return b;
  }
  Job &job() { return p.jobs[j]; }
  int next() { return ids[{j, rank}] + 1; }
  int op(const string &k, const vector<string> &a = {})
  {
    int id = ++ids[{j, rank}];
    p.jobs[j].prog[rank].push_back(Op{id, k, a});
    return id;
  }
  void env(const string &e) { job().env.push_back(e); }
};
inline string S(i64 v) { return std::to_string(v); }
inline vector<string> cat(vector<string> a, const vector<float> &f) { for (float x : f) a.push_back(hexd(x)); return a; }
float feature_value(Rng &r, int style);
vector<vector<float>> feature_pool(Rng &r, int nf, int n, int style);  // distinct vectors
enum { ST_INT, ST_BIGINT, ST_TENTH, ST_REAL, ST_CLOSE, ST_NEG, ST_HUGE, ST_DIGITS, ST_N };
string model_params(Rng &r, const string &model, bool deep = false);
struct RegOpts { vector<string> models; int minnf = 1, maxnf = 3, minnp = 1, maxnp = 6, pool = 8, style = -1; double pmin = .2; bool deep = false, tails = true; };
GR make_region(PB &b, int slot, const RegOpts &o);
void emit_reg(PB &b, const GR &g, const string &infosuffix = "", const string &yaml = "");
double rnd_metric(Rng &r);
double rnd_work(Rng &r);   // seconds of synchronous work
int some(Rng &r, int lo, int hi, int tail);   // between lo and hi, now and then up to tail
void common_knobs(Rng &r, Plan &p);

// A stream of random executions, possibly overlapping.
struct Mix {
  PB &b; vector<GR> &g;
  bool sync = true, async = true, supplied = true, user = true, dep = true, overlap = true, unique = false, shutready = true; string cost;  // "c:salt" etc. for supplied metrics, empty: random numbers
  double maxready = 12, pburst = .04;
  int ctxn = 1, uniq = 1;
  struct Open { int ctx, reg; bool async; int stage; bool d; };
  vector<Open> open;
  vector<float> feats(GR &r);
  string metric();
  vector<string> ready();
  void exec(int reg);   // one complete execution
  void burst();         // very many executions of one region, outstanding or of ever new features
  void step();          // one operation of some execution
  void finish();        // end all open executions
};

// ---------------------------------------------------------------- reading histories
vector<const OpRec *> node_ops(const Hist &h, int job, int rank);
bool alive(const Plan &p, const Hist &h, RunResult &r, int job = -1);   // every process ended normally
bool loads_valid(const Plan &p);
string show(const vector<float> &f);
string show(const DS &d);
string where(const OpRec &o);
bool near(double a, double b, double rel = 1e-12);
bool ds_equal(const DS &a, const DS &b, double rel, string *why = nullptr);
std::set<int> argmin(const DS &d, const vector<float> &f);
void finish_shape(const Hist &h, RunResult &r);
u64 plan_hash(const Plan &p);
struct DsFile { bool ok = false; DS ds; };
DsFile parse_dataset(const string &s);
inline bool is_exec_kind(const string &k) { return k == "x" || k == "X" || k == "y" || k == "p"; }
// Where the run being executed keeps its files (Plan::text["odir"], default .apollo).
string outdir();
inline string dsfile(const string &name) { return outdir() + "/datasets/Dataset-" + name + ".yaml"; }
inline bool saved_path(const string &p) { return p.find(outdir() + "/datasets/Dataset-") == 0 || p.find(outdir() + "/models/") == 0; }
inline bool is_tmp_name(const string &p) { return false; }
struct IV { double lo, hi; };
// datasets with uncertainty
typedef map<DKey, IV> IDS;
IDS to_ids(const DS &d);
void fold(IDS &d, const ExecRec &x);
bool ids_match(const IDS &e, const DS &d, string *why = nullptr);
// the datasets of a region at the end of a process's life (after everything drained)
bool final_ids(const Plan &p, const Hist &h, int job, int rank, int slot, IDS &out);
string env_of(const Job &j, const string &k);
