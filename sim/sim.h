// apsim: deterministic simulator for Apollo processes.
#pragma once
#include <ucontext.h>
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <functional>
#include <tuple>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <vector>
#include "node_api.h"

typedef uint64_t u64;
typedef int64_t i64;
using std::string;
using std::vector;
using std::map;

// ---------------------------------------------------------------- hashing, PRNG
inline u64 mix64(u64 x)
{
  x += 0x9e3779b97f4a7c15ull;
  x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
  x = (x ^ (x >> 27)) * 0x94d049bb133111ebull;
  return x ^ (x >> 31);
}
inline u64 hcomb(u64 a, u64 b) { return mix64(a ^ mix64(b + 0x51ed2701)); }
template <class... T> u64 hash_of(u64 a, T... t) { u64 h = mix64(a); int d[] = {0, ((h = hcomb(h, (u64)t)), 0)...}; (void)d; return h; }
u64 hash_str(const string &s);
inline double u01(u64 h) { return (h >> 11) * (1.0 / 9007199254740992.0); }
struct Rng {
  u64 s;
  explicit Rng(u64 seed) : s(mix64(seed)) {}
  u64 next() { s += 0x9e3779b97f4a7c15ull; return mix64(s); }
  u64 below(u64 n) { return n ? next() % n : 0; }
  int range(int a, int b) { return a + (int)below((u64)(b - a + 1)); }
  double uni() { return u01(next()); }
  bool chance(double p) { return uni() < p; }
  template <class T> const T &pick(const vector<T> &v) { return v[below(v.size())]; }
};

// ---------------------------------------------------------------- plan
enum FaultKind { F_NONE, F_SHORT, F_EINTR, F_ENOSPC, F_EIO, F_OPENW, F_OPENR, F_CLOSEERR, F_RENAMEERR, F_READERR, F_KILL, F_CCFAIL, F_MKDIRERR, F_STALL, F_DEVERR, F_NKINDS };
extern const char *fault_name[F_NKINDS];
enum SeamClass { S_CLOCK, S_OPENR, S_OPENW, S_READ, S_WRITE, S_CLOSE, S_RENAME, S_REMOVE, S_STAT, S_MKDIR, S_SEEK, S_MPI, S_DEV, S_SLEEP, S_CC, S_OTHER, S_NCLASS };
extern const char *seam_name[S_NCLASS];

struct Key { int job, rank, op, k; bool operator<(const Key &o) const { return std::tie(job, rank, op, k) < std::tie(o.job, o.rank, o.op, o.k); } };
struct Fault { int kind = F_NONE; i64 arg = 0; };
// A rule makes faults of one kind happen with a probability at the seam calls it applies to.
struct Rule { int kind; double prob; int job = -1; int rank = -1; int from_op = -1, to_op = 1 << 30; string path; };

struct Op { int id; string kind; vector<string> a; };
struct Job {
  string variant = "def";
  vector<string> env;           // for all ranks
  vector<vector<Op>> prog;      // per rank
  bool mpi = false;             // ranks form one MPI job; otherwise independent processes
  vector<i64> start;            // start delay per rank
  int pid_base = 1000; bool same_pid = false;
};
struct Plan {
  string prop; u64 seed = 0; int scen = 0;
  map<string, double> knob;
  map<string, string> text;
  vector<Job> jobs;
  vector<Rule> rules;
  map<Key, Fault> faults;   // explicit faults (replay, or chosen by the property's driver)
  map<Key, i64> lats;       // explicit latencies (replay)
  bool explicit_only = false;
  double kn(const string &k, double d = 0) const { auto i = knob.find(k); return i == knob.end() ? d : i->second; }
  string tx(const string &k) const { auto i = text.find(k); return i == text.end() ? "" : i->second; }
};
string plan_to_text(const Plan &);
bool plan_from_text(const string &, Plan &);
string hexd(double);
double parsed(const string &);

// ---------------------------------------------------------------- observations
typedef std::pair<vector<float>, int> DKey;
typedef map<DKey, double> DS;
typedef std::shared_ptr<const DS> PDS;
typedef std::shared_ptr<const string> PStr;
typedef map<string, PStr> Files;
struct RegSnap { bool trainable = false; PDS ds; };
struct ExecRec {
  int id = 0, job = 0, rank = 0, slot = 0; string kind;
  int begin_op = -1, end_op = -1, begin_ix = -1, end_ix = -1;  // op ids, indexes into Hist::ops
  int idx = 0;                             // how many executions of that region were begun before
  i64 b0 = 0, b1 = 0, e0 = 0, e1 = 0;      // virtual ns at entry/exit of begin and end
  vector<float> features; int policy = -1; int requests = 0;
  bool async = false, user_timer = false, supplied = false;
  double metric = 0;                       // supplied metric or device-elapsed seconds
  int ready_op = 0, ready_polls = 0;
  int done_ix = -1;                        // index of the op in which it was complete and so accountable
  bool ended = false;
  double lo = 0, hi = 0;                   // the metric to be recorded lies in between
};
struct OpRec {
  int job = 0, rank = 0, op = 0; string kind; vector<string> a; int slot = -1; int exec = -1;
  bool started = false, finished = false, skipped = false;
  i64 t0 = 0, t1 = 0; int seams = 0;
  vector<string> out;                      // results
  map<int, RegSnap> regs;                  // per slot, after the op
  vector<int> completed;                   // executions accountable from this op on, in order
  int maxpolls = 0, blocking = 0;          // most polls of one timer in this call; blocking device calls
  std::shared_ptr<Files> files;            // snapshot after the op (if asked)
  vector<std::pair<string, PStr>> wrote;   // versions of files completed in the op (if asked)
  string err;                              // written to cerr by the op
  long heap = 0, objs = 0; int nfds = 0, events = 0, libs = 0, nfiles = 0;  // held by the process after the op
};
enum Death { D_ALIVE, D_EXIT, D_KILLED, D_ABORT, D_EXITCALL, D_SIGNAL };
extern const char *death_name[];
struct NodeEnd { int job = 0, rank = 0; Death death = D_ALIVE; string why; int op = -1; long long total = -1; };
struct RegInfo { int job, rank, slot; string name, info; int nf = 0, np = 0, min = 0; int create_ix = -1; };
struct Hist {
  vector<OpRec> ops;
  vector<ExecRec> execs;
  vector<NodeEnd> ends;
  vector<RegInfo> regs;
  vector<Files> files_job;                 // at the end of each job
  Files files_end() const { return files_job.empty() ? Files() : files_job.back(); }
  bool hang = false, deadlock = false; string note;
  u64 hash = 0, sched_hash = 0, steps = 0, switches = 0; i64 vtime = 0;
  map<string, u64> count;
  map<Key, Fault> fired; map<Key, i64> lat;
  const OpRec *find(int job, int rank, int op) const { for (auto &o : ops) if (o.job == job && o.rank == rank && o.op == op) return &o; return nullptr; }
  const NodeEnd *end(int job, int rank) const { for (auto &e : ends) if (e.job == job && e.rank == rank) return &e; return nullptr; }
  const RegInfo *reg(int job, int rank, int slot) const { for (auto &r : regs) if (r.job == job && r.rank == rank && r.slot == slot) return &r; return nullptr; }
};
enum { OP_INIT = 0, OP_EXIT = 1000000 };

// ---------------------------------------------------------------- world
struct Inode { string data; bool dir = false, partial = false; u64 ino = 0; PStr snap; };
typedef std::shared_ptr<Inode> PInode;
typedef map<string, PInode> Vfs;
struct RegionS { int slot = 0; void *h = nullptr; string name; int nf = 0, np = 0; int begun = 0; int open_sync = -1; bool capi = false; };
struct Node;
struct OpenFile { PInode ino; size_t pos = 0; int flags = 0; Node *owner = nullptr; FILE *f = nullptr; string path; };
struct UTimer { Node *n; int exec = -1; bool stopped = false; int polls_op = -1, polls = 0, shutpolls = 0, totpolls = 0; };
struct DevEvent { int magic; Node *n; bool rec = false, dead = false; double t_ms = 0; int exec = -1; bool stop = false; int shutpolls = 0; int p_op = -1, p_el = 0, p_q = 0; };
struct Node {
  int job = 0, rank = 0; const Job *spec = nullptr; const NodeApi *api = nullptr; ucontext_t uc; char *stack = nullptr;
  enum St { RUN, BLOCKED, DEAD } st = RUN;
  i64 wake = 0; map<string, string> env; int pid = 0;
  int opid = -1, seamk = 0, randk = 0, rand_op = -1;
  bool shutting = false; Death death = D_ALIVE; string why;
  map<int, RegionS> regs; map<int, int> ctx; map<int, void *> ctxh; map<void *, UTimer *> utimer;
  map<string, string *> envstore; string cerr_buf;
  int dev_exec = -1; bool dev_stop = false; int polls_call = 0;
  int curidx = -1; long heap = 0, objs = 0; int events = 0;
  unsigned long eh[2] = {0, 0};
  map<string, void *> dl; map<int, void *> fm;
  map<u64, i64> busy; map<int, std::pair<int, u64>> kern; int fences = 0; map<int, int> collseq; int mpi_n = 1; int ncomm = 10;
};
struct Coll { string op; map<int, string> data; vector<Node *> waiting; bool done = false; vector<string> all; };
struct RunOpts {
  bool nofaults = false; u64 latseed = 0; bool snap_files = false; const Vfs *init = nullptr;
  vector<DS> aux;                           // datasets for free models
  int only_jobs = -1;                       // run only the first n jobs
  Vfs *out_vfs = nullptr;                   // final file system
  std::set<string> drop_seams;
};
struct World {
  const Plan *plan = nullptr; RunOpts o;
  Vfs vfs; u64 inoctr = 1;
  map<int, OpenFile> fds; int nextfd = 1 << 20;
  vector<Node *> nodes; Node *cur = nullptr; ucontext_t main_uc;
  i64 now = 0; u64 maxsteps = 300000;
  Hist h;
  map<std::pair<int, int>, Coll> colls;    // (communicator, sequence number)
  bool stop = false;
};
extern World *W;
extern volatile bool g_innode;
// core
void core_init();
Fault seam(SeamClass c, const char *path = nullptr);
[[noreturn]] void node_die(Death d, const string &why);
void node_switch_out();
void run_nodes();
void app_wait(i64 ns);
void note(const string &k, u64 n = 1);
void hash_event(u64 a, u64 b = 0);
Files vfs_snapshot();
string vpath(const string &p);
PInode vfs_get(const string &p);
void vfs_put(const string &p, const string &data);
void vfs_mkdirs(const string &p);
void set_outdir(const string &d);   // where the run keeps its files, for the oracles
const NodeApi *new_image(const string &variant);
void images_preload(const string &variant, int n);
extern string g_builddir, g_scratch;
struct NodeScope { bool s; NodeScope(bool v) : s(g_innode) { g_innode = v; } ~NodeScope() { g_innode = s; } };
int unique_fd_open(const string &content);
// execution of a plan
Hist execute(const Plan &p, const RunOpts &o = RunOpts());
double cost_of(const string &salt, const string &region, const vector<float> &f, int policy);

// ---------------------------------------------------------------- properties
struct RunResult {
  string viol;                              // non-empty: violated
  string skip;                              // non-empty: inconclusive
  bool nontrivial = false; u64 shape = 0; string sample;
  u64 hash = 0, sched = 0, steps = 0, switches = 0, nops = 0, nexec = 0, worlds = 0; i64 vtime = 0;
  map<string, u64> count; map<Key, Fault> fired; map<Key, i64> lat;
  void add(const Hist &h, bool main = true);
  bool fail(const string &s) { if (viol.empty()) viol = s; return false; }
};
typedef void (*GenFn)(Rng &, Plan &);
typedef void (*CheckFn)(const Plan &, RunResult &);
struct Prop { const char *id; GenFn gen; CheckFn check; const char *variants; };
extern vector<Prop> PROPS;
