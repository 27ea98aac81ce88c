// Command line of the simulator: seeded search, replay, minimisation.
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include "sim.h"
#include <errno.h>
#include <malloc.h>
#include <poll.h>
#include <signal.h>
#include <sys/personality.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <algorithm>
#include <fcntl.h>
#include <sstream>
#include <fstream>

static double now_s() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
static string esc(const string &s) { string r; for (unsigned char c : s) { if (c == '\n') r += "\\n"; else if (c == '\t') r += "\\t"; else if (c == '\\') r += "\\\\"; else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\x%02x", c); r += b; } else r += c; } return r; }
static string jesc(const string &s) { string r; for (unsigned char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); r += b; } else r += c; } return r; }

static string ser(const RunResult &r)
{
  std::ostringstream o;
  o << "hash\t" << r.hash << "\nsched\t" << r.sched << "\nsteps\t" << r.steps << "\nswitches\t" << r.switches << "\nnops\t" << r.nops << "\nnexec\t" << r.nexec << "\nworlds\t" << r.worlds << "\nvtime\t" << r.vtime << "\nnt\t" << r.nontrivial << "\nshape\t" << r.shape << "\n";
  if (!r.viol.empty()) o << "viol\t" << esc(r.viol) << "\n";
  if (!r.skip.empty()) o << "skip\t" << esc(r.skip) << "\n";
  if (!r.sample.empty()) o << "sample\t" << esc(r.sample) << "\n";
  for (auto &c : r.count) o << "c\t" << c.first << "\t" << c.second << "\n";
  for (auto &f : r.fired) o << "f\t" << f.first.job << "\t" << f.first.rank << "\t" << f.first.op << "\t" << f.first.k << "\t" << f.second.kind << "\t" << f.second.arg << "\n";
  for (auto &f : r.lat) o << "l\t" << f.first.job << "\t" << f.first.rank << "\t" << f.first.op << "\t" << f.first.k << "\t" << f.second << "\n";
  o << "end\n";
  return o.str();
}
struct Out { RunResult r; bool ok = false, crashed = false, timeout = false; int status = 0; };
static bool deser(const string &s, RunResult &r)
{
  std::istringstream is(s); string l; bool end = false;
  while (std::getline(is, l)) {
    if (l == "end") { end = true; break; }
    size_t t = l.find('\t'); string k = l.substr(0, t), v = l.substr(t + 1);
    std::istringstream vs(v);
    if (k == "hash") vs >> r.hash; else if (k == "sched") vs >> r.sched; else if (k == "steps") vs >> r.steps; else if (k == "switches") vs >> r.switches;
    else if (k == "nops") vs >> r.nops; else if (k == "nexec") vs >> r.nexec; else if (k == "worlds") vs >> r.worlds; else if (k == "vtime") vs >> r.vtime;
    else if (k == "nt") vs >> r.nontrivial; else if (k == "shape") vs >> r.shape;
    else if (k == "viol") r.viol = v; else if (k == "skip") r.skip = v; else if (k == "sample") r.sample = v;
    else if (k == "c") { size_t u = v.find('\t'); r.count[v.substr(0, u)] = strtoull(v.c_str() + u + 1, nullptr, 10); }
    else if (k == "f") { Key q; Fault f; vs >> q.job >> q.rank >> q.op >> q.k >> f.kind >> f.arg; r.fired[q] = f; }
    else if (k == "l") { Key q; i64 x; vs >> q.job >> q.rank >> q.op >> q.k >> x; r.lat[q] = x; }
  }
  return end;
}
static const Prop *find_prop(const string &id) { for (auto &p : PROPS) if (id == p.id) return &p; return nullptr; }
static Plan make_plan(const Prop &pr, u64 seed)
{
  Plan p; p.prop = pr.id; p.seed = seed;
  Rng r(hash_of(seed, 1));
  pr.gen(r, p);
  // now and then the process is some rank of an MPI job that trains locally: everything is to hold for it as well
  Rng q(hash_of(seed, 2));
  static const std::set<string> local = {"C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C20", "C21", "C22", "C23", "C24", "C25", "C26"};
  if (local.count(pr.id) && q.chance(.08)) {
    bool plain = true; for (auto &j : p.jobs) plain = plain && j.variant == "def" && j.prog.size() == 1;
    if (plain) { for (auto &j : p.jobs) { j.variant = "mpi"; j.mpi = true; } int k = (int)(p.knob["asrank"] = q.range(1, q.chance(.2) ? 200 : 4));
      auto re = [&](string &s) { for (size_t i = 0; (i = s.find("-rank-0", i)) != string::npos; i++) s.replace(i, 7, "-rank-" + std::to_string(k)); };
      for (auto &j : p.jobs) for (auto &o : j.prog[0]) for (auto &a : o.a) re(a);
      for (auto &t : p.text) re(t.second);
      for (auto &x : p.rules) re(x.path); }
  }
  // diagnostics change nothing (C27), so everything is to hold with them too
  static const std::set<string> diag = {"C17", "C27", "C28"};
  if (!diag.count(pr.id) && q.chance(.08))
    for (auto &j : p.jobs) for (const char *e : {"TRACE_POLICY", "TRACE_BEST_POLICIES", "TRACE_ALLGATHER", "TRACE_CSV", "STORE_EXEC_INFO"}) if (q.chance(.4)) j.env.push_back(string("APOLLO_") + e + "=1");
  // now and then the files are kept elsewhere, perhaps on another file system
  if (q.chance(.1)) {
    bool own = false; for (auto &j : p.jobs) for (auto &e : j.env) own = own || e.find("APOLLO_OUTPUT_DIR") == 0;
    if (!own) {
      static const char *dirs[] = {"out", "tune.d", "./a", "/scratch/apollo", "/scratch"}; string d = p.text["odir"] = dirs[q.below(5)];
      string abs = d[0] == '/' ? d : d[0] == '.' ? "/work/" + d.substr(2) : "/work/" + d;
      auto sub = [](string &s, const string &a, const string &b) { for (size_t i = 0; (i = s.find(a, i)) != string::npos; i += b.size()) s.replace(i, a.size(), b); };
      auto re = [&](string &s) { sub(s, "/work/.apollo", abs); sub(s, ".apollo", d); };
      for (auto &j : p.jobs) for (auto &g : j.prog) for (auto &o : g) for (auto &a : o.a) re(a);
      for (auto &t : p.text) if (t.first != "odir") re(t.second);
      for (auto &x : p.rules) { sub(x.path, "/work/.apollo", abs); sub(x.path, ".apollo", abs); }
    }
  }
  return p;
}
static double g_watchdog = 150;
static void child(const Prop &pr, const Plan &p, int fd)
{
  int n = open("/dev/null", O_RDWR);
  dup2(n, 1); dup2(n, 2);
  struct itimerval it = {{0, 0}, {60, 0}};
  setitimer(ITIMER_PROF, &it, nullptr);
  RunResult r;
  set_outdir(p.tx("odir"));
  pr.check(p, r);
  string s = ser(r);
  size_t off = 0;
  while (off < s.size()) { ssize_t w = write(fd, s.data() + off, s.size() - off); if (w <= 0) break; off += w; }
  _exit(0);
}
static Out run_plan(const Prop &pr, const Plan &p)
{
  Out o;
  int pf[2];
  if (pipe(pf)) { perror("pipe"); exit(3); }
  fflush(nullptr);
  pid_t pid = fork();
  if (pid < 0) { perror("fork"); exit(3); }
  if (!pid) { close(pf[0]); child(pr, p, pf[1]); }
  close(pf[1]);
  string s; double t0 = now_s(); bool killed = false;
  for (;;) {
    struct pollfd q = {pf[0], POLLIN, 0};
    int rc = poll(&q, 1, 1000);
    if (rc > 0) { char b[65536]; ssize_t n = read(pf[0], b, sizeof b); if (n <= 0) break; s.append(b, n); }
    else if (now_s() - t0 > g_watchdog) { kill(pid, SIGKILL); killed = true; break; }
  }
  close(pf[0]);
  waitpid(pid, &o.status, 0);
  o.ok = deser(s, o.r);
  o.timeout = killed;
  o.crashed = !o.ok && !killed;
  if (o.crashed) o.r.viol = "memory: the run ended in a crash outside any simulated process (status " + std::to_string(o.status) + "): memory was corrupted";
  return o;
}
static string cls(const string &v) { return v.substr(0, v.find(':')); }

// ---------------------------------------------------------------- minimisation
struct Mini {
  const Prop &pr; string want; double deadline; int runs = 0; Out last;
  bool bad(const Plan &p)
  {
    if (now_s() > deadline) return false;
    runs++;
    Out o = run_plan(pr, p);
    if (o.timeout) return false;
    bool b = !o.r.viol.empty() && cls(o.r.viol) == want;
    if (b) last = o;
    return b;
  }
  template <class T> vector<T> ddmin(vector<T> items, std::function<bool(const vector<T> &)> test)
  {
    size_t n = 2;
    if (items.empty()) return items;
    if (test({})) return {};
    while (items.size() >= 1 && now_s() < deadline) {
      size_t chunk = std::max<size_t>(1, items.size() / n); bool red = false;
      for (size_t i = 0; i < items.size() && now_s() < deadline; i += chunk) {
        vector<T> rest(items.begin(), items.begin() + i);
        if (i + chunk < items.size()) rest.insert(rest.end(), items.begin() + i + chunk, items.end());
        if (rest.size() == items.size()) continue;
        if (test(rest)) { items = rest; red = true; break; }
      }
      if (red) { n = std::max<size_t>(2, n - 1); if (items.size() < 2) { break; } }
      else { if (chunk == 1) break; n = std::min(items.size(), n * 2); }
    }
    return items;
  }
};
struct OpRef { size_t j, r; Op o; };
static Plan with_ops(const Plan &p, const vector<OpRef> &v)
{
  Plan q = p;
  for (auto &j : q.jobs) for (auto &r : j.prog) r.clear();
  for (auto &x : v) q.jobs[x.j].prog[x.r].push_back(x.o);
  return q;
}
static Plan minimise(const Prop &pr, Plan p, const Out &first, double budget, string &viol, int &runs)
{
  Mini m{pr, cls(first.r.viol), now_s() + budget, 0, first};
  // whole jobs, last first
  while (p.jobs.size() > 1) { Plan q = p; q.jobs.pop_back(); if (m.bad(q)) p = q; else break; }
  vector<OpRef> ops;
  for (size_t j = 0; j < p.jobs.size(); j++) for (size_t r = 0; r < p.jobs[j].prog.size(); r++) for (auto &o : p.jobs[j].prog[r]) ops.push_back({j, r, o});
  ops = m.ddmin<OpRef>(ops, [&](const vector<OpRef> &v) { return m.bad(with_ops(p, v)); });
  { Plan q = with_ops(p, ops); if (m.bad(q)) p = q; }
  for (size_t i = 0; i < p.rules.size();) { Plan q = p; q.rules.erase(q.rules.begin() + i); if (m.bad(q)) p = q; else i++; }
  // now explicit faults and latencies
  if (!p.explicit_only) {
    if (!m.bad(p)) { viol = first.r.viol; runs = m.runs; return p; }
    Plan q = p; q.explicit_only = true; q.rules.clear();
    for (auto &f : m.last.r.fired) q.faults[f.first] = f.second;
    q.lats.clear();
    if (m.bad(q)) p = q;
    else { q.lats = m.last.r.lat; if (m.bad(q)) {
      p = q;
      vector<std::pair<Key, i64>> l(p.lats.begin(), p.lats.end());
      l = m.ddmin<std::pair<Key, i64>>(l, [&](const vector<std::pair<Key, i64>> &v) { Plan z = p; z.lats = map<Key, i64>(v.begin(), v.end()); return m.bad(z); });
      p.lats = map<Key, i64>(l.begin(), l.end());
    } }
    if (p.explicit_only) {
      vector<std::pair<Key, Fault>> f(p.faults.begin(), p.faults.end());
      f = m.ddmin<std::pair<Key, Fault>>(f, [&](const vector<std::pair<Key, Fault>> &v) { Plan z = p; z.faults = map<Key, Fault>(v.begin(), v.end()); return m.bad(z); });
      p.faults = map<Key, Fault>(f.begin(), f.end());
    }
  }
  // environment settings
  for (auto &j : p.jobs) for (size_t i = 0; i < j.env.size();) { auto e = j.env; j.env.erase(j.env.begin() + i); if (!m.bad(p)) { j.env = e; i++; } }
  m.deadline = now_s() + 60;
  if (!m.bad(p)) { viol = ""; runs = m.runs; return p; }
  viol = m.last.r.viol; runs = m.runs;
  return p;
}

// ---------------------------------------------------------------- search
struct Stats {
  u64 runs = 0, steps = 0, switches = 0, nops = 0, nexec = 0, worlds = 0, nt = 0, skipped = 0, timeouts = 0; double vtime = 0;
  map<string, u64> count; map<string, u64> skips;
  std::set<u64> scheds, states, shapes; vector<string> samples;
};
static void add(Stats &s, const Out &o)
{
  auto &r = o.r;
  s.runs++; s.steps += r.steps; s.switches += r.switches; s.nops += r.nops; s.nexec += r.nexec; s.worlds += r.worlds; s.vtime += r.vtime * 1e-9;
  if (!r.skip.empty()) { s.skipped++; s.skips[r.skip.substr(0, 60)]++; }
  if (o.timeout) s.timeouts++;
  for (auto &c : r.count) s.count[c.first] += c.second;
  s.scheds.insert(r.sched); s.states.insert(r.hash);
  if (r.nontrivial) { s.nt++; s.shapes.insert(r.shape); if (s.samples.size() < 8 && !r.sample.empty()) s.samples.push_back(r.sample); }
}
static void preload(const string &variants)
{
  std::istringstream is(variants); string t;
  while (is >> t) { size_t c = t.find('*'); images_preload(t.substr(0, c), c == string::npos ? 4 : atoi(t.c_str() + c + 1)); }
}
static string stats_json(const Stats &s)
{
  std::ostringstream o;
  o << "{\"runs\":" << s.runs << ",\"worlds\":" << s.worlds << ",\"steps\":" << s.steps << ",\"switches\":" << s.switches << ",\"ops\":" << s.nops << ",\"executions\":" << s.nexec << ",\"vtime_s\":" << s.vtime << ",\"nontrivial\":" << s.nt << ",\"skipped\":" << s.skipped << ",\"timeouts\":" << s.timeouts;
  o << ",\"distinct_schedules\":" << s.scheds.size() << ",\"distinct_executions\":" << s.states.size() << ",\"distinct_nontrivial\":" << s.shapes.size() << ",\"counts\":{";
  bool f = true;
  for (auto &c : s.count) { o << (f ? "" : ",") << "\"" << jesc(c.first) << "\":" << c.second; f = false; }
  o << "},\"skips\":{"; f = true;
  for (auto &c : s.skips) { o << (f ? "" : ",") << "\"" << jesc(c.first) << "\":" << c.second; f = false; }
  o << "},\"samples\":["; f = true;
  for (auto &c : s.samples) { o << (f ? "" : ",") << "\"" << jesc(c) << "\""; f = false; }
  o << "]";
  return o.str();
}
static void put64(string &s, u64 v) { s.append((char *)&v, 8); }
static u64 get64(const string &s, size_t &p) { u64 v; memcpy(&v, &s[p], 8); p += 8; return v; }
static void puts_(string &s, const string &v) { put64(s, v.size()); s += v; }
static string gets_(const string &s, size_t &p) { u64 n = get64(s, p); string r = s.substr(p, n); p += n; return r; }
static string pack(const Stats &s, const string &viol, u64 seed)
{
  string o; put64(o, s.runs); put64(o, s.steps); put64(o, s.switches); put64(o, s.nops); put64(o, s.nexec); put64(o, s.worlds); put64(o, s.nt); put64(o, s.skipped); put64(o, s.timeouts); put64(o, (u64)(s.vtime * 1e6));
  put64(o, s.count.size()); for (auto &c : s.count) { puts_(o, c.first); put64(o, c.second); }
  put64(o, s.skips.size()); for (auto &c : s.skips) { puts_(o, c.first); put64(o, c.second); }
  for (auto *x : {&s.scheds, &s.states, &s.shapes}) { put64(o, x->size()); for (u64 v : *x) put64(o, v); }
  put64(o, s.samples.size()); for (auto &v : s.samples) puts_(o, v);
  puts_(o, viol); put64(o, seed);
  return o;
}
static void unpack(const string &o, Stats &s, string &viol, u64 &seed)
{
  size_t p = 0;
  s.runs += get64(o, p); s.steps += get64(o, p); s.switches += get64(o, p); s.nops += get64(o, p); s.nexec += get64(o, p); s.worlds += get64(o, p); s.nt += get64(o, p); s.skipped += get64(o, p); s.timeouts += get64(o, p); s.vtime += get64(o, p) * 1e-6;
  for (u64 n = get64(o, p); n--;) { string k = gets_(o, p); s.count[k] += get64(o, p); }
  for (u64 n = get64(o, p); n--;) { string k = gets_(o, p); s.skips[k] += get64(o, p); }
  for (auto *x : {&s.scheds, &s.states, &s.shapes}) for (u64 n = get64(o, p); n--;) x->insert(get64(o, p));
  for (u64 n = get64(o, p); n--;) { string v = gets_(o, p); if (s.samples.size() < 10) s.samples.push_back(v); }
  viol = gets_(o, p); seed = get64(o, p);
}
static u64 run_seed(u64 base, const string &prop, u64 i) { return hash_of(base, hash_str(prop), i) >> 1; }

int main(int argc, char **argv)
{
  int pers = personality(0xffffffff);
  if (pers != -1 && !(pers & ADDR_NO_RANDOMIZE) && !getenv("APSIM_EXEC")) {
    if (personality(pers | ADDR_NO_RANDOMIZE) != -1) { setenv("APSIM_EXEC", "1", 1); setenv("GLIBC_TUNABLES", "glibc.malloc.tcache_count=0", 1); execv("/proc/self/exe", argv); }
  }
  unsetenv("APSIM_EXEC"); unsetenv("GLIBC_TUNABLES");
  mallopt(M_PERTURB, 0xa5);
  mallopt(M_ARENA_MAX, 1);
  map<string, string> a; vector<string> pos;
  for (int i = 1; i < argc; i++) { string s = argv[i]; if (s.compare(0, 2, "--") == 0 && i + 1 < argc) a[s.substr(2)] = argv[++i]; else pos.push_back(s); }
  auto num = [&](const char *k, double d) { return a.count(k) ? atof(a[k].c_str()) : d; };
  if (pos.empty()) { fprintf(stderr, "usage: apsim search|one|gen|replay|list\n"); return 2; }
  g_builddir = a["build"]; g_scratch = a["scratch"];
  if (pos[0] == "list") { for (auto &p : PROPS) printf("%s %s\n", p.id, p.variants); return 0; }
  if (pos[0] == "gen") { const Prop *pr = find_prop(a["prop"]); if (!pr) return 2; fputs(plan_to_text(make_plan(*pr, strtoull(a["seed"].c_str(), nullptr, 10))).c_str(), stdout); return 0; }
  core_init();
  signal(SIGPIPE, SIG_IGN);
  if (pos[0] == "one" || pos[0] == "replay") {
    Plan p; const Prop *pr;
    if (pos[0] == "one") { pr = find_prop(a["prop"]); if (!pr) return 2; preload(pr->variants); u64 s = a.count("index") ? run_seed((u64)num("base", 1), pr->id, (u64)num("index", 0)) : strtoull(a["seed"].c_str(), nullptr, 10); p = make_plan(*pr, s); }
    else {
      std::ifstream f(pos.at(1)); std::stringstream ss; ss << f.rdbuf();
      if (!plan_from_text(ss.str(), p)) { fprintf(stderr, "bad replay file\n"); return 2; }
      pr = find_prop(p.prop); if (!pr) return 2;
      preload(pr->variants);
    }
    if (a.count("debug")) { RunResult r; pr->check(p, r); string s = ser(r); fputs(s.c_str(), stdout); return r.viol.empty() ? 0 : 1; }
    Out o = run_plan(*pr, p);
    if (o.timeout) { printf("TIMEOUT\n"); return 3; }
    printf("hash %016llx\n", (unsigned long long)o.r.hash);
    printf("seed %llu\n", (unsigned long long)p.seed);
    if (!o.r.skip.empty()) printf("inconclusive: %s\n", o.r.skip.c_str());
    if (a.count("verbose")) { string s = ser(o.r); std::istringstream is(s); string l; while (std::getline(is, l)) if (l[0] != 'l') printf("%s\n", l.c_str()); }
    if (!o.r.viol.empty()) { printf("violation %s\n", o.r.viol.c_str()); return 1; }
    printf("no violation%s\n", o.r.nontrivial ? "" : " (trivial run)");
    return 0;
  }
  if (pos[0] != "search") return 2;
  const Prop *pr = find_prop(a["prop"]);
  if (!pr) { fprintf(stderr, "unknown property\n"); return 2; }
  u64 base = (u64)num("base", 1), first = (u64)num("first", 0), maxruns = (u64)num("runs", 1e15);
  double budget = num("budget", 20); int nw = (int)num("workers", 8);
  preload(pr->variants);
  double t0 = now_s();
  struct Wk { pid_t pid; int fd; string data; };
  vector<Wk> ws;
  // the lowest violating run found so far: the others stop once they are past it
  volatile u64 *lowest = (volatile u64 *)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  *lowest = ~0ull;
  for (int w = 0; w < nw; w++) {
    int pf[2]; if (pipe(pf)) return 3;
    fflush(nullptr);
    pid_t pid = fork();
    if (!pid) {
      close(pf[0]);
      setpgid(0, 0);
      Stats s; string viol; u64 vi = 0;
      for (u64 i = first + w; i < first + maxruns && now_s() - t0 < budget && i < *lowest; i += nw) {
        Plan p = make_plan(*pr, run_seed(base, pr->id, i));
        double rt = now_s(); Out o = run_plan(*pr, p);
        add(s, o);
        if (a.count("slow") && now_s() - rt > num("slow", 1)) fprintf(stderr, "SLOW %llu %.2f s\n", (unsigned long long)i, now_s() - rt);
        if (a.count("hashes")) { fprintf(stderr, "H %llu %016llx %d\n", (unsigned long long)i, (unsigned long long)o.r.hash, (int)o.r.viol.size()); }
        if (!o.r.viol.empty()) { viol = o.r.viol; vi = i; u64 old = *lowest; while (i < old && !__sync_bool_compare_and_swap(lowest, old, i)) old = *lowest; break; }
      }
      string d = pack(s, viol, vi);
      size_t off = 0;
      while (off < d.size()) { ssize_t n = write(pf[1], d.data() + off, d.size() - off); if (n <= 0) break; off += n; }
      _exit(0);
    }
    close(pf[1]);
    ws.push_back({pid, pf[0], ""});
  }
  Stats s; vector<std::pair<u64, string>> viols;
  for (auto &w : ws) {
    char b[65536]; ssize_t n;
    while ((n = read(w.fd, b, sizeof b)) > 0) w.data.append(b, n);
    int st; waitpid(w.pid, &st, 0);
    if (w.data.empty()) { fprintf(stderr, "worker failed %d\n", st); return 3; }
    string v; u64 i; unpack(w.data, s, v, i);
    if (!v.empty()) viols.push_back({i, v});
  }
  double el = now_s() - t0;
  string js = stats_json(s);
  std::sort(viols.begin(), viols.end());
  int rc = 0;
  std::ostringstream vj;
  for (auto &v : viols) {  // the lowest run index that reproduces
    Plan p = make_plan(*pr, run_seed(base, pr->id, v.first));
    Out o = run_plan(*pr, p);
    if (o.r.viol.empty() || o.timeout) { fprintf(stderr, "run %llu did not reproduce: %s\n", (unsigned long long)v.first, v.second.c_str()); rc = 3; continue; }
    string viol; int runs = 0;
    Plan q = minimise(*pr, p, o, num("minbudget", 45), viol, runs);
    if (viol.empty()) { q = p; viol = o.r.viol; }
    rc = 1;
    if (a.count("replay-out")) {
      std::ofstream f(a["replay-out"]);
      f << "# violation: " << viol << "\n# found by run " << v.first << " of base seed " << base << ", seed " << p.seed << "; first reported as: " << o.r.viol << "\n";
      if (!q.explicit_only) for (auto &x : o.r.fired) f << "# fired in the original run: fault " << x.first.job << " " << x.first.rank << " " << x.first.op << " " << x.first.k << " " << fault_name[x.second.kind] << " " << x.second.arg << "\n";
      f << plan_to_text(q);
    }
    vj << ",\"violation\":\"" << jesc(viol) << "\",\"run\":" << v.first << ",\"seed\":" << p.seed << ",\"minimise_runs\":" << runs;
    break;
  }
  printf("%s,\"elapsed_s\":%.3f,\"base\":%llu,\"workers\":%d%s}\n", js.c_str(), el, (unsigned long long)base, nw, vj.str().c_str());
  return rc;
}
