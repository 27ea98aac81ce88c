// Plans as text: the replay file format.
#include "sim.h"
#include <sstream>
#include <cmath>
string hexd(double d)
{
  char b[64];
  if (d == std::floor(d) && std::fabs(d) < 1e15) snprintf(b, sizeof b, "%.0f", d); else snprintf(b, sizeof b, "%a", d);
  if (d == 0) return std::signbit(d) ? "-0" : "0";
  return b;
}
double parsed(const string &s) { return strtod(s.c_str(), nullptr); }
static string q(const string &s)
{
  if (s.empty()) return "-";
  string r;
  for (char c : s) { if (c == '%' || c == ' ' || c == '\n' || c == '\t' || c == '\r' || (c == '-' && s.size() == 1)) { char b[8]; snprintf(b, sizeof b, "%%%02x", (unsigned char)c); r += b; } else r += c; }
  return r;
}
static string uq(const string &s)
{
  if (s == "-") return "";
  string r;
  for (size_t i = 0; i < s.size(); i++) if (s[i] == '%' && i + 2 < s.size() + 0 && isxdigit(s[i + 1])) { r += (char)strtol(s.substr(i + 1, 2).c_str(), nullptr, 16); i += 2; } else r += s[i];
  return r;
}
string plan_to_text(const Plan &p)
{
  std::ostringstream o;
  o << "apsim 1\nprop " << p.prop << "\nseed " << p.seed << "\n";
  for (auto &k : p.knob) o << "knob " << k.first << " " << hexd(k.second) << "\n";
  for (auto &k : p.text) o << "text " << k.first << " " << q(k.second) << "\n";
  if (p.explicit_only) o << "explicit\n";
  for (size_t j = 0; j < p.jobs.size(); j++) {
    auto &b = p.jobs[j];
    o << "job " << b.variant << " ranks " << b.prog.size() << " mpi " << b.mpi << " pid " << b.pid_base << " same " << b.same_pid << "\n";
    for (auto &e : b.env) o << "env " << q(e) << "\n";
    for (size_t r = 0; r < b.start.size(); r++) if (b.start[r]) o << "start " << r << " " << b.start[r] << "\n";
    for (size_t r = 0; r < b.prog.size(); r++) for (auto &op : b.prog[r]) {
      o << "op " << r << " " << op.id << " " << op.kind;
      for (auto &a : op.a) o << " " << q(a);
      o << "\n";
    }
  }
  for (auto &r : p.rules) { char b[64]; snprintf(b, sizeof b, "%a", r.prob); o << "rule " << fault_name[r.kind] << " " << b << " " << r.job << " " << r.rank << " " << r.from_op << " " << r.to_op << " " << q(r.path) << "\n"; }
  for (auto &f : p.faults) o << "fault " << f.first.job << " " << f.first.rank << " " << f.first.op << " " << f.first.k << " " << fault_name[f.second.kind] << " " << f.second.arg << "\n";
  for (auto &f : p.lats) o << "lat " << f.first.job << " " << f.first.rank << " " << f.first.op << " " << f.first.k << " " << f.second << "\n";
  return o.str();
}
static int fk(const string &s) { for (int i = 0; i < F_NKINDS; i++) if (s == fault_name[i]) return i; return 0; }
bool plan_from_text(const string &t, Plan &p)
{
  std::istringstream is(t); string line; bool head = false;
  while (std::getline(is, line)) {
    if (line.empty() || line[0] == '#') continue;
    std::istringstream l(line); string w; l >> w;
    if (w == "apsim") head = true;
    else if (w == "prop") l >> p.prop;
    else if (w == "seed") l >> p.seed;
    else if (w == "knob") { string k, v; l >> k >> v; p.knob[k] = parsed(v); }
    else if (w == "text") { string k, v; l >> k >> v; p.text[k] = uq(v); }
    else if (w == "explicit") p.explicit_only = true;
    else if (w == "job") { Job b; string x; int n, m, s; l >> b.variant >> x >> n >> x >> m >> x >> b.pid_base >> x >> s; b.mpi = m; b.same_pid = s; b.prog.resize(n); b.start.resize(n); p.jobs.push_back(b); }
    else if (w == "env") { string e; l >> e; p.jobs.back().env.push_back(uq(e)); }
    else if (w == "start") { size_t r; i64 v; l >> r >> v; p.jobs.back().start.at(r) = v; }
    else if (w == "op") { size_t r; Op o; string a; l >> r >> o.id >> o.kind; while (l >> a) o.a.push_back(uq(a)); p.jobs.back().prog.at(r).push_back(o); }
    else if (w == "rule") { Rule r; string k, pr, pa; l >> k >> pr >> r.job >> r.rank >> r.from_op >> r.to_op >> pa; r.kind = fk(k); r.prob = parsed(pr); r.path = uq(pa); p.rules.push_back(r); }
    else if (w == "fault") { Key k; string n; Fault f; l >> k.job >> k.rank >> k.op >> k.k >> n >> f.arg; f.kind = fk(n); p.faults[k] = f; }
    else if (w == "lat") { Key k; i64 v; l >> k.job >> k.rank >> k.op >> k.k >> v; p.lats[k] = v; }
    else return false;
  }
  return head;
}
