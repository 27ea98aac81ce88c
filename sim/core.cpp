// The simulator core: scheduler, clock, randomness, file system and the interposed libc entry points.
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include "sim.h"
#include <cxxabi.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <poll.h>
#include <signal.h>
#include <stdarg.h>
#include <sys/ioctl.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>
#include <exception>
#include <iostream>
#include <random>
#include <sstream>

World *W = nullptr;
volatile bool g_innode = false;
string g_builddir, g_scratch;
const char *fault_name[F_NKINDS] = {"none", "short_io", "eintr", "enospc", "eio_write", "open_write_error", "open_read_error", "close_error", "rename_error", "read_error", "kill", "compiler_failure", "mkdir_error", "stall", "device_error"};
const char *seam_name[S_NCLASS] = {"clock", "open_r", "open_w", "read", "write", "close", "rename", "remove", "stat", "mkdir", "seek", "mpi", "device", "sleep", "compiler", "other"};
const char *death_name[] = {"alive", "exit", "killed", "abort", "exit-call", "signal"};

u64 hash_str(const string &s)
{
  u64 h = 0xcbf29ce484222325ull;
  for (unsigned char c : s) h = (h ^ c) * 0x100000001b3ull;
  return mix64(h);
}
void note(const string &k, u64 n) { if (W) W->h.count[k] += n; }
void hash_event(u64 a, u64 b) { W->h.hash = hcomb(W->h.hash, hcomb(a, b)); }

// ---------------------------------------------------------------- scheduler
extern "C" void *__cxa_get_globals();
namespace __cxxabiv1 { struct __cxa_eh_globals; }
static void eh_save(unsigned long *s) { memcpy(s, (void *)abi::__cxa_get_globals(), 16); }
static void eh_load(unsigned long *s) { memcpy((void *)abi::__cxa_get_globals(), s, 16); }

void node_switch_out()
{
  Node *n = W->cur;
  bool in = g_innode;
  g_innode = false;
  int e = errno;
  eh_save(n->eh);
  swapcontext(&n->uc, &W->main_uc);
  eh_load(n->eh);
  errno = e;
  g_innode = in;
}
void node_die(Death d, const string &why)
{
  Node *n = W->cur;
  g_innode = false;
  n->st = Node::DEAD; n->death = d; n->why = why;
  hash_event(0xdead, d);
  setcontext(&W->main_uc);
  __builtin_trap();
}
// Runs nodes in order of wake time until none is runnable.
void run_nodes()
{
  unsigned long mine[2];
  eh_save(mine);
  Node *last = nullptr;
  while (!W->stop) {
    Node *best = nullptr;
    for (Node *n : W->nodes)
      if (n->st == Node::RUN && (!best || n->wake < best->wake)) best = n;
    if (!best) break;
    if (best->wake > W->now) W->now = best->wake;
    if (best != last) { W->h.switches++; last = best; }
    W->h.sched_hash = hcomb(W->h.sched_hash, best->rank * 131 + best->job);
    W->cur = best;
    volatile bool once = false;
    getcontext(&W->main_uc);
    if (!once) { once = true; setcontext(&best->uc); }
    eh_load(mine);
    W->cur = nullptr;
  }
}

static bool applies(int kind, SeamClass c)
{
  switch (kind) {
    case F_SHORT: case F_EINTR: return c == S_READ || c == S_WRITE;
    case F_ENOSPC: return c == S_WRITE || c == S_OPENW;
    case F_EIO: return c == S_WRITE;
    case F_OPENW: return c == S_OPENW;
    case F_OPENR: return c == S_OPENR;
    case F_CLOSEERR: return c == S_CLOSE;
    case F_RENAMEERR: return c == S_RENAME;
    case F_READERR: return c == S_READ;
    case F_MKDIRERR: return c == S_MKDIR;
    case F_CCFAIL: return c == S_CC;
    case F_STALL: return true;
    case F_DEVERR: return c == S_DEV;
    case F_KILL: return true;
  }
  return false;
}
static i64 latency(const Key &k, SeamClass c, u64 pathh)
{
  const Plan &p = *W->plan;
  if (p.explicit_only) { auto i = p.lats.find(k); return i == p.lats.end() ? 1000 : i->second; }
  { auto i = p.lats.find(k); if (i != p.lats.end()) return i->second; }
  int mode = (int)p.kn("latmode", 1);
  u64 h = hash_of(p.seed ^ W->o.latseed, 11, k.job, k.rank, k.op, k.k);
  double u = u01(h); u64 h2 = mix64(h);
  switch (mode) {
    case 0: return 1000;
    case 1: return h2 % 2000;
    case 2: return u < .8 ? h2 % 2000 : u < .95 ? h2 % 1000000 : h2 % 50000000;
    case 3: {  // some calls stall as a whole
      u64 hs = hash_of(p.seed ^ W->o.latseed, 12, k.job, k.rank, k.op);
      return (hs % 4 == 0 ? 20000000 : 0) + h2 % 3000;
    }
    case 4: return u < .5 ? 0 : h2 % 200;
    default: return u < .5 ? h2 % 100 : h2 % 1000000000;
  }
}
static Fault pick_fault(const Key &k, SeamClass c, const char *path)
{
  const Plan &p = *W->plan;
  Fault f;
  if (W->o.nofaults) return f;
  auto i = p.faults.find(k);
  if (i != p.faults.end()) { if (applies(i->second.kind, c) && (i->second.kind != F_DEVERR || path)) f = i->second; }
  else if (!p.explicit_only) {
    int ri = 0;
    for (auto &r : p.rules) {
      ri++;
      if (!applies(r.kind, c) || (r.kind == F_DEVERR && !path)) continue;
      if (r.job >= 0 && r.job != k.job) continue;
      if (r.rank >= 0 && r.rank != k.rank) continue;
      if (k.op < r.from_op || k.op > r.to_op) continue;
      if (!r.path.empty() && (!path || !strstr(path, r.path.c_str()))) continue;
      u64 h = hash_of(p.seed, 77, ri, k.job, k.rank, k.op, k.k);
      if (u01(h) >= r.prob) continue;
      f.kind = r.kind; f.arg = (i64)(mix64(h) % 1000);
      break;
    }
  }
  if (f.kind) {
    W->h.fired[k] = f;
    W->h.count[string("fault.") + fault_name[f.kind]]++;
    hash_event(0xfa17, f.kind * 100003 + f.arg);
  }
  return f;
}
Fault seam(SeamClass c, const char *path)
{
  Node *n = W->cur;
  Key key{n->job, n->rank, n->opid, n->seamk++};
  if (++W->h.steps > W->maxsteps) { W->h.hang = true; W->stop = true; W->h.note = "step limit"; node_die(D_KILLED, "step limit"); }
  u64 ph = path ? hash_str(path) : 0;
  i64 lat = latency(key, c, ph);
  if (W->plan->kn("filelat0") && c >= S_OPENR && c <= S_SEEK) lat = 0;
  Fault f = pick_fault(key, c, path);
  if (f.kind == F_STALL) { lat += f.arg * 1000000; f.kind = F_NONE; }
  if (!W->plan->explicit_only && lat != 1000) W->h.lat[key] = lat;
  hash_event(c * 1000003 + n->rank * 1009 + n->job, ph ^ (u64)n->opid);
  n->wake = W->now + lat;
  bool other = false;
  for (Node *m : W->nodes) if (m != n && m->st == Node::RUN && m->wake < n->wake) { other = true; break; }
  if (other) node_switch_out();
  else W->now = n->wake;
  hash_event(W->now);
  if (f.kind == F_KILL && (c != S_WRITE || f.arg <= 0)) node_die(D_KILLED, string("killed at ") + seam_name[c]);
  return f;
}

// ---------------------------------------------------------------- node images
extern "C" { typedef const NodeApi *(*apifn)(); }
struct Pool { string data; vector<const NodeApi *> api; size_t next = 0; };
static map<string, Pool> pools;
static void *(*real_dlopen)(const char *, int);
static void *(*real_dlsym)(void *, const char *);
int unique_fd_open(const string &content)
{
  int fd = memfd_create("apsim", 0);
  size_t off = 0;
  while (off < content.size()) {
    ssize_t r = syscall(1 /*write*/, fd, content.data() + off, content.size() - off);
    if (r <= 0) { perror("memfd"); _exit(3); }
    off += r;
  }
  return fd;
}
static const NodeApi *load_image(Pool &p)
{
  int fd = unique_fd_open(p.data);
  string path = "/proc/self/fd/" + std::to_string(fd);
  void *h = real_dlopen(path.c_str(), RTLD_NOW | RTLD_LOCAL);
  if (!h) { fprintf(stderr, "image: %s\n", dlerror()); _exit(3); }
  apifn f = (apifn)real_dlsym(h, "apsim_node_api");
  if (!f) { fprintf(stderr, "image: no api\n"); _exit(3); }
  return f();
}
void images_preload(const string &v, int n)
{
  Pool &p = pools[v];
  if (p.data.empty()) {
    FILE *f = fopen((g_builddir + "/node-" + v + ".so").c_str(), "rb");
    if (!f) { fprintf(stderr, "no image %s\n", v.c_str()); exit(3); }
    char b[65536]; size_t r;
    while ((r = fread(b, 1, sizeof b, f)) > 0) p.data.append(b, r);
    fclose(f);
  }
  while ((int)p.api.size() < n) p.api.push_back(load_image(p));
}
const NodeApi *new_image(const string &v)
{
  Pool &p = pools[v];
  if (p.next >= p.api.size()) images_preload(v, p.api.size() + 1);
  return p.api[p.next++];
}

// ---------------------------------------------------------------- file system
string vpath(const string &in)
{
  string s = in.empty() || in[0] != '/' ? "/work/" + in : in;
  vector<string> parts; size_t i = 0;
  while (i < s.size()) {
    size_t j = s.find('/', i);
    if (j == string::npos) j = s.size();
    string c = s.substr(i, j - i);
    if (c == "..") { if (!parts.empty()) parts.pop_back(); }
    else if (!c.empty() && c != ".") parts.push_back(c);
    i = j + 1;
  }
  string r;
  for (auto &c : parts) r += "/" + c;
  return r.empty() ? "/" : r;
}
static string parent_of(const string &p) { size_t i = p.rfind('/'); return i == 0 ? "/" : p.substr(0, i); }
PInode vfs_get(const string &p) { auto i = W->vfs.find(p); return i == W->vfs.end() ? nullptr : i->second; }
static PInode mknode(bool dir) { auto n = std::make_shared<Inode>(); n->dir = dir; n->ino = ++W->inoctr; return n; }
static string g_outdir = "/work/.apollo";
string outdir() { return g_outdir; }
void set_outdir(const string &d) { g_outdir = d.empty() ? "/work/.apollo" : vpath(d); }
void vfs_mkdirs(const string &p)
{
  if (p != "/") vfs_mkdirs(parent_of(p));
  if (!vfs_get(p)) W->vfs[p] = mknode(true);
}
void vfs_put(const string &p, const string &data)
{
  vfs_mkdirs(parent_of(p));
  auto n = mknode(false); n->data = data; W->vfs[p] = n;
}
Files vfs_snapshot()
{
  Files m;
  for (auto &f : W->vfs) if (!f.second->dir) {
    if (!f.second->snap) f.second->snap = std::make_shared<const string>(f.second->data);
    m[f.first] = f.second->snap;
  }
  return m;
}
static bool real_path(const char *p)
{
  static const char *pre[] = {"/dev/", "/proc/", "/etc/", "/usr/", "/lib/", "/lib64/", "/sys/"};
  for (auto s : pre) if (!strncmp(p, s, strlen(s))) return true;
  return false;
}
#define REAL(ret, name, ...) static ret (*real)(__VA_ARGS__) = (ret(*)(__VA_ARGS__))dlsym_real(#name)
static void *dlsym_real(const char *n) { return real_dlsym ? real_dlsym(RTLD_NEXT, n) : dlvsym(RTLD_NEXT, n, "GLIBC_2.2.5"); }
static inline bool innode() { return g_innode && W && W->cur; }
// ---------------------------------------------------------------- memory: counted per process
extern "C" {
void *__libc_malloc(size_t); void *__libc_calloc(size_t, size_t); void *__libc_realloc(void *, size_t); void __libc_free(void *); size_t malloc_usable_size(void *);
void *malloc(size_t n) { void *p = __libc_malloc(n); if (p && innode()) { W->cur->heap += (long)malloc_usable_size(p); W->cur->objs++; } return p; }
void *calloc(size_t a, size_t b) { void *p = __libc_calloc(a, b); if (p && innode()) { W->cur->heap += (long)malloc_usable_size(p); W->cur->objs++; } return p; }
void *realloc(void *o, size_t n) { bool in = innode(); if (in && o) { W->cur->heap -= (long)malloc_usable_size(o); W->cur->objs--; } void *p = __libc_realloc(o, n); if (in && p) { W->cur->heap += (long)malloc_usable_size(p); W->cur->objs++; } return p; }
void free(void *p) { if (p && innode()) { W->cur->heap -= (long)malloc_usable_size(p); W->cur->objs--; } __libc_free(p); }
}
static bool isv(int fd) { return fd >= (1 << 20); }
static OpenFile *vf(int fd) { if (!W) return nullptr; auto i = W->fds.find(fd); return i == W->fds.end() ? nullptr : &i->second; }

static int v_open(const char *path, int flags)
{
  NodeScope sc(false);
  string p = vpath(path);
  bool wr = (flags & O_ACCMODE) != O_RDONLY;
  Fault f = seam(wr ? S_OPENW : S_OPENR, p.c_str());
  if (f.kind == F_OPENW) { static const int es[] = {EACCES, EMFILE, EROFS, EDQUOT}; errno = es[f.arg & 3]; return -1; }
  if (f.kind == F_OPENR) { static const int es[] = {EACCES, EMFILE, EIO, ESTALE}; errno = es[f.arg & 3]; return -1; }
  PInode n = vfs_get(p);
  if (f.kind == F_ENOSPC && !n) { errno = ENOSPC; return -1; }
  if (n && (flags & O_CREAT) && (flags & O_EXCL)) { errno = EEXIST; return -1; }
  if (!n) {
    if (!(flags & O_CREAT)) { errno = ENOENT; return -1; }
    PInode d = vfs_get(parent_of(p));
    if (!d) { errno = ENOENT; return -1; }
    if (!d->dir) { errno = ENOTDIR; return -1; }
    n = W->vfs[p] = mknode(false);
  }
  if (n->dir && wr) { errno = EISDIR; return -1; }
  if (wr && (flags & O_TRUNC)) { n->data.clear(); n->snap = nullptr; n->partial = false; }
  int fd = W->nextfd++;
  OpenFile of; of.ino = n; of.flags = flags; of.owner = W->cur; of.path = p;
  W->fds[fd] = of;
  return fd;
}
static ssize_t v_read(int fd, void *buf, size_t len)
{
  NodeScope sc(false);
  OpenFile *o = vf(fd);
  if (!o) { errno = EBADF; return -1; }
  Fault f = seam(S_READ, o->path.c_str());
  o = vf(fd);
  if (o->ino->dir) { errno = EISDIR; return -1; }
  if (f.kind == F_EINTR) { errno = EINTR; return -1; }
  if (f.kind == F_READERR) { errno = EIO; return -1; }
  size_t n = o->pos >= o->ino->data.size() ? 0 : std::min(len, o->ino->data.size() - o->pos);
  if (f.kind == F_SHORT && n > 1) n = 1 + f.arg % (n - 1);
  memcpy(buf, o->ino->data.data() + o->pos, n);
  o->pos += n;
  return n;
}
static ssize_t v_write(int fd, const void *buf, size_t len)
{
  NodeScope sc(false);
  OpenFile *o = vf(fd);
  if (!o) { errno = EBADF; return -1; }
  if (!len) return 0;
  Fault f = seam(S_WRITE, o->path.c_str());
  o = vf(fd);
  if (f.kind == F_EINTR) { errno = EINTR; return -1; }
  if (f.kind == F_EIO) { errno = EIO; return -1; }
  size_t n = len;
  if (f.kind == F_ENOSPC) { n = len * (f.arg % 4) / 4; if (!n) { errno = ENOSPC; return -1; } }
  if (f.kind == F_SHORT && n > 1) n = 1 + f.arg % (n - 1);
  if (f.kind == F_KILL) n = std::min<size_t>(len, f.arg);
  string &d = o->ino->data;
  if (o->flags & O_APPEND) o->pos = d.size();
  if (d.size() < o->pos + n) d.resize(o->pos + n);
  memcpy(&d[o->pos], buf, n);
  o->pos += n; o->ino->snap = nullptr;
  hash_event(0x771e, n);
  if (f.kind == F_KILL) node_die(D_KILLED, "killed inside write");
  return n;
}
static void completed_version(const string &path, const PInode &n)
{
  Node *c = W->cur;
  if (!W->o.snap_files || !c || c->curidx < 0 || n->dir) return;
  if (!n->snap || *n->snap != n->data) n->snap = std::make_shared<string>(n->data);
  W->h.ops[c->curidx].wrote.push_back({path, n->snap});
}
static int v_close(int fd, bool withseam = true)
{
  NodeScope sc(false);
  OpenFile *o = vf(fd);
  if (!o) { errno = EBADF; return -1; }
  int ret = 0;
  if (withseam) {
    Fault f = seam(S_CLOSE, o->path.c_str());
    o = vf(fd);
    if (f.kind == F_CLOSEERR && (o->flags & O_ACCMODE) != O_RDONLY) {
      // the cached data could not be written back
      o->ino->data.resize(o->ino->data.size() * (f.arg % 10) / 10); o->ino->snap = nullptr;
      errno = EIO; ret = -1;
    }
  }
  if (withseam && (o->flags & O_TRUNC) && (o->flags & O_ACCMODE) != O_RDONLY && vfs_get(o->path) == o->ino) completed_version(o->path, o->ino);
  W->fds.erase(fd);
  return ret;
}
static off_t v_seek(int fd, off_t off, int wh)
{
  OpenFile *o = vf(fd);
  if (!o) { errno = EBADF; return -1; }
  off_t b = wh == SEEK_SET ? 0 : wh == SEEK_CUR ? (off_t)o->pos : (off_t)o->ino->data.size();
  if (b + off < 0) { errno = EINVAL; return -1; }
  return o->pos = b + off;
}
static void fill_stat(const PInode &n, struct stat *st)
{
  memset(st, 0, sizeof *st);
  st->st_mode = n->dir ? S_IFDIR | 0755 : S_IFREG | 0644;
  st->st_size = n->data.size(); st->st_ino = n->ino; st->st_nlink = 1; st->st_blksize = 4096;
}
static int v_stat(const char *p, struct stat *st)
{
  NodeScope sc(false);
  string q = vpath(p);
  seam(S_STAT, q.c_str());
  PInode n = vfs_get(q);
  if (!n) { errno = ENOENT; return -1; }
  fill_stat(n, st);
  return 0;
}
// stdio streams over the simulated files
static map<FILE *, int> vfiles;
static ssize_t ck_read(void *c, char *b, size_t n) { return v_read((int)(long)c, b, n); }
static ssize_t ck_write(void *c, const char *b, size_t n) { ssize_t r = v_write((int)(long)c, b, n); return r < 0 ? 0 : r; }
static int ck_seek(void *c, off64_t *o, int wh) { off_t r = v_seek((int)(long)c, *o, wh); if (r < 0) return -1; *o = r; return 0; }
static int ck_close(void *c) { return 0; }
static FILE *v_fdopen(int fd, const char *mode)
{
  NodeScope sc(false);
  cookie_io_functions_t io = {ck_read, ck_write, ck_seek, ck_close};
  FILE *f = fopencookie((void *)(long)fd, mode, io);
  vfiles[f] = fd;
  vf(fd)->f = f;
  return f;
}
static FILE *v_fopen(const char *path, const char *mode)
{
  int fl = mode[0] == 'r' ? O_RDONLY : mode[0] == 'w' ? O_WRONLY | O_CREAT | O_TRUNC : O_WRONLY | O_CREAT | O_APPEND;
  if (strchr(mode, '+')) fl = (fl & ~O_ACCMODE) | O_RDWR;
  if (strchr(mode, 'x')) fl |= O_EXCL;
  int fd = v_open(path, fl);
  if (fd < 0) return nullptr;
  return v_fdopen(fd, mode);
}
static bool vfs_path(const char *p) { return innode() && !real_path(p); }

extern "C" {
FILE *fopen(const char *p, const char *m)
{
  if (vfs_path(p)) return v_fopen(p, m);
  REAL(FILE *, fopen, const char *, const char *);
  return real(p, m);
}
FILE *fopen64(const char *p, const char *m) { return fopen(p, m); }
FILE *fdopen(int fd, const char *m)
{
  if (isv(fd)) return v_fdopen(fd, m);
  REAL(FILE *, fdopen, int, const char *);
  return real(fd, m);
}
int fclose(FILE *f)
{
  REAL(int, fclose, FILE *);
  auto i = vfiles.find(f);
  if (i == vfiles.end()) return real(f);
  int fd = i->second;
  bool in = g_innode;
  vfiles.erase(i);
  int r1 = real(f);
  g_innode = in;
  int r2 = W && vf(fd) ? v_close(fd, innode()) : 0;
  return r1 || r2 ? EOF : 0;
}
int fileno(FILE *f)
{
  auto i = vfiles.find(f);
  if (i != vfiles.end()) return i->second;
  REAL(int, fileno, FILE *);
  return real(f);
}
int open(const char *p, int fl, ...)
{
  va_list ap; va_start(ap, fl); int m = va_arg(ap, int); va_end(ap);
  if (vfs_path(p)) return v_open(p, fl);
  REAL(int, open, const char *, int, ...);
  return real(p, fl, m);
}
int open64(const char *p, int fl, ...) { va_list ap; va_start(ap, fl); int m = va_arg(ap, int); va_end(ap); return open(p, fl, m); }
int openat(int d, const char *p, int fl, ...)
{
  va_list ap; va_start(ap, fl); int m = va_arg(ap, int); va_end(ap);
  if (vfs_path(p) && (d == AT_FDCWD || p[0] == '/')) return v_open(p, fl);
  REAL(int, openat, int, const char *, int, ...);
  return real(d, p, fl, m);
}
int creat(const char *p, mode_t m) { return open(p, O_CREAT | O_WRONLY | O_TRUNC, m); }
int mkstemp(char *t)
{
  if (!innode()) { REAL(int, mkstemp, char *); return real(t); }
  size_t l = strlen(t);
  for (int i = 0; i < 100; i++) {
    Node *n = W->cur;
    u64 h = hash_of(W->plan->seed, 91, n->job, n->rank, n->opid, n->randk++);
    for (int j = 0; j < 6; j++, h /= 26) t[l - 6 + j] = 'a' + h % 26;
    int fd = v_open(t, O_RDWR | O_CREAT | O_EXCL);
    if (fd >= 0 || errno != EEXIST) return fd;
  }
  return -1;
}
ssize_t read(int fd, void *b, size_t n)
{
  if (isv(fd)) return v_read(fd, b, n);
  REAL(ssize_t, read, int, void *, size_t);
  return real(fd, b, n);
}
ssize_t write(int fd, const void *b, size_t n)
{
  if (isv(fd)) return v_write(fd, b, n);
  REAL(ssize_t, write, int, const void *, size_t);
  return real(fd, b, n);
}
ssize_t writev(int fd, const struct iovec *v, int c)
{
  if (isv(fd)) {
    string s;
    for (int i = 0; i < c; i++) s.append((const char *)v[i].iov_base, v[i].iov_len);
    return v_write(fd, s.data(), s.size());
  }
  REAL(ssize_t, writev, int, const struct iovec *, int);
  return real(fd, v, c);
}
int close(int fd)
{
  if (isv(fd)) return v_close(fd, innode());
  REAL(int, close, int);
  return real(fd);
}
off_t lseek(int fd, off_t o, int w)
{
  if (isv(fd)) return v_seek(fd, o, w);
  REAL(off_t, lseek, int, off_t, int);
  return real(fd, o, w);
}
off64_t lseek64(int fd, off64_t o, int w) { return lseek(fd, o, w); }
int stat(const char *p, struct stat *st)
{
  if (vfs_path(p)) return v_stat(p, st);
  REAL(int, stat, const char *, struct stat *);
  return real(p, st);
}
int stat64(const char *p, struct stat64 *st) { return stat(p, (struct stat *)st); }
int lstat(const char *p, struct stat *st)
{
  if (vfs_path(p)) return v_stat(p, st);
  REAL(int, lstat, const char *, struct stat *);
  return real(p, st);
}
int fstat(int fd, struct stat *st)
{
  if (isv(fd)) { OpenFile *o = vf(fd); if (!o) { errno = EBADF; return -1; } fill_stat(o->ino, st); return 0; }
  REAL(int, fstat, int, struct stat *);
  return real(fd, st);
}
int fstat64(int fd, struct stat64 *st) { return fstat(fd, (struct stat *)st); }
int access(const char *p, int m)
{
  if (vfs_path(p)) { struct stat st; return v_stat(p, &st); }
  REAL(int, access, const char *, int);
  return real(p, m);
}
int mkdir(const char *p, mode_t m)
{
  if (vfs_path(p)) {
    NodeScope sc(false);
    string q = vpath(p);
    Fault f = seam(S_MKDIR, q.c_str());
    if (f.kind == F_MKDIRERR) { errno = EACCES; return -1; }
    if (vfs_get(q)) { errno = EEXIST; return -1; }
    PInode d = vfs_get(parent_of(q));
    if (!d) { errno = ENOENT; return -1; }
    if (!d->dir) { errno = ENOTDIR; return -1; }
    W->vfs[q] = mknode(true);
    return 0;
  }
  REAL(int, mkdir, const char *, mode_t);
  return real(p, m);
}
int rename(const char *a, const char *b)
{
  if (vfs_path(a)) {
    NodeScope sc(false);
    string x = vpath(a), y = vpath(b);
    Fault f = seam(S_RENAME, y.c_str());
    if (f.kind == F_RENAMEERR) { static const int es[] = {EACCES, EIO, ENOSPC, EXDEV}; errno = es[f.arg & 3]; return -1; }
    PInode n = vfs_get(x), d = vfs_get(parent_of(y)), t = vfs_get(y);
    if (!n || !d) { errno = ENOENT; return -1; }
    if (x.substr(0, x.find('/', 1)) != y.substr(0, y.find('/', 1))) { errno = EXDEV; return -1; }   // /work, /tmp and /scratch are file systems of their own
    if (t && t->dir != n->dir) { errno = t->dir ? EISDIR : ENOTDIR; return -1; }
    if (x != y) { W->vfs.erase(x); W->vfs[y] = n; }
    completed_version(y, n);
    return 0;
  }
  REAL(int, rename, const char *, const char *);
  return real(a, b);
}
static int v_unlink(const char *p)
{
  NodeScope sc(false);
  string q = vpath(p);
  seam(S_REMOVE, q.c_str());
  PInode n = vfs_get(q);
  if (!n) { errno = ENOENT; return -1; }
  W->vfs.erase(q);
  return 0;
}
int unlink(const char *p)
{
  if (vfs_path(p)) return v_unlink(p);
  REAL(int, unlink, const char *);
  return real(p);
}
int remove(const char *p)
{
  if (vfs_path(p)) return v_unlink(p);
  REAL(int, remove, const char *);
  return real(p);
}
int unlinkat(int d, const char *p, int fl)
{
  if (vfs_path(p)) return v_unlink(p);
  REAL(int, unlinkat, int, const char *, int);
  return real(d, p, fl);
}
int rmdir(const char *p)
{
  if (vfs_path(p)) return v_unlink(p);
  REAL(int, rmdir, const char *);
  return real(p);
}
int link(const char *a, const char *b)
{
  if (vfs_path(a)) {
    NodeScope sc(false);
    string x = vpath(a), y = vpath(b);
    seam(S_RENAME, y.c_str());
    PInode n = vfs_get(x);
    if (!n || !vfs_get(parent_of(y))) { errno = ENOENT; return -1; }
    if (vfs_get(y)) { errno = EEXIST; return -1; }
    W->vfs[y] = n;
    return 0;
  }
  REAL(int, link, const char *, const char *);
  return real(a, b);
}
int ftruncate(int fd, off_t l)
{
  if (isv(fd)) { OpenFile *o = vf(fd); if (!o) { errno = EBADF; return -1; } NodeScope sc(false); seam(S_OTHER, o->path.c_str()); o->ino->data.resize(l); o->ino->snap = nullptr; return 0; }
  REAL(int, ftruncate, int, off_t);
  return real(fd, l);
}
int truncate(const char *p, off_t l)
{
  if (vfs_path(p)) { NodeScope sc(false); string q = vpath(p); seam(S_OTHER, q.c_str()); PInode n = vfs_get(q); if (!n) { errno = ENOENT; return -1; } n->data.resize(l); n->snap = nullptr; return 0; }
  REAL(int, truncate, const char *, off_t);
  return real(p, l);
}
int fsync(int fd)
{
  if (isv(fd)) { NodeScope sc(false); seam(S_OTHER, "fsync"); return 0; }
  REAL(int, fsync, int);
  return real(fd);
}
int fdatasync(int fd)
{
  if (isv(fd)) { NodeScope sc(false); seam(S_OTHER, "fsync"); return 0; }
  REAL(int, fdatasync, int);
  return real(fd);
}
int poll(struct pollfd *p, nfds_t n, int t)
{
  if (n == 1 && isv(p->fd)) { p->revents = POLLIN | POLLOUT; return 1; }
  REAL(int, poll, struct pollfd *, nfds_t, int);
  return real(p, n, t);
}
int ioctl(int fd, unsigned long req, ...)
{
  va_list ap; va_start(ap, req); void *a = va_arg(ap, void *); va_end(ap);
  if (isv(fd)) {
    OpenFile *o = vf(fd);
    if (o && req == FIONREAD) { *(int *)a = (int)(o->ino->data.size() - std::min(o->pos, o->ino->data.size())); return 0; }
    errno = ENOTTY; return -1;
  }
  REAL(int, ioctl, int, unsigned long, ...);
  return real(fd, req, a);
}
char *getcwd(char *b, size_t n)
{
  if (innode()) { if (!b) return strdup("/work"); if (n < 6) { errno = ERANGE; return nullptr; } return strcpy(b, "/work"); }
  REAL(char *, getcwd, char *, size_t);
  return real(b, n);
}
int chdir(const char *p)
{
  if (innode()) { errno = EACCES; return -1; }
  REAL(int, chdir, const char *);
  return real(p);
}

// ---------------------------------------------------------------- clock
static i64 sim_clock(clockid_t c)
{
  // the coarse clocks only advance with the timer tick
  if (c == CLOCK_REALTIME_COARSE) { i64 t = sim_clock(CLOCK_REALTIME); return t - t % 4000000; }
  if (c == CLOCK_MONOTONIC_COARSE) { i64 t = sim_clock(CLOCK_MONOTONIC); return t - t % 4000000; }
  const Plan &p = *W->plan;
  i64 up = (i64)(p.kn("uptime", 12345.678) * 1e9);
  if (c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE || c == CLOCK_TAI) {
    i64 t = 1700000000ll * 1000000000ll + W->now;
    if (p.kn("walljump")) {
      // the wall clock is set to a different time again and again
      u64 h = hash_of(p.seed, 41, (u64)(W->now / (i64)p.kn("walljump", 1)));
      if (h % 3) { t += (i64)(mix64(h) % 20000) * 1000000 - 10000000000ll; W->h.count["fault.wall_clock_jump"]++; }
    }
    return t;
  }
  if (c == CLOCK_PROCESS_CPUTIME_ID || c == CLOCK_THREAD_CPUTIME_ID) return W->now / 7;
  return up + W->now;
}
int clock_gettime(clockid_t c, struct timespec *ts)
{
  if (!innode()) { REAL(int, clock_gettime, clockid_t, struct timespec *); return real(c, ts); }
  NodeScope sc(false);
  seam(S_CLOCK);
  i64 t = sim_clock(c);
  ts->tv_sec = t / 1000000000; ts->tv_nsec = t % 1000000000;
  return 0;
}
int gettimeofday(struct timeval *tv, void *tz)
{
  if (!innode()) { REAL(int, gettimeofday, struct timeval *, void *); return real(tv, tz); }
  NodeScope sc(false);
  seam(S_CLOCK);
  i64 t = sim_clock(CLOCK_REALTIME);
  tv->tv_sec = t / 1000000000; tv->tv_usec = t % 1000000000 / 1000;
  return 0;
}
time_t time(time_t *o)
{
  if (!innode()) { struct timeval tv; gettimeofday(&tv, nullptr); if (o) *o = tv.tv_sec; return tv.tv_sec; }
  NodeScope sc(false);
  seam(S_CLOCK);
  time_t t = sim_clock(CLOCK_REALTIME) / 1000000000;
  if (o) *o = t;
  return t;
}
clock_t clock(void)
{
  if (!innode()) { REAL(clock_t, clock, void); return real(); }
  NodeScope sc(false);
  seam(S_CLOCK);
  return sim_clock(CLOCK_PROCESS_CPUTIME_ID) / 1000;
}
static void v_sleep(i64 ns)
{
  NodeScope sc(false);
  Node *n = W->cur;
  seam(S_SLEEP);
  n->wake = W->now + ns;
  note("sim.sleeps");
  node_switch_out();
}
int nanosleep(const struct timespec *a, struct timespec *b)
{
  if (!innode()) { REAL(int, nanosleep, const struct timespec *, struct timespec *); return real(a, b); }
  v_sleep(a->tv_sec * 1000000000ll + a->tv_nsec);
  return 0;
}
int clock_nanosleep(clockid_t c, int fl, const struct timespec *a, struct timespec *b)
{
  if (!innode()) { REAL(int, clock_nanosleep, clockid_t, int, const struct timespec *, struct timespec *); return real(c, fl, a, b); }
  i64 t = a->tv_sec * 1000000000ll + a->tv_nsec;
  if (fl & TIMER_ABSTIME) { t -= sim_clock(c); if (t < 0) t = 0; }
  v_sleep(t);
  return 0;
}
int usleep(useconds_t u) { struct timespec t = {(time_t)(u / 1000000), (long)(u % 1000000) * 1000}; return nanosleep(&t, nullptr); }
unsigned sleep(unsigned s) { struct timespec t = {(time_t)s, 0}; nanosleep(&t, nullptr); return 0; }
int sched_yield(void)
{
  if (!innode()) { REAL(int, sched_yield, void); return real(); }
  NodeScope sc(false);
  seam(S_SLEEP);
  return 0;
}

// ---------------------------------------------------------------- randomness and identity
static u64 node_random()
{
  Node *n = W->cur;
  int op = n->rand_op >= 0 ? n->rand_op : n->opid;
  u64 h = hash_of(W->plan->seed, 55, n->rand_op >= 0 ? 0 : n->job, n->rank, op, n->randk++);
  W->h.count["seam.random"]++;
  return h;
}
// Seeds with which the first or second number of std::mt19937 lies within 64 of its largest or 8 of its
// smallest value, found by trying all 2^32: draws at the very ends of a range.
static const unsigned edge_seeds[] = {
    2180022u, 5113050u, 5927148u, 14784396u, 16536550u, 20675268u, 21946421u, 23330562u, 30066990u, 62361014u,
    122868759u, 141350809u, 142431535u, 166645253u, 202767974u, 233651495u, 244993665u, 251666724u, 272838000u, 310537330u,
    336374145u, 368639432u, 418488773u, 439942723u, 458944427u, 467081101u, 479078791u, 479730119u, 493461857u, 506936186u,
    509541262u, 579343809u, 665051592u, 707847856u, 714283285u, 726175548u, 736640520u, 740192497u, 784391234u, 944200753u,
    986914443u, 994350336u, 1000686894u, 1012136688u, 1027377244u, 1054874138u, 1080100664u, 1144483048u, 1333834857u, 1334504581u,
    1442800446u, 1497683764u, 1498560640u, 1508589752u, 1555482224u, 1637877808u, 1641040012u, 1669190779u, 1681484612u, 1712782634u,
    1720764849u, 1733683858u, 1770663921u, 1792903164u, 1814991430u, 1845494695u, 1909886365u, 1922818728u, 1990566809u, 1996789888u,
    2010793076u, 2018340605u, 2116817403u, 2260735675u, 2297944771u, 2308386972u, 2352061844u, 2380838437u, 2384373375u, 2389535803u,
    2456379092u, 2478115996u, 2533497802u, 2552951968u, 2656927984u, 2665744120u, 2789682259u, 2855577693u, 2870830244u, 3042017636u,
    3043098718u, 3084994975u, 3115774623u, 3123099464u, 3132594769u, 3143683829u, 3144773949u, 3146854750u, 3148059908u, 3163200160u,
    3205692993u, 3216529998u, 3267852125u, 3320039933u, 3387381644u, 3392340419u, 3486945508u, 3487619430u, 3512678260u, 3544906133u,
    3565058634u, 3616711188u, 3634159186u, 3710816105u, 3726448107u, 3762108329u, 3801727556u, 3810236547u, 3812611234u, 3879629135u,
    3880390359u, 3911336979u, 3947786944u, 3950538743u, 3998169835u, 4015366001u, 4029690477u, 4038584667u, 4073414128u, 4073551442u,
    4106567607u, 4133498512u, 4190452597u, 4213282046u, 4237124826u, 4258431354u, 4267811943u, 4282666646u,
};
static unsigned node_seed()
{
  u64 h = node_random(), e = hash_of(h, 56);
  if (e % 32) return (unsigned)h;
  W->h.count["fault.edge_random_seed"]++;
  return edge_seeds[(e >> 8) % (sizeof(edge_seeds) / sizeof(*edge_seeds))];
}
int getentropy(void *b, size_t n)
{
  if (!innode()) { REAL(int, getentropy, void *, size_t); return real(b, n); }
  for (size_t i = 0; i < n; i++) ((unsigned char *)b)[i] = (unsigned char)node_random();
  return 0;
}
ssize_t getrandom(void *b, size_t n, unsigned fl)
{
  if (!innode()) { REAL(ssize_t, getrandom, void *, size_t, unsigned); return real(b, n, fl); }
  getentropy(b, n);
  return n;
}
uint32_t arc4random(void)
{
  if (!innode()) { REAL(uint32_t, arc4random, void); return real(); }
  return (uint32_t)node_random();
}
int rand(void)
{
  if (!innode()) { REAL(int, rand, void); return real(); }
  return (int)(node_random() & 0x7fffffff);
}
long random(void)
{
  if (!innode()) { REAL(long, random, void); return real(); }
  return (long)(node_random() & 0x7fffffff);
}
pid_t getpid(void)
{
  if (!innode()) { REAL(pid_t, getpid, void); return real(); }
  return W->cur->pid;
}
int gethostname(char *b, size_t n)
{
  if (!innode()) { REAL(int, gethostname, char *, size_t); return real(b, n); }
  snprintf(b, n, "host%d", W->cur->spec->same_pid ? W->cur->rank : 0);
  return 0;
}
extern char **environ;
char *getenv(const char *k)
{
  if (innode()) {
    NodeScope sc(false);
    auto i = W->cur->env.find(k);
    if (i == W->cur->env.end()) return nullptr;
    auto &s = W->cur->envstore[k];
    if (!s || *s != i->second) s = new string(i->second);
    return &(*s)[0];
  }
  size_t l = strlen(k);
  for (char **e = environ; e && *e; e++) if (!strncmp(*e, k, l) && (*e)[l] == '=') return *e + l + 1;
  return nullptr;
}
char *secure_getenv(const char *k) { return getenv(k); }
int setenv(const char *k, const char *v, int ow)
{
  if (innode()) {
    NodeScope sc(false);
    if (!*k || strchr(k, '=')) { errno = EINVAL; return -1; }
    if (ow || !W->cur->env.count(k)) W->cur->env[k] = v;
    return 0;
  }
  REAL(int, setenv, const char *, const char *, int);
  return real(k, v, ow);
}
int putenv(char *s)
{
  if (innode()) {
    NodeScope sc(false);
    char *e = strchr(s, '=');
    if (e) W->cur->env[string(s, e)] = e + 1; else W->cur->env.erase(s);
    return 0;
  }
  REAL(int, putenv, char *);
  return real(s);
}
int unsetenv(const char *k)
{
  if (innode()) { NodeScope sc(false); W->cur->env.erase(k); return 0; }
  REAL(int, unsetenv, const char *);
  return real(k);
}

// ---------------------------------------------------------------- process end
void abort(void)
{
  if (innode()) node_die(D_ABORT, "abort()");
  static void (*real)(void) = (void (*)(void))real_dlsym(RTLD_NEXT, "abort");
  real();
  _exit(3);
}
void exit(int c)
{
  if (innode()) {
    Node *n = W->cur;
    n->shutting = true;
    n->api->finalize();
    node_die(D_EXITCALL, "exit(" + std::to_string(c) + ")");
  }
  static void (*real)(int) = (void (*)(int))real_dlsym(RTLD_NEXT, "exit");
  real(c);
  __builtin_trap();
}
void _exit(int c)
{
  if (innode()) node_die(D_EXITCALL, "_exit");
  static void (*real)(int) = (void (*)(int))real_dlsym(RTLD_NEXT, "_exit");
  real(c);
  __builtin_trap();
}
void quick_exit(int c)
{
  if (innode()) node_die(D_EXITCALL, "quick_exit");
  static void (*real)(int) = (void (*)(int))real_dlsym(RTLD_NEXT, "quick_exit");
  real(c);
  __builtin_trap();
}
int raise(int s)
{
  if (innode()) node_die(D_SIGNAL, "raise");
  REAL(int, raise, int);
  return real(s);
}
}  // extern "C"

namespace std {
unsigned int random_device::_M_getval() { if (!innode()) { unsigned v; ::getentropy(&v, 4); return v; } NodeScope sc(false); return node_seed(); }
void random_device::_M_init(const std::string &) {}
void random_device::_M_fini() {}
}

static void on_terminate()
{
  string what = "terminate";
  bool in = innode();
  {
    NodeScope sc(false);
    if (std::exception_ptr e = std::current_exception()) {
      try { std::rethrow_exception(e); }
      catch (std::exception &x) { what = string("uncaught exception: ") + x.what(); }
      catch (...) { what = "uncaught exception"; }
    }
  }
  if (in) node_die(D_ABORT, what);
  fprintf(stderr, "apsim: %s\n", what.c_str());
  _exit(3);
}
static void on_signal(int s)
{
  sigset_t m; sigemptyset(&m); sigaddset(&m, s); sigprocmask(SIG_UNBLOCK, &m, nullptr);
  if (W && W->cur) {
    if (s == SIGPROF) { W->h.hang = true; W->h.note = "no progress (cpu limit)"; W->stop = true; node_die(D_SIGNAL, "cpu limit"); }
    W->h.count["node.signal"]++;
    node_die(D_SIGNAL, string("signal ") + strsignal(s));
  }
  if (s == SIGPROF) return;
  fprintf(stderr, "apsim: harness signal %d\n", s);
  _exit(4);
}
struct NullBuf : std::streambuf { int overflow(int c) override { return c == EOF ? 0 : c; } std::streamsize xsputn(const char *, std::streamsize n) override { return n; } };
struct ErrBuf : std::streambuf {
  void put(const char *s, size_t n) { NodeScope sc(false); if (W && W->cur) W->cur->cerr_buf.append(s, n); else fwrite(s, 1, n, stderr); }
  int overflow(int c) override { if (c != EOF) { char x = (char)c; put(&x, 1); } return c == EOF ? 0 : c; }
  std::streamsize xsputn(const char *s, std::streamsize n) override { put(s, n); return n; }
};
void core_init()
{
  real_dlsym = (void *(*)(void *, const char *))dlvsym(RTLD_NEXT, "dlsym", "GLIBC_2.2.5");
  if (!real_dlsym) real_dlsym = (void *(*)(void *, const char *))dlvsym(RTLD_NEXT, "dlsym", "GLIBC_2.34");
  real_dlopen = (void *(*)(const char *, int))real_dlsym(RTLD_NEXT, "dlopen");
  std::set_terminate(on_terminate);
  std::cout.rdbuf(new NullBuf); std::cerr.rdbuf(new ErrBuf); std::clog.rdbuf(new NullBuf);
  static char alt[1 << 16];
  stack_t ss; memset(&ss, 0, sizeof ss); ss.ss_sp = alt; ss.ss_size = sizeof alt; sigaltstack(&ss, nullptr);
  struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = on_signal; sa.sa_flags = SA_ONSTACK | SA_NODEFER;
  for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGPROF}) sigaction(s, &sa, nullptr);
}
