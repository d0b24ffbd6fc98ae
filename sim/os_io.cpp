// Simulated file system, timerfd, UDP sockets, name resolution and dynamic loader.
#undef _FORTIFY_SOURCE
#include "core.h"
#include <stdio.h>
#include <stdlib.h>
#include <stdarg.h>
#include <unistd.h>
#include <fcntl.h>
#include <dirent.h>
#include <dlfcn.h>
#include <limits.h>
#include <netdb.h>
#include <poll.h>
#include <pthread.h>
#include <utime.h>
#include <sys/ioctl.h>
#include <sys/random.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/timerfd.h>
#include <sys/uio.h>
#include <sys/vfs.h>
#include <netinet/in.h>
#include <arpa/inet.h>
#include <algorithm>
#include <set>

namespace sim {
struct Inode
{
  bool dir;
  std::string data;
  std::map<std::string, Inode*> kids;
  ns_t mtime;
  int nlink;
  int64_t ino;
  bool writable;
};
struct Timer { int clock; bool armed; ns_t next; ns_t interval; bool abs_real; uint64_t seen; bool nonblock; };
struct Sock { std::string host, port; bool connected; int pending_err; };
struct Fd
{
  enum K { FILE_, DIR_, TIMER, SOCK, RANDOM } k;
  Inode* in; int64_t pos; int flags; std::string path;
  Timer t; Sock s;
  std::vector<std::string> names; size_t dpos;
  Fd() : k(FILE_), in(0), pos(0), flags(0), dpos(0) { memset((void*)&t, 0, sizeof t); s.connected = false; s.pending_err = 0; }
};
static const int FD0 = 10000;
static std::map<int, Fd>* fds;
static int fd_next;
static std::map<FILE*, int>* files;
static Inode* root;
static int64_t ino_next;
static int64_t cap = -1;
static std::string *fault_path, *bad_path;
static int bad_path_err;
static std::map<std::string, int64_t>* bad_from;
static bool dir_shuffle;
static std::map<DIR*, int>* dirs;

namespace fs { std::vector<Call> log; }
namespace net { std::vector<Datagram> sent; int dns_calls = 0; }
namespace dl { std::map<std::string, Lib> libs; std::map<std::string, void*> global_syms; }
static std::string* dl_err;

static Inode* new_inode(bool dir)
{
  Inode* i = new Inode();
  i->dir = dir; i->mtime = real(); i->nlink = 1; i->ino = ++ino_next; i->writable = true;
  return i;
}
void reset_fs()
{
  fds = new std::map<int, Fd>; files = new std::map<FILE*, int>; dirs = new std::map<DIR*, int>;
  fd_next = FD0; ino_next = 100;
  root = new_inode(true);
  root->kids["simfs"] = new_inode(true);
  root->kids["simfs"]->kids["cwd"] = new_inode(true);
  root->kids["tmp"] = new_inode(true);
  root->kids["var"] = new_inode(true);
  root->kids["var"]->kids["tmp"] = new_inode(true);
  cap = -1;
  fault_path = new std::string; bad_path = new std::string; bad_path_err = 0; bad_from = new std::map<std::string, int64_t>;
  dir_shuffle = false;
  dl_err = new std::string;
}
static void split(const std::string& p, std::vector<std::string>& v)
{
  size_t i = 0;
  while (i < p.size())
  {
    while (i < p.size() && p[i] == '/') ++i;
    size_t j = i;
    while (j < p.size() && p[j] != '/') ++j;
    if (j > i)
    {
      std::string c = p.substr(i, j - i);
      if (c == "..") { if (!v.empty()) v.pop_back(); }
      else if (c != ".") v.push_back(c);
    }
    i = j;
  }
}
// Which paths the simulated file system owns.
static bool ours_raw(const char* p, std::string& abs)
{
  if (!p) return false;
  if (p[0] != '/') { abs = std::string("/simfs/cwd/") + p; return true; }
  static const char* pre[] = { "/simfs", "/tmp", "/var/tmp", "/usr/tmp" };
  for (size_t i = 0; i < 4; ++i)
  {
    size_t n = strlen(pre[i]);
    if (!strncmp(p, pre[i], n) && (p[n] == 0 || p[n] == '/')) { abs = p; return true; }
  }
  return false;
}
static Inode* walk(const std::string& path, Inode** parent, std::string* leaf, int* err);
static bool ours(const char* p, std::string& abs)
{
  if (!ours_raw(p, abs)) return false;
  if (abs.find("/.") == std::string::npos) return true;
  // "x/.." is the directory of x only if x is a directory
  std::string in = abs + "/", out;
  for (size_t i = 1, j; i < in.size(); i = j + 1)
  {
    j = in.find('/', i);
    std::string c = in.substr(i, j - i);
    if (c.empty() || c == ".") continue;
    if (c != "..") { out += "/" + c; continue; }
    int err = 0;
    Inode* n = walk(out, 0, 0, &err);
    if (!n || !n->dir) { out += "/(missing)"; continue; }
    out.erase(out.empty() ? 0 : out.rfind('/'));
  }
  if (out.empty() || abs[abs.size() - 1] == '/') out += "/";
  abs = out;
  return true;
}
static Inode* walk(const std::string& path, Inode** parent, std::string* leaf, int* err)
{
  std::vector<std::string> v;
  split(path, v);
  Inode* n = root;
  if (parent) *parent = 0;
  for (size_t i = 0; i < v.size(); ++i)
  {
    if (v[i].size() > 255) { *err = ENAMETOOLONG; return 0; }
    if (!n->dir) { *err = ENOTDIR; return 0; }
    if (i + 1 == v.size()) { if (parent) *parent = n; if (leaf) *leaf = v[i]; }
    std::map<std::string, Inode*>::iterator it = n->kids.find(v[i]);
    if (it == n->kids.end()) { *err = ENOENT; return 0; }
    n = it->second;
  }
  if (!path.empty() && path[path.size() - 1] == '/' && !n->dir) { *err = ENOTDIR; return 0; }
  return n;
}
static bool faulty(const std::string& p) { return fault_path->empty() || p.find(*fault_path) != std::string::npos; }
static void record(const char* op, const std::string& a, const std::string& b, int64_t ret, int err)
{
  fs::Call c;
  c.seq = seq(); c.fiber = self(); c.op = op; c.path = a; c.path2 = b; c.ret = ret; c.err = err;
  fs::log.push_back(c);
  if (verbose()) note("%s %s %s -> %ld (%s)", op, a.c_str(), b.c_str(), (long)ret, err ? strerror(err) : "ok");
}
static Fd* get(int fd) { if (fd < FD0 || !fds) return 0; std::map<int, Fd>::iterator it = fds->find(fd); return it == fds->end() ? 0 : &it->second; }

static int do_open(const std::string& path, int flags, mode_t)
{
  int err = 0;
  Inode* parent = 0; std::string leaf;
  bool wr = (flags & O_ACCMODE) != O_RDONLY;
  if (bad_path_err && path.find(*bad_path) != std::string::npos) { record("open", path, "", -1, bad_path_err); errno = bad_path_err; return -1; }
  if (faulty(path))
  {
    int64_t which = 0;
    if (fault_locked(FT_OPEN_ERR, &which, 0, 3))
    {
      static const int errs[] = { EMFILE, EACCES, EIO, ENFILE };
      record("open", path, "", -1, errs[which & 3]);
      errno = errs[which & 3];
      return -1;
    }
  }
  Inode* n = walk(path, &parent, &leaf, &err);
  if (!n)
  {
    if (err != ENOENT || !parent || !(flags & O_CREAT)) { errno = err; record("open", path, "", -1, err); return -1; }
    if (!parent->writable) { errno = EACCES; record("open", path, "", -1, EACCES); return -1; }
    if (cap == 0) { count_fault(FT_DISK_FULL); errno = ENOSPC; record("open", path, "", -1, ENOSPC); return -1; }
    n = new_inode(false);
    parent->kids[leaf] = n;
    record("create", path, "", 0, 0);
  }
  else
  {
    if ((flags & O_CREAT) && (flags & O_EXCL)) { errno = EEXIST; return -1; }
    if (n->dir && wr) { errno = EISDIR; return -1; }
    if (wr && !n->writable) { errno = EACCES; return -1; }
    if (!n->dir && (flags & O_DIRECTORY)) { errno = ENOTDIR; return -1; }
    if ((flags & O_TRUNC) && !n->dir && wr)
    {
      if (cap >= 0) cap += (int64_t)n->data.size();
      if (!n->data.empty()) record("truncate", path, "", 0, 0);
      n->data.clear(); n->mtime = real();
    }
  }
  Fd f;
  f.k = n->dir ? Fd::DIR_ : Fd::FILE_;
  f.in = n; f.flags = flags; f.path = path;
  ++n->nlink;
  int fd = fd_next++;
  (*fds)[fd] = f;
  return fd;
}
static void release_inode(Inode* n) { if (--n->nlink == 0) { if (cap >= 0) cap += (int64_t)n->data.size(); n->data.clear(); } }

static int64_t do_write(Fd* f, const void* buf, size_t n, int64_t at)
{
  if (!(f->flags & (O_WRONLY | O_RDWR))) { errno = EBADF; return -1; }
  if (n == 0) return 0;
  size_t want = n;
  if (faulty(f->path))
  {
    if (fault_locked(FT_EINTR_WRITE, 0, 0, 0)) { errno = EINTR; return -1; }
    if (fault_locked(FT_WRITE_ERR, 0, 0, 0)) { record("write", f->path, "", -1, EIO); errno = EIO; return -1; }
    if (fault_locked(FT_ENOSPC, 0, 0, 0)) { record("write", f->path, "", -1, ENOSPC); errno = ENOSPC; return -1; }
    int64_t part = 0;
    if (n > 1 && fault_locked(FT_SHORT_WRITE, &part, 1, 99)) n = 1 + (n - 1) * part / 100;
  }
  bool app = at < 0 && (f->flags & O_APPEND);
  int64_t pos = at >= 0 ? at : app ? (int64_t)f->in->data.size() : f->pos;
  int64_t grow = pos + (int64_t)n - (int64_t)f->in->data.size();
  if (cap >= 0 && grow > cap)
  {
    count_fault(FT_DISK_FULL);
    int64_t fit = (int64_t)n - (grow - cap);
    if (fit <= 0) { record("write", f->path, "", -1, ENOSPC); errno = ENOSPC; return -1; }
    n = (size_t)fit;
    grow = cap;
  }
  if (grow > 0) { f->in->data.resize(pos + n); if (cap >= 0) cap -= grow; }
  memcpy(&f->in->data[pos], buf, n);
  f->in->mtime = real();
  if (at < 0) f->pos = pos + n;
  (void)want;
  return (int64_t)n;
}
static int64_t do_read(Fd* f, void* buf, size_t n, int64_t at)
{
  if ((f->flags & O_ACCMODE) == O_WRONLY) { errno = EBADF; return -1; }
  if (f->in->dir) { errno = EISDIR; return -1; }
  int64_t pos = at >= 0 ? at : f->pos;
  if (faulty(f->path))
  {
    if (fault_locked(FT_EINTR_READ, 0, 0, 0)) { errno = EINTR; return -1; }
    if (fault_locked(FT_READ_ERR, 0, 0, 0)) { record("read", f->path, "", -1, EIO); errno = EIO; return -1; }
  }
  int64_t left = (int64_t)f->in->data.size() - pos;
  if (left <= 0) return 0;
  if ((int64_t)n > left) n = left;
  std::map<std::string, int64_t>::iterator bad = bad_from->find(f->path);
  if (bad != bad_from->end())
  {
    if (pos >= bad->second) { count_fault(FT_READ_ERR); record("read", f->path, "", -1, EIO); errno = EIO; return -1; }
    if ((int64_t)n > bad->second - pos) n = bad->second - pos;
  }
  int64_t part = 0;
  if (at < 0 && n > 1 && faulty(f->path) && fault_locked(FT_SHORT_READ, &part, 1, 99)) n = 1 + (n - 1) * part / 100;
  memcpy(buf, f->in->data.data() + pos, n);
  if (at < 0) f->pos = pos + n;
  return (int64_t)n;
}
static int fill_stat(Inode* n, struct stat* st)
{
  memset(st, 0, sizeof *st);
  st->st_mode = n->dir ? S_IFDIR | 0755 : S_IFREG | 0644;
  st->st_ino = n->ino; st->st_dev = 77; st->st_nlink = 1; st->st_size = n->data.size(); st->st_blksize = 4096;
  st->st_blocks = (n->data.size() + 511) / 512;
  st->st_mtim.tv_sec = n->mtime / SEC; st->st_mtim.tv_nsec = n->mtime % SEC;
  st->st_atim = st->st_ctim = st->st_mtim;
  return 0;
}
static int path_stat(const std::string& p, struct stat* st)
{
  if (faulty(p) && fault_locked(FT_STAT_ERR, 0, 0, 0)) { errno = EIO; return -1; }
  int err = 0;
  Inode* n = walk(p, 0, 0, &err);
  if (!n) { errno = err; return -1; }
  return fill_stat(n, st);
}
static int do_unlink(const std::string& p, bool dir)
{
  if (faulty(p) && fault_locked(FT_UNLINK_ERR, 0, 0, 0)) { record("unlink", p, "", -1, EIO); errno = EIO; return -1; }
  int err = 0;
  Inode* parent = 0; std::string leaf;
  Inode* n = walk(p, &parent, &leaf, &err);
  if (!n) { record("unlink", p, "", -1, err); errno = err; return -1; }
  if (n->dir != dir) { errno = dir ? ENOTDIR : EISDIR; return -1; }
  if (dir && !n->kids.empty()) { errno = ENOTEMPTY; return -1; }
  if (!parent || !parent->writable) { errno = EACCES; return -1; }
  parent->kids.erase(leaf);
  record("unlink", p, "", 0, 0);
  release_inode(n);
  return 0;
}
static int do_rename(const std::string& a, const std::string& b)
{
  if ((faulty(a) || faulty(b)) && fault_locked(FT_RENAME_ERR, 0, 0, 0)) { record("rename", a, b, -1, EIO); errno = EIO; return -1; }
  int err = 0;
  Inode *pa = 0, *pb = 0; std::string la, lb;
  Inode* n = walk(a, &pa, &la, &err);
  if (!n) { record("rename", a, b, -1, err); errno = err; return -1; }
  Inode* o = walk(b, &pb, &lb, &err);
  if (!pb) { record("rename", a, b, -1, err); errno = err; return -1; }
  if (!pa || !pa->writable || !pb->writable) { errno = EACCES; return -1; }
  if (o == n) return 0;
  if (o) { if (o->dir) { errno = EISDIR; return -1; } record("replace", b, "", 0, 0); }
  pb->kids[lb] = n;
  pa->kids.erase(la);
  if (o) release_inode(o);
  record("rename", a, b, 0, 0);
  return 0;
}

// ------------------------------------------------------------- harness view of the file system
namespace fs {
void mkdir(const std::string& path)
{
  Guard g;
  std::vector<std::string> v; split(path, v);
  Inode* n = root;
  for (size_t i = 0; i < v.size(); ++i)
  {
    if (!n->kids.count(v[i])) n->kids[v[i]] = new_inode(true);
    n = n->kids[v[i]];
  }
}
void put(const std::string& path, const std::string& data, ns_t mtime)
{
  Guard g;
  int err = 0; Inode* p = 0; std::string leaf;
  Inode* n = walk(path, &p, &leaf, &err);
  if (!n) { if (!p) vfail("harness", "put: no directory"); n = new_inode(false); p->kids[leaf] = n; }
  n->data = data;
  n->mtime = mtime >= 0 ? mtime : real();
}
bool exists(const std::string& path) { Guard g; int e; return walk(path, 0, 0, &e) != 0; }
std::string get(const std::string& path) { Guard g; int e; Inode* n = walk(path, 0, 0, &e); return n ? n->data : std::string(); }
ns_t mtime(const std::string& path) { Guard g; int e; Inode* n = walk(path, 0, 0, &e); return n ? n->mtime : -1; }
void remove(const std::string& path)
{
  Guard g; int e; Inode* p = 0; std::string leaf;
  Inode* n = walk(path, &p, &leaf, &e);
  if (n && p) { p->kids.erase(leaf); release_inode(n); }
}
std::vector<std::string> list(const std::string& dir)
{
  Guard g;
  std::vector<std::string> r; int e;
  Inode* n = walk(dir, 0, 0, &e);
  if (n) for (std::map<std::string, Inode*>::iterator it = n->kids.begin(); it != n->kids.end(); ++it) r.push_back(it->first);
  return r;
}
void set_capacity(int64_t b) { cap = b; }
int64_t capacity() { return cap; }
void bad_sector(const std::string& path, int64_t offset) { Guard g; if (offset < 0) bad_from->erase(path); else (*bad_from)[path] = offset; }
void fail_path(const std::string& s, int err) { Guard g; *bad_path = s; bad_path_err = err; }
void chmod_dir(const std::string& d, bool w) { Guard g; int e; Inode* n = walk(d, 0, 0, &e); if (n) n->writable = w; }
int open_fds() { int c = 0; for (std::map<int, Fd>::iterator it = fds->begin(); it != fds->end(); ++it) c += it->second.k == Fd::FILE_ || it->second.k == Fd::DIR_; return c; }
void fault_paths(const std::string& s) { Guard g; *fault_path = s; }
void set_readdir_shuffle(bool on) { dir_shuffle = on; }
}
static int n_bad_closes;
int bad_closes() { return n_bad_closes; }
int open_timerfds() { int c = 0; for (std::map<int, Fd>::iterator it = fds->begin(); it != fds->end(); ++it) c += it->second.k == Fd::TIMER; return c; }
int open_sockets() { int c = 0; for (std::map<int, Fd>::iterator it = fds->begin(); it != fds->end(); ++it) c += it->second.k == Fd::SOCK; return c; }

// timerfd: expirations up to now
static ns_t timer_now(const Timer& t) { return t.clock == CLOCK_REALTIME ? real() : mono(); }
static uint64_t timer_expirations(Timer& t)
{
  if (!t.armed) return 0;
  ns_t now = timer_now(t);
  if (now < t.next) return 0;
  uint64_t n = 1;
  if (t.interval > 0) { n += (now - t.next) / t.interval; t.next += (ns_t)n * t.interval; }
  else t.armed = false;
  return n;
}

static int64_t net_send(int fd, Fd* f, const void* buf, size_t n)
{
  if (!f->s.connected) { errno = EDESTADDRREQ; return -1; }
  int64_t which = 0;
  if (fault_locked(FT_SEND_ERR, &which, 0, 4))
  {
    static const int errs[] = { ECONNREFUSED, ENETUNREACH, ENOBUFS, EPERM, EINTR };
    errno = errs[which];
    if (verbose()) note("send failed: %s", strerror(errno));
    return -1;
  }
  if (n > 65507) { errno = EMSGSIZE; return -1; }
  net::Datagram d;
  d.seq = seq(); d.fiber = self(); d.fd = fd; d.host = f->s.host; d.port = f->s.port; d.data.assign((const char*)buf, n);
  d.delivered = !fault_locked(FT_NET_DROP, 0, 0, 0);
  net::sent.push_back(d);
  if (verbose()) note("datagram of %zu bytes", n);
  return (int64_t)n;
}

static int64_t fd_write(int fd, const void* b, size_t n, int64_t at = -1)
{
  Fd* f = get(fd);
  if (!f) { errno = EBADF; return -1; }
  if (f->k == Fd::SOCK) return net_send(fd, f, b, n);
  if (f->k != Fd::FILE_) { errno = EBADF; return -1; }
  return do_write(f, b, n, at);
}
static int64_t fd_read(int fd, void* b, size_t n, int64_t at = -1)
{
  Fd* f = get(fd);
  if (!f) { errno = EBADF; return -1; }
  if (f->k == Fd::RANDOM)
  {
    for (size_t i = 0; i < n; ++i) ((unsigned char*)b)[i] = (unsigned char)env_rng().next();
    return (int64_t)n;
  }
  if (f->k == Fd::TIMER)
  {
    if (n < 8) { errno = EINVAL; return -1; }
    for (;;)
    {
      f = get(fd);
      if (!f) { errno = EBADF; return -1; }
      uint64_t e = timer_expirations(f->t);
      if (e) { memcpy(b, &e, 8); return 8; }
      if (f->t.nonblock) { errno = EAGAIN; return -1; }
      int64_t part = 0;
      if (fault_locked(FT_EINTR_READ, &part, 0, 99))
      {
        if (f->t.armed && f->t.clock != CLOCK_REALTIME) block("a timer (to be interrupted)", &f->t, mono() + (f->t.next - mono()) / 100 * part);
        errno = EINTR; return -1;
      }
      bool rc = f->t.clock == CLOCK_REALTIME;
      if (!f->t.armed) block("an unarmed timer", &f->t, NEVER);
      else
      {
        int64_t late = 0;
        ns_t next = f->t.next;
        if (fault_locked(FT_TIMER_LATE, &late, 1, 30)) next += late * 100 * US;
        block("a timer", &f->t, rc ? NEVER : next, rc, next);
      }
    }
  }
  if (f->k == Fd::SOCK) { errno = EAGAIN; return -1; }
  if (f->k != Fd::FILE_) { errno = EISDIR; return -1; }
  return do_read(f, b, n, at);
}
static int fd_close(int fd)
{
  Fd* f = get(fd);
  if (!f) { errno = EBADF; return -1; }
  bool file = f->k == Fd::FILE_;
  std::string p = f->path;
  bool wr = f->flags & (O_WRONLY | O_RDWR);
  if (f->in) release_inode(f->in);
  fds->erase(fd);
  if (file && wr && faulty(p) && fault_locked(FT_CLOSE_ERR, 0, 0, 0)) { errno = EIO; return -1; }
  return 0;
}
} // namespace sim
using namespace sim;

extern "C" {
// ---------------------------------------------------------------- open / close / read / write
static int sys_open(const char* path, int flags, mode_t mode, bool& handled)
{
  handled = false;
  if (!g_active) return -1;
  Guard g;
  std::string abs;
  if (!strcmp(path, "/dev/urandom") || !strcmp(path, "/dev/random"))
  {
    handled = true;
    Fd f; f.k = Fd::RANDOM; int fd = fd_next++; (*fds)[fd] = f; return fd;
  }
  if (!ours(path, abs))
  {
    if ((flags & O_ACCMODE) != O_RDONLY || (flags & O_CREAT)) { handled = true; ev("outside_open"); errno = EACCES; return -1; }
    return -1;
  }
  handled = true;
  if (g_guard == 1) syscall_point("open", flags & (O_ACCMODE | O_CREAT | O_TRUNC));
  return do_open(abs, flags, mode);
}
#define OPEN_BODY(realname) \
  mode_t mode = 0; \
  if (flags & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); mode = va_arg(ap, mode_t); va_end(ap); } \
  bool h; int r = sys_open(path, flags, mode, h); \
  if (h) return r; \
  return (int)syscall(SYS_openat, AT_FDCWD, path, flags, mode);
int open(const char* path, int flags, ...) { OPEN_BODY(open) }
int open64(const char* path, int flags, ...) { OPEN_BODY(open64) }
int creat(const char* path, mode_t m) { return open(path, O_CREAT | O_WRONLY | O_TRUNC, m); }
int openat(int dfd, const char* path, int flags, ...)
{
  mode_t mode = 0;
  if (flags & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); mode = va_arg(ap, mode_t); va_end(ap); }
  if (g_active)
  {
    std::string full;
    { Guard g; Fd* f = get(dfd); if (f && path[0] != '/') full = f->path + "/" + path; else full = path; }
    bool h; int r = sys_open(full.c_str(), flags, mode, h);
    if (h) return r;
  }
  return (int)syscall(SYS_openat, dfd, path, flags, mode);
}
int openat64(int dfd, const char* path, int flags, ...)
{
  mode_t mode = 0;
  if (flags & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); mode = va_arg(ap, mode_t); va_end(ap); }
  return openat(dfd, path, flags, mode);
}
int __open64_2(const char* path, int flags) { return open64(path, flags); }
int __open_2(const char* path, int flags) { return open(path, flags); }
int __openat64_2(int d, const char* path, int flags) { return openat(d, path, flags); }
int __openat_2(int d, const char* path, int flags) { return openat(d, path, flags); }
int close(int fd)
{
  if (g_active && (fd < 0 || (fd >= FD0 && !fds->count(fd)))) ++n_bad_closes;
  if (!g_active || fd < FD0) return (int)syscall(SYS_close, fd);
  Guard g;
  if (g_guard == 1) syscall_point("close");
  return fd_close(fd);
}
ssize_t read(int fd, void* b, size_t n)
{
  if (!g_active || fd < FD0) return syscall(SYS_read, fd, b, n);
  Guard g;
  if (g_guard == 1) syscall_point("read", (int64_t)n);
  if (cancel_pending()) { pthread_testcancel(); }
  return fd_read(fd, b, n);
}
ssize_t write(int fd, const void* b, size_t n)
{
  if (!g_active || fd < FD0) return syscall(SYS_write, fd, b, n);
  Guard g;
  if (g_guard == 1) syscall_point("write", (int64_t)n);
  return fd_write(fd, b, n);
}
ssize_t pread(int fd, void* b, size_t n, off_t o) { if (!g_active || fd < FD0) return syscall(SYS_pread64, fd, b, n, o); Guard g; if (g_guard == 1) syscall_point("pread", (int64_t)n); return fd_read(fd, b, n, o); }
ssize_t pread64(int fd, void* b, size_t n, off64_t o) { return pread(fd, b, n, o); }
ssize_t pwrite(int fd, const void* b, size_t n, off_t o) { if (!g_active || fd < FD0) return syscall(SYS_pwrite64, fd, b, n, o); Guard g; if (g_guard == 1) syscall_point("pwrite", (int64_t)n); return fd_write(fd, b, n, o); }
ssize_t pwrite64(int fd, const void* b, size_t n, off64_t o) { return pwrite(fd, b, n, o); }
ssize_t writev(int fd, const struct iovec* v, int c)
{
  if (!g_active || fd < FD0) return syscall(SYS_writev, fd, v, c);
  Guard g;
  std::string s;
  for (int i = 0; i < c; ++i) s.append((const char*)v[i].iov_base, v[i].iov_len);
  if (g_guard == 1) syscall_point("writev", (int64_t)s.size());
  return fd_write(fd, s.data(), s.size());
}
ssize_t readv(int fd, const struct iovec* v, int c)
{
  if (!g_active || fd < FD0) return syscall(SYS_readv, fd, v, c);
  ssize_t t = 0;
  for (int i = 0; i < c; ++i) { ssize_t r = read(fd, v[i].iov_base, v[i].iov_len); if (r < 0) return t ? t : r; t += r; if ((size_t)r < v[i].iov_len) break; }
  return t;
}
off_t lseek(int fd, off_t o, int w)
{
  if (!g_active || fd < FD0) return syscall(SYS_lseek, fd, o, w);
  Guard g;
  Fd* f = get(fd);
  if (!f) { errno = EBADF; return -1; }
  if (f->k != Fd::FILE_) { errno = ESPIPE; return -1; }
  int64_t base = w == SEEK_SET ? 0 : w == SEEK_CUR ? f->pos : (int64_t)f->in->data.size();
  if (base + o < 0) { errno = EINVAL; return -1; }
  f->pos = base + o;
  return f->pos;
}
off64_t lseek64(int fd, off64_t o, int w) { return lseek(fd, o, w); }
int fsync(int fd)
{
  if (!g_active || fd < FD0) return (int)syscall(SYS_fsync, fd);
  Guard g;
  if (g_guard == 1) syscall_point("fsync");
  Fd* f = get(fd);
  if (!f) { errno = EBADF; return -1; }
  if (faulty(f->path) && fault_locked(FT_FSYNC_ERR, 0, 0, 0)) { errno = EIO; return -1; }
  return 0;
}
int fdatasync(int fd) { return fsync(fd); }
int ftruncate(int fd, off_t n)
{
  if (!g_active || fd < FD0) return (int)syscall(SYS_ftruncate, fd, n);
  Guard g;
  Fd* f = get(fd);
  if (!f || f->k != Fd::FILE_) { errno = EBADF; return -1; }
  if (cap >= 0) { int64_t d = n - (int64_t)f->in->data.size(); if (d > cap) { errno = ENOSPC; return -1; } cap -= d; }
  f->in->data.resize(n);
  return 0;
}
int ftruncate64(int fd, off64_t n) { return ftruncate(fd, n); }
int truncate(const char* p, off_t n)
{
  std::string abs;
  if (!g_active) return (int)syscall(SYS_truncate, p, n);
  Guard g;
  if (!ours(p, abs)) { errno = EACCES; return -1; }
  int err; Inode* i = walk(abs, 0, 0, &err);
  if (!i) { errno = err; return -1; }
  i->data.resize(n);
  record("truncate", abs, "", 0, 0);
  return 0;
}
int truncate64(const char* p, off64_t n) { return truncate(p, n); }
int fcntl64(int fd, int cmd, ...)
{
  va_list ap; va_start(ap, cmd); long a = va_arg(ap, long); va_end(ap);
  if (!g_active || fd < FD0) return (int)syscall(SYS_fcntl, fd, cmd, a);
  Guard g;
  if (cmd == F_GETFL) { Fd* f = get(fd); return f ? f->flags : -1; }
  if (cmd == F_SETLK || cmd == F_SETLKW)
  {
    Fd* f = get(fd);
    struct flock* l = (struct flock*)a;
    if (f && l->l_type != F_UNLCK && faulty(f->path) && fault_locked(FT_DB_LOCKED, 0, 0, 0)) { errno = EAGAIN; return -1; }
    return 0;
  }
  if (cmd == F_GETLK) { ((struct flock*)a)->l_type = F_UNLCK; return 0; }
  return 0;
}
int fcntl(int fd, int cmd, ...) { va_list ap; va_start(ap, cmd); long a = va_arg(ap, long); va_end(ap); return fcntl64(fd, cmd, a); }
int ioctl(int fd, unsigned long req, ...)
{
  va_list ap; va_start(ap, req); void* a = va_arg(ap, void*); va_end(ap);
  if (!g_active || fd < FD0) return (int)syscall(SYS_ioctl, fd, req, a);
  Guard g;
  Fd* f = get(fd);
  if (f && req == FIONREAD && f->k == Fd::FILE_) { int64_t l = (int64_t)f->in->data.size() - f->pos; *(int*)a = (int)(l > 0 ? l : 0); return 0; }
  errno = ENOTTY;
  return -1;
}
int poll(struct pollfd* p, nfds_t n, int to)
{
  if (!g_active) return (int)syscall(SYS_poll, p, n, to);
  if (n == 0 && to > 0) { struct timespec t = { to / 1000, to % 1000 * 1000000L }; return nanosleep(&t, 0); }
  int r = 0;
  for (nfds_t i = 0; i < n; ++i) { p[i].revents = p[i].events & (POLLIN | POLLOUT); r += p[i].revents != 0; }
  return r;
}
int isatty(int fd) { if (g_active && fd >= FD0) { errno = ENOTTY; return 0; } struct stat st; (void)st; return REAL(isatty)(fd); }
int fchmod(int fd, mode_t m) { if (!g_active || fd < FD0) return (int)syscall(SYS_fchmod, fd, m); return 0; }
int fchown(int fd, uid_t u, gid_t gg) { if (!g_active || fd < FD0) return (int)syscall(SYS_fchown, fd, u, gg); return 0; }
int posix_fadvise64(int fd, off64_t, off64_t, int) { (void)fd; return 0; }

// ---------------------------------------------------------------- stat family
int stat(const char* p, struct stat* st)
{
  std::string abs;
  if (g_active) { Guard g; if (ours(p, abs)) { if (g_guard == 1) syscall_point("stat"); return path_stat(abs, st); } }
  return (int)syscall(SYS_newfstatat, AT_FDCWD, p, st, 0);
}
int lstat(const char* p, struct stat* st)
{
  std::string abs;
  if (g_active) { Guard g; if (ours(p, abs)) { if (g_guard == 1) syscall_point("stat"); return path_stat(abs, st); } }
  return (int)syscall(SYS_newfstatat, AT_FDCWD, p, st, AT_SYMLINK_NOFOLLOW);
}
int fstat(int fd, struct stat* st)
{
  if (!g_active || fd < FD0) return (int)syscall(SYS_newfstatat, fd, "", st, AT_EMPTY_PATH);
  Guard g;
  Fd* f = get(fd);
  if (!f) { errno = EBADF; return -1; }
  if (f->in) return fill_stat(f->in, st);
  memset(st, 0, sizeof *st); st->st_mode = S_IFCHR | 0600;
  return 0;
}
int stat64(const char* p, struct stat64* st) { return stat(p, (struct stat*)st); }
int lstat64(const char* p, struct stat64* st) { return lstat(p, (struct stat*)st); }
int fstat64(int fd, struct stat64* st) { return fstat(fd, (struct stat*)st); }
int fstatat(int d, const char* p, struct stat* st, int fl)
{
  if (g_active)
  {
    if (d >= FD0) { std::string full; { Guard g; Fd* f = get(d); full = !*p ? f->path : p[0] == '/' ? p : f->path + "/" + p; } return stat(full.c_str(), st); }
    std::string abs; bool o; { Guard g; o = ours(p, abs); }
    if (o) return stat(p, st);
  }
  return (int)syscall(SYS_newfstatat, d, p, st, fl);
}
int fstatat64(int d, const char* p, struct stat64* st, int fl) { return fstatat(d, p, (struct stat*)st, fl); }
int statx(int d, const char* p, int fl, unsigned mask, struct statx* sx)
{
  if (g_active)
  {
    std::string abs; bool o; { Guard g; o = d >= FD0 || ours(p, abs); }
    if (o)
    {
      struct stat st;
      int r = (d >= FD0 && !*p) ? fstat(d, &st) : fstatat(d, p, &st, 0);
      if (r) return r;
      memset(sx, 0, sizeof *sx);
      sx->stx_mask = STATX_BASIC_STATS;
      sx->stx_mode = st.st_mode; sx->stx_ino = st.st_ino; sx->stx_nlink = 1; sx->stx_size = st.st_size; sx->stx_blocks = st.st_blocks;
      sx->stx_blksize = 4096; sx->stx_dev_major = 7; sx->stx_dev_minor = 7;
      sx->stx_mtime.tv_sec = st.st_mtim.tv_sec; sx->stx_mtime.tv_nsec = st.st_mtim.tv_nsec;
      sx->stx_atime = sx->stx_ctime = sx->stx_mtime;
      return 0;
    }
  }
  return (int)syscall(SYS_statx, d, p, fl, mask, sx);
}
int access(const char* p, int m)
{
  std::string abs;
  if (g_active) { Guard g; if (ours(p, abs)) { int e; if (walk(abs, 0, 0, &e)) return 0; errno = e; return -1; } }
  return (int)syscall(SYS_access, p, m);
}
ssize_t readlink(const char* p, char* b, size_t n)
{
  std::string abs;
  if (g_active) { Guard g; if (ours(p, abs)) { errno = EINVAL; return -1; } }
  return syscall(SYS_readlink, p, b, n);
}
char* getcwd(char* b, size_t n)
{
  if (!g_active) { if (!b) return REAL(getcwd)(b, n); return syscall(SYS_getcwd, b, n) > 0 ? b : 0; }
  if (!b) { b = (char*)malloc(n ? n : 4096); n = 4096; }
  snprintf(b, n, "/simfs/cwd");
  return b;
}

// ---------------------------------------------------------------- names
int unlink(const char* p)
{
  if (!g_active) return (int)syscall(SYS_unlink, p);
  Guard g; std::string abs;
  if (g_guard == 1) syscall_point("unlink");
  if (!ours(p, abs)) { record("unlink", p, "", -1, EACCES); errno = EACCES; return -1; }
  return do_unlink(abs, false);
}
int rmdir(const char* p)
{
  if (!g_active) return (int)syscall(SYS_rmdir, p);
  Guard g; std::string abs;
  if (g_guard == 1) syscall_point("rmdir");
  if (!ours(p, abs)) { errno = EACCES; return -1; }
  return do_unlink(abs, true);
}
int remove(const char* p)
{
  if (!g_active) return REAL(remove)(p);
  Guard g; std::string abs;
  if (g_guard == 1) syscall_point("remove");
  if (!ours(p, abs)) { record("unlink", p, "", -1, EACCES); errno = EACCES; return -1; }
  int e; Inode* n = walk(abs, 0, 0, &e);
  return do_unlink(abs, n && n->dir);
}
int unlinkat(int d, const char* p, int fl)
{
  if (!g_active) return (int)syscall(SYS_unlinkat, d, p, fl);
  Guard g; std::string abs, full = p;
  Fd* f = get(d);
  if (f && p[0] != '/') full = f->path + "/" + p;
  if (!ours(full.c_str(), abs)) { record("unlink", full, "", -1, EACCES); errno = EACCES; return -1; }
  return do_unlink(abs, fl & AT_REMOVEDIR);
}
int rename(const char* a, const char* b)
{
  if (!g_active) return (int)syscall(SYS_rename, a, b);
  Guard g; std::string x, y;
  if (g_guard == 1) syscall_point("rename");
  if (!ours(a, x) || !ours(b, y)) { record("rename", a, b, -1, EACCES); errno = EACCES; return -1; }
  return do_rename(x, y);
}
int link(const char* a, const char* b)
{
  if (!g_active) return (int)syscall(SYS_link, a, b);
  Guard g; std::string x, y; int e;
  if (g_guard == 1) syscall_point("link");
  if (!ours(a, x) || !ours(b, y)) { errno = EACCES; return -1; }
  Inode* n = walk(x, 0, 0, &e);
  if (!n) { errno = e; return -1; }
  Inode* p = 0; std::string leaf;
  if (walk(y, &p, &leaf, &e)) { errno = EEXIST; return -1; }
  if (!p) { errno = ENOENT; return -1; }
  p->kids[leaf] = n; ++n->nlink;
  return 0;
}
int mkdir(const char* p, mode_t m)
{
  if (!g_active) return (int)syscall(SYS_mkdir, p, m);
  Guard g; std::string abs; int e;
  if (g_guard == 1) syscall_point("mkdir");
  if (!ours(p, abs)) { errno = EACCES; return -1; }
  Inode* par = 0; std::string leaf;
  if (walk(abs, &par, &leaf, &e)) { errno = EEXIST; return -1; }
  if (!par) { errno = ENOENT; return -1; }
  par->kids[leaf] = new_inode(true);
  record("mkdir", abs, "", 0, 0);
  return 0;
}
int chmod(const char* p, mode_t m) { if (!g_active) return (int)syscall(SYS_chmod, p, m); return 0; }
int utime(const char* p, const struct utimbuf* t) { if (!g_active) return REAL(utime)(p, t); return 0; }

// ---------------------------------------------------------------- directories
DIR* opendir(const char* p)
{
  std::string abs;
  bool o = false;
  if (g_active) { Guard g; o = ours(p, abs); }
  if (!o) return REAL(opendir)(p);
  Guard g;
  if (g_guard == 1) syscall_point("opendir");
  if (faulty(abs) && fault_locked(FT_DIR_ERR, 0, 0, 0)) { errno = EACCES; return 0; }
  int fd = do_open(abs, O_RDONLY | O_DIRECTORY, 0);
  if (fd < 0) return 0;
  return fdopendir(fd);
}
DIR* fdopendir(int fd)
{
  if (!g_active || fd < FD0) return REAL(fdopendir)(fd);
  Guard g;
  Fd* f = get(fd);
  if (!f || f->k != Fd::DIR_) { errno = ENOTDIR; return 0; }
  if (faulty(f->path) && fault_locked(FT_DIR_ERR, 0, 0, 0)) { errno = EACCES; return 0; }
  f->names.clear(); f->dpos = 0;
  for (std::map<std::string, Inode*>::iterator it = f->in->kids.begin(); it != f->in->kids.end(); ++it) f->names.push_back(it->first);
  f->names.push_back("."); f->names.push_back("..");
  for (size_t i = f->names.size(); dir_shuffle && i > 1; --i) std::swap(f->names[i - 1], f->names[env_rng().below(i)]);
  DIR* d = (DIR*)malloc(sizeof(struct dirent) + 64);
  (*dirs)[d] = fd;
  return d;
}
struct dirent* readdir(DIR* d)
{
  if (!g_active || !dirs->count(d)) return REAL(readdir)(d);
  Guard g;
  if (g_guard == 1) syscall_point("readdir");
  Fd* f = get((*dirs)[d]);
  if (f->dpos >= f->names.size()) return 0;
  if (faulty(f->path) && fault_locked(FT_DIR_ERR, 0, 0, 0)) { errno = EIO; return 0; }
  struct dirent* e = (struct dirent*)d;
  memset((void*)e, 0, sizeof *e);
  const std::string& n = f->names[f->dpos++];
  snprintf(e->d_name, sizeof e->d_name, "%s", n.c_str());
  e->d_ino = 1;
  std::map<std::string, Inode*>::iterator it = f->in->kids.find(n);
  e->d_type = it == f->in->kids.end() || it->second->dir ? DT_DIR : DT_REG;
  e->d_reclen = sizeof *e;
  return e;
}
struct dirent64* readdir64(DIR* d) { return (struct dirent64*)readdir(d); }
int closedir(DIR* d)
{
  if (!g_active || !dirs->count(d)) return REAL(closedir)(d);
  Guard g;
  int fd = (*dirs)[d];
  dirs->erase(d);
  free(d);
  return fd_close(fd);
}
int dirfd(DIR* d) { if (!g_active || !dirs->count(d)) return REAL(dirfd)(d); return (*dirs)[d]; }
char* realpath(const char* p, char* r)
{
  std::string abs;
  bool o = false;
  if (g_active) { Guard g; o = ours(p, abs); }
  if (!o) return REAL(realpath)(p, r);
  Guard g;
  int e;
  if (!walk(abs, 0, 0, &e)) { errno = e; return 0; }
  std::vector<std::string> v; split(abs, v);
  std::string s;
  for (size_t i = 0; i < v.size(); ++i) s += "/" + v[i];
  if (!r) r = (char*)malloc(PATH_MAX);
  snprintf(r, PATH_MAX, "%s", s.c_str());
  return r;
}
int statfs64(const char*, struct statfs64* s) { memset(s, 0, sizeof *s); return 0; }
int fstatfs64(int, struct statfs64* s) { memset(s, 0, sizeof *s); return 0; }
ssize_t sendfile64(int, int, off64_t*, size_t) { errno = EINVAL; return -1; }
ssize_t getrandom(void* b, size_t n, unsigned fl)
{
  if (!g_active) return syscall(SYS_getrandom, b, n, fl);
  for (size_t i = 0; i < n; ++i) ((unsigned char*)b)[i] = (unsigned char)env_rng().next();
  return (ssize_t)n;
}

// ---------------------------------------------------------------- stdio files
static ssize_t ck_read(void* c, char* b, size_t n) { Guard g; return fd_read((int)(long)c, b, n); }
static ssize_t ck_write(void* c, const char* b, size_t n)
{
  Guard g;
  ssize_t r = fd_write((int)(long)c, b, n);
  return r < 0 ? 0 : r;
}
static int ck_seek(void* c, off64_t* o, int w) { Guard g; off_t r = lseek((int)(long)c, *o, w); if (r < 0) return -1; *o = r; return 0; }
static int ck_close(void* c) { Guard g; return fd_close((int)(long)c); }
FILE* fopen(const char* p, const char* m)
{
  std::string abs;
  bool o = false, handled = false;
  int fl = m[0] == 'r' ? O_RDONLY : m[0] == 'w' ? O_WRONLY | O_CREAT | O_TRUNC : O_WRONLY | O_CREAT | O_APPEND;
  if (strchr(m, '+')) fl = (fl & ~O_ACCMODE) | O_RDWR;
  if (g_active) { Guard g; o = ours(p, abs); }
  if (!o)
  {
    if (g_active && fl != O_RDONLY) { errno = EACCES; return 0; }
    return REAL(fopen)(p, m);
  }
  int fd = sys_open(p, fl, 0666, handled);
  if (fd < 0) return 0;
  Guard g;
  cookie_io_functions_t io = { ck_read, ck_write, ck_seek, ck_close };
  std::string mm = m;
  FILE* f = fopencookie((void*)(long)fd, m, io);
  (*files)[f] = fd;
  return f;
}
FILE* fopen64(const char* p, const char* m) { return fopen(p, m); }
int fclose(FILE* f)
{
  if (g_active)
  {
    if (g_guard == 0) { Guard g; syscall_point("fclose"); }
    Guard g;
    files->erase(f);
    return REAL(fclose)(f);
  }
  return REAL(fclose)(f);
}
int fileno(FILE* f)
{
  if (g_active) { std::map<FILE*, int>::iterator it = files->find(f); if (it != files->end()) return it->second; }
  return REAL(fileno)(f);
}

// ---------------------------------------------------------------- timerfd
int timerfd_create(int clock, int flags)
{
  if (!in_sim()) return REAL(timerfd_create)(clock, flags);
  Guard g;
  syscall_point("timerfd_create", clock);
  if (fault_locked(FT_TIMER_ERR, 0, 0, 0)) { errno = EMFILE; return -1; }
  Fd f; f.k = Fd::TIMER; f.t.clock = clock; f.t.nonblock = flags & TFD_NONBLOCK;
  int fd = fd_next++;
  (*fds)[fd] = f;
  return fd;
}
int timerfd_settime(int fd, int flags, const struct itimerspec* nv, struct itimerspec* ov)
{
  if (!in_sim()) return REAL(timerfd_settime)(fd, flags, nv, ov);
  Guard g;
  struct itimerspec v = *nv;
  syscall_point("timerfd_settime");
  Fd* f = get(fd);
  if (!f || f->k != Fd::TIMER) { errno = EBADF; return -1; }
  if (v.it_value.tv_nsec < 0 || v.it_value.tv_nsec >= 1000000000 || v.it_interval.tv_nsec < 0 || v.it_interval.tv_nsec >= 1000000000
      || v.it_value.tv_sec < 0 || v.it_interval.tv_sec < 0)
  { errno = EINVAL; return -1; }
  ns_t val = v.it_value.tv_sec * SEC + v.it_value.tv_nsec;
  if (ov) { memset(ov, 0, sizeof *ov); }
  f->t.interval = v.it_interval.tv_sec * SEC + v.it_interval.tv_nsec;
  f->t.armed = val != 0;
  f->t.next = (flags & TFD_TIMER_ABSTIME) ? val : timer_now(f->t) + val;
  wake_all(&f->t);
  return 0;
}
int timerfd_gettime(int fd, struct itimerspec* v)
{
  if (!in_sim()) return REAL(timerfd_gettime)(fd, v);
  Guard g;
  Fd* f = get(fd);
  if (!f || f->k != Fd::TIMER) { errno = EBADF; return -1; }
  memset(v, 0, sizeof *v);
  v->it_interval.tv_sec = f->t.interval / SEC; v->it_interval.tv_nsec = f->t.interval % SEC;
  ns_t r = f->t.armed ? std::max<ns_t>(1, f->t.next - timer_now(f->t)) : 0;
  v->it_value.tv_sec = r / SEC; v->it_value.tv_nsec = r % SEC;
  return 0;
}

// ---------------------------------------------------------------- sockets
int socket(int dom, int type, int proto)
{
  if (!in_sim()) return (int)syscall(SYS_socket, dom, type, proto);
  Guard g;
  syscall_point("socket", type);
  if (fault_locked(FT_SOCK_ERR, 0, 0, 0)) { errno = EMFILE; return -1; }
  Fd f; f.k = Fd::SOCK;
  int fd = fd_next++;
  (*fds)[fd] = f;
  return fd;
}
int connect(int fd, const struct sockaddr* sa, socklen_t n)
{
  if (!in_sim() || fd < FD0) return (int)syscall(SYS_connect, fd, sa, n);
  Guard g;
  syscall_point("connect");
  Fd* f = get(fd);
  if (!f || f->k != Fd::SOCK) { errno = EBADF; return -1; }
  if (fault_locked(FT_CONNECT_ERR, 0, 0, 0)) { errno = ENETUNREACH; return -1; }
  const struct sockaddr_in* in = (const struct sockaddr_in*)sa;
  char b[64]; inet_ntop(AF_INET, &in->sin_addr, b, sizeof b);
  f->s.host = b;
  snprintf(b, sizeof b, "%d", ntohs(in->sin_port));
  f->s.port = b;
  f->s.connected = true;
  return 0;
}
ssize_t send(int fd, const void* b, size_t n, int fl) { if (!g_active || fd < FD0) return syscall(SYS_sendto, fd, b, n, fl, 0, 0); return write(fd, b, n); }
ssize_t sendto(int fd, const void* b, size_t n, int fl, const struct sockaddr* sa, socklen_t l)
{
  if (!g_active || fd < FD0) return syscall(SYS_sendto, fd, b, n, fl, sa, l);
  if (sa)
  {
    Guard g;
    Fd* f = get(fd);
    if (f && f->k == Fd::SOCK)
    {
      const struct sockaddr_in* in = (const struct sockaddr_in*)sa;
      char h[64]; inet_ntop(AF_INET, &in->sin_addr, h, sizeof h);
      f->s.host = h; snprintf(h, sizeof h, "%d", ntohs(in->sin_port)); f->s.port = h; f->s.connected = true;
    }
  }
  return write(fd, b, n);
}
ssize_t sendmsg(int fd, const struct msghdr* m, int fl)
{ if (!g_active || fd < FD0) return syscall(SYS_sendmsg, fd, m, fl); return writev(fd, m->msg_iov, (int)m->msg_iovlen); }
int setsockopt(int fd, int a, int b, const void* c, socklen_t d) { if (!g_active || fd < FD0) return (int)syscall(SYS_setsockopt, fd, a, b, c, d); return 0; }
int getaddrinfo(const char* node, const char* service, const struct addrinfo* hints, struct addrinfo** out)
{
  if (!in_sim()) return REAL(getaddrinfo)(node, service, hints, out);
  Guard g;
  std::string h = node ? node : "127.0.0.1", s = service ? service : "0";
  syscall_point("getaddrinfo");
  ++net::dns_calls;
  int64_t which = 0;
  if (fault_locked(FT_DNS_ERR, &which, 0, 2)) { static const int e[] = { EAI_AGAIN, EAI_NONAME, EAI_FAIL }; return e[which]; }
  struct sockaddr_in sa; memset(&sa, 0, sizeof sa);
  sa.sin_family = AF_INET;
  if (inet_pton(AF_INET, h.c_str(), &sa.sin_addr) != 1)
    sa.sin_addr.s_addr = htonl(0x0A000000u | (uint32_t)(hash_str(h.c_str()) & 0xffffff));
  sa.sin_port = htons((uint16_t)atoi(s.c_str()));
  // a host named multi... has three addresses
  *out = 0;
  struct addrinfo** tail = out;
  for (int i = 0; i < (h.compare(0, 5, "multi") == 0 ? 3 : 1); ++i)
  {
    struct addrinfo* a = (struct addrinfo*)calloc(1, sizeof(struct addrinfo) + sizeof sa);
    a->ai_family = AF_INET; a->ai_socktype = hints ? hints->ai_socktype : SOCK_DGRAM; a->ai_protocol = IPPROTO_UDP;
    a->ai_addr = (struct sockaddr*)(a + 1); a->ai_addrlen = sizeof sa;
    memcpy(a->ai_addr, &sa, sizeof sa);
    sa.sin_addr.s_addr = htonl(ntohl(sa.sin_addr.s_addr) + 1);
    *tail = a; tail = &a->ai_next;
  }
  return 0;
}
void freeaddrinfo(struct addrinfo* a)
{
  if (!g_active) { REAL(freeaddrinfo)(a); return; }
  while (a) { struct addrinfo* n = a->ai_next; free(a); a = n; }
}

// ---------------------------------------------------------------- dynamic loader (for calls of the code under test)
void* __real_dlopen(const char*, int);
void* __real_dlsym(void*, const char*);
int __real_dlclose(void*);
char* __real_dlerror(void);
void* __wrap_dlopen(const char* p, int fl)
{
  if (!in_sim()) return __real_dlopen(p, fl);
  Guard g;
  syscall_point("dlopen");
  dl_err->clear();
  std::string path = p ? p : "";
  std::map<std::string, dl::Lib>::iterator it = dl::libs.find(path);
  if (fault_locked(FT_DLOPEN_ERR, 0, 0, 0)) { *dl_err = path + ": cannot allocate memory in static TLS block"; return 0; }
  if (it == dl::libs.end()) { *dl_err = path + ": file is no ELF object"; return 0; }
  if (!it->second.loadable) { *dl_err = path + ": " + it->second.error; return 0; }
  ++it->second.refs; ++it->second.opens;
  return &it->second;
}
void* __wrap_dlsym(void* h, const char* name)
{
  if (!in_sim()) return __real_dlsym(h, name);
  Guard g;
  syscall_point("dlsym");
  dl_err->clear();
  std::map<std::string, void*>* m = 0;
  if (h == RTLD_DEFAULT) m = &dl::global_syms;
  else
  {
    dl::Lib* l = 0;
    for (std::map<std::string, dl::Lib>::iterator it = dl::libs.begin(); it != dl::libs.end(); ++it) if (&it->second == h) l = &it->second;
    if (!l || l->refs <= 0) vfail("dl-misuse", "dlsym on a library handle that is not open");
    m = &l->syms;
  }
  if (fault_locked(FT_DLSYM_ERR, 0, 0, 0) || !m->count(name)) { *dl_err = std::string("undefined symbol: ") + name; return 0; }
  return (*m)[name];
}
int __wrap_dlclose(void* h)
{
  if (!in_sim()) return __real_dlclose(h);
  Guard g;
  syscall_point("dlclose");
  dl_err->clear();
  for (std::map<std::string, dl::Lib>::iterator it = dl::libs.begin(); it != dl::libs.end(); ++it)
    if (&it->second == h)
    {
      if (it->second.refs <= 0) vfail("dl-misuse", "dlclose of a library handle that is not open");
      --it->second.refs; ++it->second.closes;
      return 0;
    }
  vfail("dl-misuse", "dlclose of something that is no library handle");
}
char* __wrap_dlerror(void)
{
  if (!in_sim()) return __real_dlerror();
  Guard g;
  static char b[300];
  if (dl_err->empty()) return 0;
  snprintf(b, sizeof b, "%s", dl_err->c_str());
  dl_err->clear();
  return b;
}
}
