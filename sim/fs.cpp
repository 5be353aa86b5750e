// simulated file system: POSIX semantics, process crashes at any call, disk errors, short transfers, full disk
#include "fd.h"

#include <dirent.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/file.h>
#include <sys/ioctl.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <unistd.h>

namespace sim {
FsCfg fs;
struct Inode;
struct Lk {
  const void* owner;  // Node (POSIX) or OpenFile (flock / OFD)
  int kind;           // 0 POSIX/OFD, 1 flock
  bool excl;
  i64 from, to;
};
struct Inode {
  u64 ino = 0;
  bool dir = false;
  std::string data;
  std::map<std::string, std::shared_ptr<Inode>> ch;
  std::vector<Lk> locks;
  int nlink = 1;
  u64 mtime = 0;
};
struct OpenFile {
  std::shared_ptr<Inode> ino;
  i64 pos = 0;
  bool rd = false, wr = false, app = false;
  int refs = 1;
  std::string path;
};
static std::shared_ptr<Inode>* root;
static u64 inoSeq, tmpSeq;
static uintptr_t mapNext;
struct Mapping { size_t len, valid; };  // valid: bytes backed by the file
static std::map<void*, Mapping>* maps;

void checkMapped(const void* p, size_t n, const char* what) {
  if (!rtActive || !maps) return;
  RtGuard g;
  auto it = maps->upper_bound((void*)p);
  if (it == maps->begin()) return;
  --it;
  char* b = (char*)it->first;
  if ((char*)p < b + it->second.len && (char*)p + n > b + it->second.valid)
    violation("access-outside-file", "%s of %zu bytes at offset %ld of a mapped file of %zu bytes", what, n, (long)((char*)p - b), it->second.valid);
}
void fsInit() {
  root = new std::shared_ptr<Inode>(std::make_shared<Inode>());
  (*root)->dir = true;
  (*root)->ino = 2;
  inoSeq = 10;
  tmpSeq = 0;
  mapNext = 0x300000000000ull;
  maps = new std::map<void*, Mapping>;
  (*root)->ch["tmp"] = std::make_shared<Inode>();
  (*root)->ch["tmp"]->dir = true;
}
static std::map<int, int> fsFaultCount;
int fsFaultsSeen(int thread) {
  RtGuard g;
  return fsFaultCount[thread];
}
static int fail(int e) {
  errno = e;
  return -1;
}
// resolve: parent directory and last component; node may be null
struct Res {
  std::shared_ptr<Inode> dir, ino;
  std::string name;
  int err = 0;
  bool trailing = false;
};
static Res resolve(const char* p) {
  Res r;
  if (!p || !*p) {
    r.err = ENOENT;
    return r;
  }
  std::vector<std::string> comp;
  std::string s(p);
  r.trailing = s.back() == '/';
  size_t i = 0;
  while (i < s.size()) {
    size_t j = s.find('/', i);
    if (j == std::string::npos) j = s.size();
    if (j > i) comp.push_back(s.substr(i, j - i));
    i = j + 1;
  }
  std::vector<std::shared_ptr<Inode>> st{*root};
  for (size_t k = 0; k < comp.size(); k++) {
    bool last = k + 1 == comp.size();
    auto d = st.back();
    if (!d->dir) {
      r.err = ENOTDIR;
      return r;
    }
    if (comp[k] == ".") {
      if (last) break;
      continue;
    }
    if (comp[k] == "..") {
      if (st.size() > 1) st.pop_back();
      continue;
    }
    if (comp[k].size() > 255) {
      r.err = ENAMETOOLONG;
      return r;
    }
    auto it = d->ch.find(comp[k]);
    if (last) {
      r.dir = d;
      r.name = comp[k];
      if (it != d->ch.end()) r.ino = it->second;
      if (r.trailing && r.ino && !r.ino->dir) r.err = ENOTDIR;
      return r;
    }
    if (it == d->ch.end()) {
      r.err = ENOENT;
      return r;
    }
    st.push_back(it->second);
  }
  r.ino = st.back();
  r.dir = nullptr;
  return r;
}
static void space(i64 d) {
  if (fs.diskFree != ~0ull) fs.diskFree = (u64)std::max<i64>(0, (i64)fs.diskFree + d);
}
static void setSize(Inode* i, size_t n) {
  space((i64)i->data.size() - (i64)n);
  i->data.resize(n);
}

// every simulated file-system call passes here: crash points and injected failures
struct Call {
  const char* nm;
  Node* n;
  i64 idx;
  int err = 0;
  i64 partial = -1;
  bool crashAfter = false;
  Call(const char* name, const std::string& arg, bool canFail = true, bool canShort = false) : nm(name), n(cur->node) {
    int d = rtDepth;
    rtDepth = 0;
    schedPoint(2 * US);
    rtDepth = d;
    RtGuard g;
    idx = ++n->fsCount;
    note("fs#%lld %s %s", (long long)idx, name, arg.c_str());
    if (n->crashCall == idx) {
      if (n->crashBefore) {
        n->crashCall = -1;
        fault("crash-before-fs-call");
        kill(n);
        dieIfDead();
      }
      crashAfter = true;
    }
    for (auto& f : n->fails)
      if (f.call == idx) {
        if (f.err == 0) {
          if (canShort) partial = f.partial, fault("fs-short");
        } else if (canFail) {
          err = f.err;
          std::string nm2 = std::string("fs-") + strerrorname_np(err);
          fault(nm2.c_str());
        }
      }
    if (!err && canFail && fs.pErr && flip(K_DISK, fs.pErr)) {
      err = EIO;
      fault("fs-EIO");
    }
    if (err) fsFaultCount[curThreadId()]++;
    if (!err && canShort && partial < 0 && fs.pShort && flip(K_DISK, fs.pShort)) {
      partial = 1 + (i64)choose(K_DISK, 64, 900);
      fault("fs-short");
    }
  }
  ~Call() {
    if (!crashAfter) return;
    RtGuard g;
    int e = errno;
    n->crashCall = -1;
    fault("crash-after-fs-call");
    kill(n);
    dieIfDead();
    errno = e;
  }
};

static void dropLocks(Inode* i, const void* owner, int kind) {
  size_t b = i->locks.size();
  i->locks.erase(std::remove_if(i->locks.begin(), i->locks.end(), [&](const Lk& l) { return l.owner == owner && l.kind == kind; }),
                 i->locks.end());
  if (i->locks.size() != b) wakeAll(i);
}
static int lockSet(Inode* ip, const std::shared_ptr<Inode>& keep, Lk want, bool un, bool wait) {
  (void)keep;
  RtGuard g;
  bool e0 = false;
  for (;;) {
    bool conflict = false;
    if (!un)
      for (auto& l : ip->locks)
        if (l.kind == want.kind && l.owner != want.owner && (l.excl || want.excl) && l.from < want.to && want.from < l.to) conflict = true;
    if (!conflict) break;
    if (!wait) return fail(want.kind == 1 ? EWOULDBLOCK : EAGAIN);
    if (!e0 && fs.pEintrLock && flip(K_EINTR, fs.pEintrLock)) {
      fault("lock-eintr");
      return fail(EINTR);
    }
    e0 = true;
    probe("lock-contended");
    block(ip, "file-lock", ~0ull, false);
  }
  // replace the overlapping part of the owner's locks
  std::vector<Lk> out;
  for (auto& l : ip->locks) {
    if (l.kind != want.kind || l.owner != want.owner || l.from >= want.to || want.from >= l.to) {
      out.push_back(l);
      continue;
    }
    if (l.from < want.from) out.push_back({l.owner, l.kind, l.excl, l.from, want.from});
    if (l.to > want.to) out.push_back({l.owner, l.kind, l.excl, want.to, l.to});
  }
  if (!un) out.push_back(want);
  ip->locks = out;
  wakeAll(ip);
  return 0;
}
static void closeFile(Node* n, const std::shared_ptr<OpenFile>& f) {
  dropLocks(f->ino.get(), n, 0);  // POSIX: closing any descriptor of the file drops the process's locks
  if (--f->refs == 0) {
    dropLocks(f->ino.get(), f.get(), 0);
    dropLocks(f->ino.get(), f.get(), 1);
  }
}
int fileClose(Node* n, FdEnt& e) {
  auto f = std::move(e.file);
  Call c("close", f->path, true, false);
  closeFile(n, f);
  if (c.err) return fail(c.err);
  return 0;
}
void fsKill(Node* n) {
  for (auto& kv : n->fds)
    if (kv.second.file) closeFile(n, kv.second.file);
}
static int openFile(const char* path, int flags) {
  Call c("open", std::string(path ? path : "(null)") + " " + std::to_string(flags));
  RtGuard g;
  if (c.err) return fail(c.err);
  Res r = resolve(path);
  if (r.err) return fail(r.err);
  int acc = flags & O_ACCMODE;
  if (!r.ino) {
    if (!(flags & O_CREAT)) return fail(ENOENT);
    if (r.trailing) return fail(EISDIR);
    if (fs.diskFree == 0) {
      fault("fs-ENOSPC"), fsFaultCount[curThreadId()]++;
      return fail(ENOSPC);
    }
    r.ino = std::make_shared<Inode>();
    r.ino->ino = ++inoSeq;
    r.dir->ch[r.name] = r.ino;
    wakeAll(root);
  } else {
    if ((flags & O_CREAT) && (flags & O_EXCL)) return fail(EEXIST);
    if (r.ino->dir && acc != O_RDONLY) return fail(EISDIR);
    if ((flags & O_DIRECTORY) && !r.ino->dir) return fail(ENOTDIR);
    if (!r.ino->dir && (flags & O_TRUNC) && acc != O_RDONLY) setSize(r.ino.get(), 0);
  }
  int fd = allocFd(cur->node);
  if (fd < 0) return fail(EMFILE);
  auto f = std::make_shared<OpenFile>();
  f->ino = r.ino;
  f->rd = acc != O_WRONLY;
  f->wr = acc != O_RDONLY;
  f->app = flags & O_APPEND;
  f->path = path;
  cur->node->fds[fd].file = f;
  return fd;
}
static std::shared_ptr<OpenFile> fileOf(int fd) {
  auto it = cur->node->fds.find(fd);
  if (it == cur->node->fds.end() || !it->second.file) {
    errno = EBADF;
    return nullptr;
  }
  return it->second.file;
}
static ssize_t rdAt(std::shared_ptr<OpenFile> f, void* b, size_t n, i64* pos) {
  checkAccess(b, n, true, "read buffer");
  Call c("read", f->path + " " + std::to_string(n), true, true);
  RtGuard g;
  if (c.err) return fail(c.err);
  if (!f->rd) return fail(EBADF);
  if (f->ino->dir) return fail(EISDIR);
  auto& d = f->ino->data;
  if (*pos >= (i64)d.size()) return 0;
  size_t k = std::min(n, d.size() - (size_t)*pos);
  if (c.partial >= 0 && k > 1) k = std::min<size_t>(k, std::max<i64>(1, c.partial));
  memcpy(b, d.data() + *pos, k);
  *pos += k;
  return k;
}
static ssize_t wrAt(std::shared_ptr<OpenFile> f, const void* b, size_t n, i64* pos) {
  checkAccess(b, n, false, "write buffer");
  Call c("write", f->path + " " + std::to_string(n), true, true);
  RtGuard g;
  if (c.err) return fail(c.err);
  if (!f->wr) return fail(EBADF);
  auto& d = f->ino->data;
  if (f->app) *pos = d.size();
  size_t k = n;
  if (c.partial >= 0 && k > 1) k = std::min<size_t>(k, std::max<i64>(1, c.partial));
  i64 grow = *pos + (i64)k - (i64)d.size();
  if (grow > 0 && fs.diskFree != ~0ull && (u64)grow > fs.diskFree) {
    i64 ok = (i64)k - (grow - (i64)fs.diskFree);
    if (ok <= 0) {
      fault("fs-ENOSPC"), fsFaultCount[curThreadId()]++;
      return fail(ENOSPC);
    }
    fault("fs-short-ENOSPC");
    k = ok;
    grow = *pos + (i64)k - (i64)d.size();
  }
  if (grow > 0) {
    space(-grow);
    d.resize(*pos + k);
  }
  memcpy(&d[*pos], b, k);
  *pos += k;
  return k;
}
ssize_t fileRead(std::shared_ptr<OpenFile> f, void* b, size_t n) { return rdAt(f, b, n, &f->pos); }
ssize_t fileWrite(std::shared_ptr<OpenFile> f, const void* b, size_t n) { return wrAt(f, b, n, &f->pos); }

void crashAtFsCall(Node* n, i64 k, bool before) {
  n->crashCall = n->fsCount + k;
  n->crashBefore = before;
}
void failFsCall(Node* n, i64 k, int err, i64 partial) {
  RtGuard g;
  n->fails.push_back({n->fsCount + k, err, partial});
}
i64 fsCalls(Node* n) { return n->fsCount; }
bool fsExists(const std::string& p) {
  RtGuard g;
  Res r = resolve(p.c_str());
  return !r.err && r.ino;
}
bool fsRead(const std::string& p, std::string& out) {
  RtGuard g;
  Res r = resolve(p.c_str());
  if (r.err || !r.ino || r.ino->dir) return false;
  out = r.ino->data;
  return true;
}
void fsWrite(const std::string& p, const std::string& d) {
  RtGuard g;
  Res r = resolve(p.c_str());
  if (r.err) harnessError("fsWrite %s", p.c_str());
  if (!r.ino) {
    r.ino = std::make_shared<Inode>();
    r.ino->ino = ++inoSeq;
    r.dir->ch[r.name] = r.ino;
  }
  r.ino->data = d;
}
void fsRemove(const std::string& p) {
  RtGuard g;
  Res r = resolve(p.c_str());
  if (!r.err && r.ino && r.dir) r.dir->ch.erase(r.name);
}
void fsMkdir(const std::string& p) {
  RtGuard g;
  Res r = resolve(p.c_str());
  if (r.err || r.ino) return;
  auto i = std::make_shared<Inode>();
  i->dir = true;
  i->ino = ++inoSeq;
  r.dir->ch[r.name] = i;
}
std::vector<std::string> fsList(const std::string& p) {
  RtGuard g;
  std::vector<std::string> v;
  Res r = resolve(p.c_str());
  if (!r.err && r.ino)
    for (auto& kv : r.ino->ch) v.push_back(kv.first);
  return v;
}
static void fillStat(struct stat* st, Inode* i) {
  memset(st, 0, sizeof *st);
  st->st_dev = 8;
  st->st_ino = i->ino;
  st->st_mode = i->dir ? (S_IFDIR | 0755) : (S_IFREG | 0644);
  st->st_nlink = 1;
  st->st_size = i->data.size();
  st->st_blksize = 4096;
  st->st_blocks = (i->data.size() + 511) / 512;
}
struct SimDir {
  u64 magic = 0x51d151d1;
  std::shared_ptr<Inode> ino;
  int fd = -1;
  bool loaded = false;
  std::vector<std::pair<std::string, std::shared_ptr<Inode>>> ents;
  size_t pos = 0;
  struct dirent de;
};
struct Cookie {
  int fd;
  Node* n;
};
static std::map<FILE*, int>* files() {
  static std::map<FILE*, int>* m = new std::map<FILE*, int>;
  return m;
}
}  // namespace sim
using namespace sim;

extern "C" {
int __wrap_close(int fd);
ssize_t __wrap_read(int, void*, size_t);
ssize_t __wrap_write(int, const void*, size_t);
int __real_open(const char*, int, ...);
int __real_fcntl(int, int, ...);
int __real_fstat(int, struct stat*);
off_t __real_lseek(int, off_t, int);
FILE* __real_fopen(const char*, const char*);
int __real_fclose(FILE*);
int __real_fileno(FILE*);
void* __real_mmap(void*, size_t, int, int, int, off_t);
int __real_munmap(void*, size_t);
pid_t __real_getpid();

int __wrap_open(const char* p, int fl, ...) {
  if (!simCall()) {
    va_list ap;
    va_start(ap, fl);
    int m = va_arg(ap, int);
    va_end(ap);
    return __real_open(p, fl, m);
  }
  return openFile(p, fl);
}
int __wrap_open64(const char* p, int fl, ...) {
  va_list ap;
  va_start(ap, fl);
  int m = va_arg(ap, int);
  va_end(ap);
  return __wrap_open(p, fl, m);
}
int __wrap_openat(int, const char* p, int fl, ...) { return openFile(p, fl); }
int __wrap_openat64(int, const char* p, int fl, ...) { return openFile(p, fl); }
int __wrap_creat(const char* p, mode_t) { return openFile(p, O_CREAT | O_WRONLY | O_TRUNC); }
static int doStat(const char* p, struct stat* st, const char* nm) {
  Call c(nm, p ? p : "(null)");
  RtGuard g;
  if (c.err) return fail(c.err);
  Res r = resolve(p);
  if (r.err) return fail(r.err);
  if (!r.ino) return fail(ENOENT);
  fillStat(st, r.ino.get());
  return 0;
}
int __wrap_stat(const char* p, struct stat* st) { return doStat(p, st, "stat"); }
int __wrap_stat64(const char* p, struct stat* st) { return doStat(p, st, "stat"); }
int __wrap_lstat(const char* p, struct stat* st) { return doStat(p, st, "lstat"); }
int __wrap_lstat64(const char* p, struct stat* st) { return doStat(p, st, "lstat"); }
int __wrap_fstatat(int, const char* p, struct stat* st, int) { return doStat(p, st, "fstatat"); }
int __wrap_fstat(int fd, struct stat* st) {
  if (!simCall()) return __real_fstat(fd, st);
  auto f = fileOf(fd);
  if (!f) return -1;
  Call c("fstat", f->path);
  RtGuard g;
  if (c.err) return fail(c.err);
  fillStat(st, f->ino.get());
  return 0;
}
int __wrap_fstat64(int fd, struct stat* st) { return __wrap_fstat(fd, st); }
int __wrap_access(const char* p, int) {
  Call c("access", p);
  RtGuard g;
  if (c.err) return fail(c.err);
  Res r = resolve(p);
  if (r.err) return fail(r.err);
  if (!r.ino) return fail(ENOENT);
  return 0;
}
int __wrap_faccessat(int, const char* p, int m, int) { return __wrap_access(p, m); }
int __wrap_unlink(const char* p) {
  Call c("unlink", p);
  RtGuard g;
  if (c.err) return fail(c.err);
  Res r = resolve(p);
  if (r.err) return fail(r.err);
  if (!r.ino || !r.dir) return fail(ENOENT);
  if (r.ino->dir) return fail(EISDIR);
  r.dir->ch.erase(r.name);
  r.ino->nlink--;
  space(r.ino->data.size());
  return 0;
}
int __wrap_rmdir(const char* p) {
  Call c("rmdir", p);
  RtGuard g;
  if (c.err) return fail(c.err);
  Res r = resolve(p);
  if (r.err) return fail(r.err);
  if (!r.ino || !r.dir) return fail(ENOENT);
  if (!r.ino->dir) return fail(ENOTDIR);
  if (!r.ino->ch.empty()) return fail(ENOTEMPTY);
  r.dir->ch.erase(r.name);
  return 0;
}
int __wrap_remove(const char* p) {
  bool isdir = false;
  {
    RtGuard g;
    Res r = resolve(p);
    isdir = !r.err && r.ino && r.ino->dir;
  }
  return isdir ? __wrap_rmdir(p) : __wrap_unlink(p);
}
int __wrap_rename(const char* a, const char* b) {
  Call c("rename", std::string(a) + " " + b);
  RtGuard g;
  if (c.err) return fail(c.err);
  Res r = resolve(a), t = resolve(b);
  if (r.err) return fail(r.err);
  if (!r.ino || !r.dir) return fail(ENOENT);
  if (t.err) return fail(t.err);
  if (!t.dir) return fail(EBUSY);
  if (t.ino == r.ino) return 0;
  if (t.ino) {
    if (t.ino->dir && !r.ino->dir) return fail(EISDIR);
    if (!t.ino->dir && r.ino->dir) return fail(ENOTDIR);
    if (t.ino->dir && !t.ino->ch.empty()) return fail(ENOTEMPTY);
    t.ino->nlink--;
    space(t.ino->data.size());
  }
  r.dir->ch.erase(r.name);
  t.dir->ch[t.name] = r.ino;
  return 0;
}
int __wrap_link(const char* a, const char* b) {
  Call c("link", std::string(a) + " " + b);
  RtGuard g;
  if (c.err) return fail(c.err);
  Res r = resolve(a), t = resolve(b);
  if (r.err) return fail(r.err);
  if (!r.ino) return fail(ENOENT);
  if (t.err) return fail(t.err);
  if (t.ino || !t.dir) return fail(EEXIST);
  r.ino->nlink++;
  t.dir->ch[t.name] = r.ino;
  return 0;
}
int __wrap_mkdir(const char* p, mode_t) {
  Call c("mkdir", p);
  RtGuard g;
  if (c.err) return fail(c.err);
  Res r = resolve(p);
  if (r.err) return fail(r.err);
  if (r.ino) return fail(EEXIST);
  auto i = std::make_shared<Inode>();
  i->dir = true;
  i->ino = ++inoSeq;
  r.dir->ch[r.name] = i;
  return 0;
}
static int tmpName(char* t, int suf) {
  size_t n = strlen(t);
  if (n < (size_t)(6 + suf)) return -1;
  char* x = t + n - suf - 6;
  u64 v = Rng::mix(++tmpSeq ^ detRand(77));
  for (int i = 0; i < 6; i++, v /= 36) x[i] = "abcdefghijklmnopqrstuvwxyz0123456789"[v % 36];
  return 0;
}
int __wrap_mkstemps(char* t, int suf) {
  if (tmpName(t, suf)) return fail(EINVAL);
  return openFile(t, O_CREAT | O_EXCL | O_RDWR);
}
int __wrap_mkstemp(char* t) { return __wrap_mkstemps(t, 0); }
int __wrap_mkostemp(char* t, int) { return __wrap_mkstemps(t, 0); }
int __wrap_fsync(int fd) {
  auto f = fileOf(fd);
  if (!f) return -1;
  Call c("fsync", f->path);
  if (c.err) return fail(c.err);
  return 0;
}
int __wrap_fdatasync(int fd) { return __wrap_fsync(fd); }
int __wrap_ftruncate(int fd, off_t n) {
  auto f = fileOf(fd);
  if (!f) return -1;
  Call c("ftruncate", f->path + " " + std::to_string(n));
  RtGuard g;
  if (c.err) return fail(c.err);
  if (!f->wr) return fail(EINVAL);
  setSize(f->ino.get(), n);
  return 0;
}
int __wrap_truncate(const char* p, off_t n) {
  Call c("truncate", p);
  RtGuard g;
  if (c.err) return fail(c.err);
  Res r = resolve(p);
  if (r.err) return fail(r.err);
  if (!r.ino) return fail(ENOENT);
  setSize(r.ino.get(), n);
  return 0;
}
off_t __wrap_lseek(int fd, off_t o, int wh) {
  if (!simCall()) return __real_lseek(fd, o, wh);
  auto f = fileOf(fd);
  if (!f) return -1;
  i64 b = wh == SEEK_SET ? 0 : wh == SEEK_CUR ? f->pos : (i64)f->ino->data.size();
  if (b + o < 0) return fail(EINVAL);
  return f->pos = b + o;
}
off_t __wrap_lseek64(int fd, off_t o, int wh) { return __wrap_lseek(fd, o, wh); }
ssize_t __wrap_pread(int fd, void* b, size_t n, off_t o) {
  auto f = fileOf(fd);
  if (!f) return -1;
  i64 p = o;
  return rdAt(f, b, n, &p);
}
ssize_t __wrap_pwrite(int fd, const void* b, size_t n, off_t o) {
  auto f = fileOf(fd);
  if (!f) return -1;
  i64 p = o;
  return wrAt(f, b, n, &p);
}
int __wrap_fcntl(int fd, int cmd, ...) {
  va_list ap;
  va_start(ap, cmd);
  void* arg = va_arg(ap, void*);
  va_end(ap);
  if (!simCall()) return __real_fcntl(fd, cmd, arg);
  auto it = cur->node->fds.find(fd);
  if (it == cur->node->fds.end()) return fail(EBADF);
  if (it->second.sock) {
    if (cmd == F_GETFL) return O_RDWR | (it->second.sock->nonblock ? O_NONBLOCK : 0);
    if (cmd == F_SETFL) it->second.sock->nonblock = ((long)arg & O_NONBLOCK) != 0;
    return 0;
  }
  auto f = it->second.file;
  switch (cmd) {
    case F_GETFL: return f->wr ? (f->rd ? O_RDWR : O_WRONLY) : O_RDONLY;
    case F_SETLK: case F_SETLKW: case F_OFD_SETLK: case F_OFD_SETLKW: {
      bool ofd = cmd == F_OFD_SETLK || cmd == F_OFD_SETLKW;
      auto* fl = (struct flock*)arg;
      Call c(fl->l_type == F_UNLCK ? "unlock" : "lock", f->path, fl->l_type != F_UNLCK);
      if (c.err) return fail(c.err == EIO ? ENOLCK : c.err);
      i64 base = fl->l_whence == SEEK_SET ? 0 : fl->l_whence == SEEK_CUR ? f->pos : (i64)f->ino->data.size();
      Lk l{ofd ? (const void*)f.get() : (const void*)cur->node, 0, fl->l_type == F_WRLCK, base + fl->l_start,
           fl->l_len ? base + fl->l_start + fl->l_len : INT64_MAX};
      if (fl->l_type == F_WRLCK && !f->wr) return fail(EBADF);
      return lockSet(f->ino.get(), f->ino, l, fl->l_type == F_UNLCK, cmd == F_SETLKW || cmd == F_OFD_SETLKW);
    }
    case F_GETLK: ((struct flock*)arg)->l_type = F_UNLCK; return 0;
    default: return 0;
  }
}
int __wrap_fcntl64(int fd, int cmd, ...) {
  va_list ap;
  va_start(ap, cmd);
  void* arg = va_arg(ap, void*);
  va_end(ap);
  return __wrap_fcntl(fd, cmd, arg);
}
int __wrap_flock(int fd, int op) {
  auto f = fileOf(fd);
  if (!f) return -1;
  bool un = (op & ~LOCK_NB) == LOCK_UN;
  Call c(un ? "funlock" : "flock", f->path, !un);
  if (c.err) return fail(c.err == EIO ? ENOLCK : c.err);
  Lk l{f.get(), 1, (op & ~LOCK_NB) == LOCK_EX, 0, INT64_MAX};
  return lockSet(f->ino.get(), f->ino, l, un, !(op & LOCK_NB));
}
int __wrap_lockf(int fd, int cmd, off_t len) {
  struct flock fl {};
  fl.l_type = cmd == F_ULOCK ? F_UNLCK : F_WRLCK;
  fl.l_whence = SEEK_CUR;
  fl.l_len = len;
  return __wrap_fcntl(fd, cmd == F_LOCK ? F_SETLKW : F_SETLK, &fl);
}
int __wrap_ioctl(int fd, unsigned long rq, void* arg) {
  if (rq == FIONREAD) {
    auto f = fileOf(fd);
    if (f) {
      *(int*)arg = (int)std::max<i64>(0, (i64)f->ino->data.size() - f->pos);
      return 0;
    }
  }
  return fail(ENOTTY);
}
// ---- directories
DIR* __wrap_fdopendir(int fd) {
  auto f = fileOf(fd);
  if (!f) return nullptr;
  if (!f->ino->dir) {
    errno = ENOTDIR;
    return nullptr;
  }
  RtGuard g;
  auto* d = new SimDir;
  d->ino = f->ino;
  d->fd = fd;
  return (DIR*)d;
}
DIR* __wrap_opendir(const char* p) {
  int fd = openFile(p, O_RDONLY | O_DIRECTORY);
  if (fd < 0) return nullptr;
  return __wrap_fdopendir(fd);
}
struct dirent* __wrap_readdir(DIR* dp) {
  auto* d = (SimDir*)dp;
  if (!d->loaded) {
    Call c("getdents", "");
    RtGuard g;
    if (c.err) {
      errno = c.err;
      return nullptr;
    }
    d->loaded = true;
    d->ents.push_back({".", d->ino});
    d->ents.push_back({"..", d->ino});
    for (auto& kv : d->ino->ch) d->ents.push_back(kv);
    std::sort(d->ents.begin(), d->ents.end(), [](const auto& a, const auto& b) {
      u64 x = detRand(std::hash<std::string>()(a.first)), y = detRand(std::hash<std::string>()(b.first));
      return x != y ? x < y : a.first < b.first;
    });
  }
  if (d->pos >= d->ents.size()) return nullptr;
  auto& e = d->ents[d->pos++];
  memset(&d->de, 0, sizeof d->de);
  d->de.d_ino = e.second->ino;
  d->de.d_type = e.second->dir ? DT_DIR : DT_REG;
  snprintf(d->de.d_name, sizeof d->de.d_name, "%s", e.first.c_str());
  return &d->de;
}
struct dirent* __wrap_readdir64(DIR* dp) { return __wrap_readdir(dp); }
int __wrap_closedir(DIR* dp) {
  auto* d = (SimDir*)dp;
  int fd = d->fd;
  {
    RtGuard g;
    delete d;
  }
  return __wrap_close(fd);
}
int __wrap_dirfd(DIR* dp) { return ((SimDir*)dp)->fd; }
// ---- stdio
static ssize_t ckRead(void* c, char* b, size_t n) { return __wrap_read(((Cookie*)c)->fd, b, n); }
static ssize_t ckWrite(void* c, const char* b, size_t n) {
  size_t done = 0;  // as glibc does for a file: on until an error
  while (done < n) {
    ssize_t r = __wrap_write(((Cookie*)c)->fd, b + done, n - done);
    if (r <= 0) break;
    done += r;
  }
  return done;
}
static int ckSeek(void* c, off64_t* o, int wh) {
  off_t r = __wrap_lseek(((Cookie*)c)->fd, *o, wh);
  if (r < 0) return -1;
  *o = r;
  return 0;
}
static int ckClose(void* c) {
  int fd = ((Cookie*)c)->fd;
  int r = __wrap_close(fd);
  free(c);
  return r;
}
static FILE* wrapFd(int fd, const char* mode) {
  Cookie* c;
  {
    RtGuard g;
    c = (Cookie*)malloc(sizeof(Cookie));
  }
  *c = {fd, cur->node};
  FILE* f = fopencookie(c, mode, cookie_io_functions_t{ckRead, ckWrite, ckSeek, ckClose});
  RtGuard g;
  if (f) (*files())[f] = fd;
  return f;
}
FILE* __wrap_fopen(const char* p, const char* mode) {
  if (!simCall()) return __real_fopen(p, mode);
  int fl = 0;
  bool plus = strchr(mode, '+') != nullptr;
  switch (mode[0]) {
    case 'r': fl = plus ? O_RDWR : O_RDONLY; break;
    case 'w': fl = (plus ? O_RDWR : O_WRONLY) | O_CREAT | O_TRUNC; break;
    case 'a': fl = (plus ? O_RDWR : O_WRONLY) | O_CREAT | O_APPEND; break;
  }
  if (strchr(mode, 'x')) fl |= O_EXCL;
  int fd = openFile(p, fl);
  if (fd < 0) return nullptr;
  return wrapFd(fd, mode);
}
FILE* __wrap_fopen64(const char* p, const char* mode) { return __wrap_fopen(p, mode); }
FILE* __wrap_fdopen(int fd, const char* mode) { return wrapFd(fd, mode); }
int __wrap_fileno(FILE* f) {
  if (!simCall()) return __real_fileno(f);
  auto it = files()->find(f);
  if (it == files()->end()) return __real_fileno(f);
  return it->second;
}
int __wrap_fclose(FILE* f) {
  if (simCall()) {
    RtGuard g;
    files()->erase(f);
  }
  return __real_fclose(f);
}
// ---- mappings: real memory, content of the file at the time of the call, guard page behind the last page
void* __wrap_mmap(void* a, size_t n, int prot, int flags, int fd, off_t off) {
  if (!simCall()) return __real_mmap(a, n, prot, flags, fd, off);
  if (flags & MAP_ANONYMOUS) {
    uintptr_t at = mapNext;
    mapNext += ((n + 4095) & ~4095ull) + 65536;
    return __real_mmap((void*)at, n, prot, flags | MAP_FIXED, -1, 0);
  }
  auto f = fileOf(fd);
  if (!f) return MAP_FAILED;
  Call c("mmap", f->path + " " + std::to_string(n));
  RtGuard g;
  if (c.err) {
    errno = c.err == EIO ? ENOMEM : c.err;
    return MAP_FAILED;
  }
  if (n == 0) {
    errno = EINVAL;
    return MAP_FAILED;
  }
  size_t full = (n + 4095) & ~4095ull;
  uintptr_t at = mapNext;
  mapNext += full + 65536;
  void* p = __real_mmap((void*)at, full, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED, -1, 0);
  size_t have = (i64)f->ino->data.size() > off ? std::min(full, f->ino->data.size() - off) : 0;
  memcpy(p, f->ino->data.data() + off, have);
  mprotect(p, full, prot);
  size_t backed = (have + 4095) & ~4095ull;
  if (backed < full) mprotect((char*)p + backed, full - backed, PROT_NONE);  // SIGBUS area
  (*maps)[p] = {full, have};
  return p;
}
void* __wrap_mmap64(void* a, size_t n, int prot, int flags, int fd, off_t off) { return __wrap_mmap(a, n, prot, flags, fd, off); }
int __wrap_munmap(void* p, size_t n) {
  if (!simCall()) return __real_munmap(p, n);
  schedPoint(US);
  RtGuard g;
  maps->erase(p);
  if (n == 0) return fail(EINVAL);
  // stays reserved so that later accesses fault
  return __real_mmap(p, (n + 4095) & ~4095ull, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED | MAP_NORESERVE, -1, 0) == p ? 0 : -1;
}
int __wrap_madvise(void*, size_t, int) { return 0; }
int __wrap_msync(void*, size_t, int) { return 0; }
int __wrap_chmod(const char*, mode_t) { return 0; }
int __wrap_fchmod(int, mode_t) { return 0; }
pid_t __real_getpid();
pid_t __wrap_getpid() {
  if (!rtActive || !cur) return __real_getpid();
  return 1000 + cur->node->id;
}
}
