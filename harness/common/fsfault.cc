#include "common/fsfault.h"

#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <sys/wait.h>
#include <unistd.h>

namespace mcfs {
bool g_reads = false;
namespace {
Mode g_mode = Mode::kOff;
int g_at = -1, g_variant = 0, g_count = 0;
bool g_fired = false, g_busy = false;
char g_root[512];
size_t g_root_len = 0;
bool g_fd[4096];
std::vector<std::string>* g_log = nullptr;

bool Under(const char* p) {
  return g_mode != Mode::kOff && !g_busy && p && strncmp(p, g_root, g_root_len) == 0;
}
bool UnderFd(int fd) { return g_mode != Mode::kOff && !g_busy && fd >= 0 && fd < 4096 && g_fd[fd]; }
// Returns: 0 do it, 1 fail, 2 half then fail, 3 half then die; dies itself when
// told to die before.
int Event(const char* what, const char* path) {
  int n = g_count++;
  if (g_log) {
    g_busy = true;
    g_log->push_back(std::string(what) + " " + (path ? path : ""));
    g_busy = false;
  }
  bool hit = n == g_at;
  if (g_mode == Mode::kFault) {
    if (hit || (g_variant == 2 && g_at >= 0 && n >= g_at)) {
      g_fired = true;
      return g_variant == 1 ? 2 : g_variant == 3 ? 5 : 1;
    }
    return 0;
  }
  if (g_mode == Mode::kCrash && hit) {
    g_fired = true;
    if (g_variant == 0) _exit(kCrashExit);
    if (g_variant == 2) return 3;
    return 4;  // die afterwards
  }
  return 0;
}
void After(int e) {
  if (e == 4 || e == 3) _exit(kCrashExit);
}
template <typename F>
F Next(const char* name) {
  return reinterpret_cast<F>(dlsym(RTLD_NEXT, name));
}
}  // namespace

void Start(const std::string& root, Mode mode, int at, int variant) {
  snprintf(g_root, sizeof(g_root), "%s", root.c_str());
  g_root_len = strlen(g_root);
  memset(g_fd, 0, sizeof(g_fd));
  g_at = at;
  g_variant = variant;
  g_count = 0;
  g_fired = false;
  delete g_log;
  g_log = new std::vector<std::string>();
  g_mode = mode;
}
void Stop() { g_mode = Mode::kOff; }
int Count() { return g_count; }
const std::vector<std::string>& Log() {
  static std::vector<std::string> empty;
  return g_log ? *g_log : empty;
}
bool Fired() { return g_fired; }
bool RunAndCrash(const std::string& root, int at, int variant, const std::function<void()>& f) {
  pid_t pid = fork();
  if (pid == 0) {
    Start(root, Mode::kCrash, at, variant);
    f();
    _exit(0);
  }
  int st = 0;
  waitpid(pid, &st, 0);
  return WIFEXITED(st) && WEXITSTATUS(st) == kCrashExit;
}
}  // namespace mcfs

using mcfs::After;
using mcfs::Event;
using mcfs::Next;
using mcfs::Under;
using mcfs::UnderFd;

namespace {
bool Writable(int flags) { return (flags & O_ACCMODE) != O_RDONLY || (flags & (O_CREAT | O_TRUNC)); }
template <typename R>
int OpenImpl(const char* path, int flags, R real) {
  if (!Under(path) || (!Writable(flags) && !mcfs::g_reads)) return real();
  int e = Event("open", path);
  if (e == 1 || e == 2 || e == 5) {
    errno = EACCES;
    return -1;
  }
  int fd = real();
  if (fd >= 0 && fd < 4096) mcfs::g_fd[fd] = true;
  After(e);
  return fd;
}
template <typename R>
int PathOp(const char* name, const char* path, R real) {
  if (!Under(path)) return real();
  int e = Event(name, path);
  if (e == 1 || e == 2 || e == 5) {
    errno = EIO;
    return -1;
  }
  int r = real();
  int s = errno;
  After(e);
  errno = s;
  return r;
}
}  // namespace

#define MODE_ARG                     \
  mode_t mode = 0;                   \
  if (flags & (O_CREAT | O_TMPFILE)) { \
    va_list ap;                      \
    va_start(ap, flags);             \
    mode = va_arg(ap, mode_t);       \
    va_end(ap);                      \
  }

extern "C" {
int open(const char* path, int flags, ...) {
  MODE_ARG;
  static auto f = Next<int (*)(const char*, int, ...)>("open");
  return OpenImpl(path, flags, [&] { return f(path, flags, mode); });
}
int open64(const char* path, int flags, ...) {
  MODE_ARG;
  static auto f = Next<int (*)(const char*, int, ...)>("open64");
  return OpenImpl(path, flags, [&] { return f(path, flags, mode); });
}
int openat(int dir, const char* path, int flags, ...) {
  MODE_ARG;
  static auto f = Next<int (*)(int, const char*, int, ...)>("openat");
  return OpenImpl(path, flags, [&] { return f(dir, path, flags, mode); });
}
int creat(const char* path, mode_t mode) {
  static auto f = Next<int (*)(const char*, mode_t)>("creat");
  return OpenImpl(path, O_CREAT | O_WRONLY | O_TRUNC, [&] { return f(path, mode); });
}
static FILE* FopenImpl(const char* path, const char* mode, FILE* (*f)(const char*, const char*)) {
  bool w = mode && strpbrk(mode, "wa+");
  if ((!w && !mcfs::g_reads) || !Under(path)) return f(path, mode);
  int e = Event("fopen", path);
  if (e == 1 || e == 2 || e == 5) {
    errno = EACCES;
    return nullptr;
  }
  FILE* r = f(path, mode);
  if (r) {
    int fd = fileno(r);
    if (fd >= 0 && fd < 4096) mcfs::g_fd[fd] = true;
  }
  After(e);
  return r;
}
FILE* fopen(const char* path, const char* mode) {
  static auto f = Next<FILE* (*)(const char*, const char*)>("fopen");
  return FopenImpl(path, mode, f);
}
FILE* fopen64(const char* path, const char* mode) {
  static auto f = Next<FILE* (*)(const char*, const char*)>("fopen64");
  return FopenImpl(path, mode, f);
}
ssize_t write(int fd, const void* buf, size_t n) {
  static auto f = Next<ssize_t (*)(int, const void*, size_t)>("write");
  if (!UnderFd(fd)) return f(fd, buf, n);
  int e = Event("write", "");
  if (e == 5 && n > 1) return f(fd, buf, n / 2);
  if (e == 1 || e == 2 || e == 5) {
    if (e == 2 && n > 1) f(fd, buf, n / 2);
    errno = ENOSPC;
    return -1;
  }
  ssize_t r = f(fd, buf, e == 3 ? n / 2 : n);
  After(e);
  return r;
}
ssize_t read(int fd, void* buf, size_t n) {
  static auto f = Next<ssize_t (*)(int, void*, size_t)>("read");
  if (!mcfs::g_reads || !UnderFd(fd)) return f(fd, buf, n);
  int e = Event("read", "");
  if (e == 5 && n > 1) return f(fd, buf, n / 2);
  if (e == 1 || e == 2 || e == 5) {
    errno = EIO;
    return -1;
  }
  ssize_t r = f(fd, buf, n);
  After(e);
  return r;
}
ssize_t writev(int fd, const struct iovec* iov, int cnt) {
  static auto f = Next<ssize_t (*)(int, const struct iovec*, int)>("writev");
  if (!UnderFd(fd)) return f(fd, iov, cnt);
  int e = Event("writev", "");
  if (e == 5 && cnt > 1) return f(fd, iov, 1);
  if (e == 1 || e == 2 || e == 5) {
    if (e == 2 && cnt > 0) f(fd, iov, 1);
    errno = ENOSPC;
    return -1;
  }
  ssize_t r = f(fd, iov, e == 3 ? 1 : cnt);
  After(e);
  return r;
}
ssize_t pwrite(int fd, const void* buf, size_t n, off_t off) {
  static auto f = Next<ssize_t (*)(int, const void*, size_t, off_t)>("pwrite");
  if (!UnderFd(fd)) return f(fd, buf, n, off);
  int e = Event("pwrite", "");
  if (e == 1 || e == 2 || e == 5) {
    errno = ENOSPC;
    return -1;
  }
  ssize_t r = f(fd, buf, e == 3 ? n / 2 : n, off);
  After(e);
  return r;
}
int ftruncate(int fd, off_t n) {
  static auto f = Next<int (*)(int, off_t)>("ftruncate");
  if (!UnderFd(fd)) return f(fd, n);
  int e = Event("ftruncate", "");
  if (e == 1 || e == 2 || e == 5) {
    errno = EIO;
    return -1;
  }
  int r = f(fd, n);
  After(e);
  return r;
}
int fsync(int fd) {
  static auto f = Next<int (*)(int)>("fsync");
  if (!UnderFd(fd)) return f(fd);
  int e = Event("fsync", "");
  if (e == 1 || e == 2 || e == 5) {
    errno = EIO;
    return -1;
  }
  int r = f(fd);
  After(e);
  return r;
}
int close(int fd) {
  static auto f = Next<int (*)(int)>("close");
  if (fd >= 0 && fd < 4096) mcfs::g_fd[fd] = false;
  return f(fd);
}
int rename(const char* a, const char* b) {
  static auto f = Next<int (*)(const char*, const char*)>("rename");
  return PathOp("rename", b, [&] { return f(a, b); });
}
int unlink(const char* p) {
  static auto f = Next<int (*)(const char*)>("unlink");
  return PathOp("unlink", p, [&] { return f(p); });
}
int unlinkat(int d, const char* p, int flags) {
  static auto f = Next<int (*)(int, const char*, int)>("unlinkat");
  return PathOp("unlinkat", p, [&] { return f(d, p, flags); });
}
int remove(const char* p) {
  static auto f = Next<int (*)(const char*)>("remove");
  return PathOp("remove", p, [&] { return f(p); });
}
int rmdir(const char* p) {
  static auto f = Next<int (*)(const char*)>("rmdir");
  return PathOp("rmdir", p, [&] { return f(p); });
}
int mkdir(const char* p, mode_t m) {
  static auto f = Next<int (*)(const char*, mode_t)>("mkdir");
  return PathOp("mkdir", p, [&] { return f(p, m); });
}
}
