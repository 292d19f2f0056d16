#include "faultfs.h"
#include <dlfcn.h>
#include <errno.h>
#include <stdio.h>
#include <string.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <unistd.h>
#include <algorithm>
#include <set>
namespace sim { FaultFs g_fs; }
using sim::g_fs; using sim::FaultFs;
static bool g_fd[4096];
static bool ours(int fd) { return fd >= 0 && fd < 4096 && g_fd[fd]; }
static FILE* open_impl(const char* real, const char* path, const char* mode) {
  typedef FILE* (*F)(const char*, const char*);
  F f = (F)dlsym(RTLD_NEXT, real);
  bool mine = !g_fs.prefix.empty() && strncmp(path, g_fs.prefix.c_str(), g_fs.prefix.size()) == 0;
  if (mine && g_fs.kind == FaultFs::kOpen) { g_fs.fired = true; errno = g_fs.err; return nullptr; }
  FILE* r = f(path, mode);
  if (r && mine) { int fd = fileno(r); if (fd < 4096) g_fd[fd] = true; g_fs.moved = 0; }
  return r;
}
extern "C" {
FILE* fopen(const char* p, const char* m) { return open_impl("fopen", p, m); }
FILE* fopen64(const char* p, const char* m) { return open_impl("fopen64", p, m); }
int fclose(FILE* f) {
  typedef int (*F)(FILE*); static F real = (F)dlsym(RTLD_NEXT, "fclose");
  int fd = fileno(f); bool mine = ours(fd); if (mine) g_fd[fd] = false;
  int r = real(f);
  if (mine && g_fs.kind == FaultFs::kClose) { g_fs.fired = true; errno = g_fs.err; return EOF; }
  return r;
}
static ssize_t w(int fd, const void* b, size_t n) { return syscall(SYS_write, fd, b, n); }
static bool limit_write(size_t& n, ssize_t& ret) {   // true: return ret now
  g_fs.calls++;
  switch (g_fs.kind) {
    case FaultFs::kFull: {
      long room = g_fs.at - g_fs.moved;
      if (room <= 0) { g_fs.fired = true; errno = g_fs.err; ret = -1; return true; }
      if ((long)n > room) { n = room; g_fs.fired = true; }
      return false;
    }
    case FaultFs::kWriteError:               // one failing write, later ones succeed
      if (!g_fs.fired && g_fs.moved + (long)n > g_fs.at) { g_fs.fired = true; errno = g_fs.err; ret = -1; return true; }
      return false;
    case FaultFs::kShort: if ((long)n > g_fs.at) { n = std::max(1L, g_fs.at); g_fs.fired = true; } return false;
    case FaultFs::kIntr: if (g_fs.calls % 2) { g_fs.fired = true; errno = EINTR; ret = -1; return true; } return false;
    default: return false;
  }
}
ssize_t write(int fd, const void* b, size_t n) {
  if (!ours(fd)) return w(fd, b, n);
  ssize_t r; if (limit_write(n, r)) return r;
  r = w(fd, b, n); if (r > 0) g_fs.moved += r; return r;
}
ssize_t writev(int fd, const struct iovec* v, int c) {
  if (!ours(fd)) return syscall(SYS_writev, fd, v, c);
  std::string s; for (int i = 0; i < c; i++) s.append((const char*)v[i].iov_base, v[i].iov_len);
  size_t n = s.size(); ssize_t r; if (limit_write(n, r)) return r;
  r = w(fd, s.data(), n); if (r > 0) g_fs.moved += r; return r;
}
ssize_t read(int fd, void* b, size_t n) {
  if (!ours(fd)) return syscall(SYS_read, fd, b, n);
  g_fs.calls++;
  if (g_fs.kind == FaultFs::kReadError && g_fs.moved + (long)n > g_fs.at) { if (g_fs.moved >= g_fs.at) { g_fs.fired = true; errno = g_fs.err; return -1; } n = g_fs.at - g_fs.moved; }
  if (g_fs.kind == FaultFs::kEof && g_fs.moved + (long)n > g_fs.at) { g_fs.fired = true; n = std::max(0L, g_fs.at - g_fs.moved); if (!n) return 0; }
  if (g_fs.kind == FaultFs::kShort && (long)n > g_fs.at) { n = std::max(1L, g_fs.at); g_fs.fired = true; }
  if (g_fs.kind == FaultFs::kIntr && g_fs.calls % 2) { g_fs.fired = true; errno = EINTR; return -1; }
  ssize_t r = syscall(SYS_read, fd, b, n); if (r > 0) g_fs.moved += r; return r;
}
}
