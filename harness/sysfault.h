// Shows the file system calls of the library (open for writing, write, truncate, sync, map) to g_sys_before as well.
#pragma once
#include "contain.h"
#include <cstdarg>
#include <string.h>
#include <sys/mman.h>
#include <sys/uio.h>
namespace vh {
inline std::string FdName(int fd) {
  char b[64], p[512];
  snprintf(b, sizeof(b), "/proc/self/fd/%d", fd);
  const ssize_t n = readlink(b, p, sizeof(p) - 1);
  return n > 0 ? std::string(p, n) : "?";
}
inline bool FdAllow(const char* call, int fd) {
  if (!g_sys_before || g_in_hook || fd < 3) return true;
  const std::string p = FdName(fd);
  if (g_contain_dir.empty() || p.compare(0, g_contain_dir.size() + 1, g_contain_dir + "/") != 0) return true;
  return SysAllow(call, p.c_str());
}
}  // namespace vh
extern "C" {
int open(const char* p, int fl, ...) {
  mode_t m = 0;
  if (fl & O_CREAT) { va_list ap; va_start(ap, fl); m = va_arg(ap, int); va_end(ap); }
  if (vh::g_sys_before && !vh::g_in_hook && (fl & (O_CREAT | O_TRUNC | O_WRONLY | O_RDWR)) && strncmp(p, vh::g_contain_dir.c_str(), vh::g_contain_dir.size()) == 0 && !vh::SysAllow("open", p)) return -1;
  return (int)syscall(SYS_openat, AT_FDCWD, p, fl, m);
}
ssize_t write(int fd, const void* b, size_t n) { return vh::FdAllow("write", fd) ? syscall(SYS_write, fd, b, n) : -1; }
ssize_t pwrite(int fd, const void* b, size_t n, off_t o) { return vh::FdAllow("pwrite", fd) ? syscall(SYS_pwrite64, fd, b, n, o) : -1; }
ssize_t writev(int fd, const struct iovec* v, int n) { return vh::FdAllow("writev", fd) ? syscall(SYS_writev, fd, v, n) : -1; }
int ftruncate(int fd, off_t n) noexcept { return vh::FdAllow("ftruncate", fd) ? (int)syscall(SYS_ftruncate, fd, n) : -1; }
int fsync(int fd) { return vh::FdAllow("fsync", fd) ? (int)syscall(SYS_fsync, fd) : -1; }
int fdatasync(int fd) { return vh::FdAllow("fdatasync", fd) ? (int)syscall(SYS_fdatasync, fd) : -1; }
}
