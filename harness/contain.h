// Stand-ins for the destructive system calls: outside the scratch directory they only record the call.
#pragma once
#include <cerrno>
#include <cstdio>
#include <functional>
#include <string>
#include <vector>
#include <fcntl.h>
#include <sys/syscall.h>
#include <unistd.h>

namespace vh {
inline std::string g_contain_dir;      // set by Main
inline std::string g_escaped;          // the last refused call
inline std::function<bool(const char*, const char*)> g_sys_before;  // sees every allowed call; false makes it fail with EIO
inline thread_local bool g_in_hook = false;
inline bool SysAllow(const char* call, const char* p) {
  if (!g_sys_before || g_in_hook) return true;
  g_in_hook = true;
  const bool ok = g_sys_before(call, p);
  g_in_hook = false;
  if (ok) return true;
  errno = EIO;
  return false;
}
inline bool Inside(const char* call, const char* p) {
  std::vector<std::string> el;
  std::string cur;
  const std::string s = std::string(p) + "/";
  bool ok = *p == '/';
  for (char ch : s) {
    if (ch != '/') { cur.push_back(ch); continue; }
    if (cur == "..") { if (el.empty()) ok = false; else el.pop_back(); }
    else if (!cur.empty() && cur != ".") el.push_back(cur);
    cur.clear();
  }
  std::string norm;
  for (auto& e : el) norm += "/" + e;
  if (ok && !g_contain_dir.empty() && (norm == g_contain_dir || norm.compare(0, g_contain_dir.size() + 1, g_contain_dir + "/") == 0)) return true;
  g_escaped = std::string(call) + "(" + p + ")";
  fprintf(stderr, "CONTAINED: %s\n", g_escaped.c_str());
  errno = EACCES;
  return false;
}
}  // namespace vh

extern "C" {
int unlink(const char* p) noexcept { return vh::Inside("unlink", p) && vh::SysAllow("unlink", p) ? (int)syscall(SYS_unlink, p) : -1; }
int rmdir(const char* p) noexcept { return vh::Inside("rmdir", p) && vh::SysAllow("rmdir", p) ? (int)syscall(SYS_rmdir, p) : -1; }
int mkdir(const char* p, mode_t m) noexcept { return vh::Inside("mkdir", p) && vh::SysAllow("mkdir", p) ? (int)syscall(SYS_mkdir, p, m) : -1; }
int rename(const char* a, const char* b) noexcept { return vh::Inside("rename", a) && vh::Inside("rename", b) && vh::SysAllow("rename", a) ? (int)syscall(SYS_rename, a, b) : -1; }
int truncate(const char* p, off_t n) noexcept { return vh::Inside("truncate", p) && vh::SysAllow("truncate", p) ? (int)syscall(SYS_truncate, p, n) : -1; }
}
