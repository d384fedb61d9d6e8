// Crash images: the files of a directory as they are at one moment of a run (what a killed process leaves behind).
#pragma once
#include <optional>
#include "wrapfile.h"

namespace vh {

struct Image {
  std::map<std::string, std::pair<int64_t, std::string>> files;  // name -> size, contents without the null tail
  static Image Take(const std::string& dir) {
    Image im;
    for (auto& n : ListDir(dir)) {
      const std::string p = dir + "/" + n;
      struct stat st;
      if (lstat(p.c_str(), &st) != 0 || !S_ISREG(st.st_mode)) continue;
      std::string d;
      ReadAll(p, &d);
      const int64_t sz = d.size();
      size_t e = d.find_last_not_of('\0');
      d.resize(e == std::string::npos ? 0 : e + 1);
      im.files[n] = {sz, std::move(d)};
    }
    return im;
  }
  void Put(const std::string& dir) const {
    mkdir(dir.c_str(), 0755);
    CleanDir(dir);
    for (auto& kv : files) {
      const std::string p = dir + "/" + kv.first;
      WriteAll(p, kv.second.second);
      const int fd = open(p.c_str(), O_RDWR);
      if (fd >= 0) { if (ftruncate(fd, kv.second.first) != 0) {} close(fd); }
    }
  }
  uint64_t Hash() const {
    uint64_t h = 7;
    for (auto& kv : files) h = Mix(h ^ HashStr(kv.first) ^ HashStr(kv.second.second) ^ kv.second.first);
    return h;
  }
};

// Calls `at` before every file operation that can change a file and before every system call that can.
class CrashHub : public FileHub {
 public:
  std::function<void(const std::string&)> at;
  int64_t nops = 0;
  static const char* Name(FileOp::Kind k) {
    static const char* n[] = {"open", "close", "read", "write", "append", "expand", "truncate", "faketruncate", "sync", "rename", "size"};
    return n[k];
  }
  Status Before(File*, const FileOp& op) override {
    if (op.Mutates() || op.kind == FileOp::CLOSE) { nops++; if (at) at(Fmt("%s(%lld,%zu)", Name(op.kind), (long long)op.off, op.size)); }
    return Status(Status::SUCCESS);
  }
  void HookSys(bool on) {
    if (!on) { g_sys_before = nullptr; return; }
    g_sys_before = [this](const char* call, const char* p) { nops++; if (at) at(std::string(call) + "(" + p + ")"); return true; };
  }
};

}  // namespace vh
