// A File which passes every operation to a real one and shows it to a hub that can watch, delay, fail or crash.
#pragma once
#include "factory.h"

namespace vh {

struct FileOp {
  enum Kind { OPEN, CLOSE, READ, WRITE, APPEND, EXPAND, TRUNCATE, FAKETRUNC, SYNC, RENAME, SIZE } kind;
  int64_t off = 0;
  size_t size = 0;
  const void* buf = nullptr;
  const std::string* path = nullptr;
  bool hard = false;
  bool Mutates() const { return kind == WRITE || kind == APPEND || kind == EXPAND || kind == TRUNCATE || kind == FAKETRUNC || kind == SYNC || kind == RENAME; }
};

class FileHub {
 public:
  virtual ~FileHub() = default;
  // A result other than SUCCESS is returned in place of the operation.
  virtual Status Before(File* inner, const FileOp& op) { return Status(Status::SUCCESS); }
  virtual void After(File* inner, const FileOp& op, const Status& st) {}
};

class WrapFile final : public File {
 public:
  WrapFile(std::shared_ptr<FileHub> hub, FileCfg cfg) : hub_(std::move(hub)), cfg_(cfg), in_(cfg.New()) {}
  WrapFile(std::shared_ptr<FileHub> hub, FileCfg cfg, std::unique_ptr<File> in) : hub_(std::move(hub)), cfg_(cfg), in_(std::move(in)) {}
  template <class F> Status Do(const FileOp& op, F f) {
    Status st = hub_->Before(in_.get(), op);
    if (st != Status::SUCCESS) return st;
    st = f();
    hub_->After(in_.get(), op, st);
    return st;
  }
  Status Open(const std::string& path, bool writable, int32_t options) override {
    FileOp op{FileOp::OPEN}; op.path = &path; op.size = options;
    return Do(op, [&] { return in_->Open(path, writable, options); });
  }
  Status Close() override {
    FileOp op{FileOp::CLOSE};
    Status st = hub_->Before(in_.get(), op);
    Status st2 = in_->Close();
    hub_->After(in_.get(), op, st2);
    return st != Status::SUCCESS ? st : st2;
  }
  Status Read(int64_t off, void* buf, size_t size) override {
    FileOp op{FileOp::READ, off, size};
    return Do(op, [&] { return in_->Read(off, buf, size); });
  }
  Status Write(int64_t off, const void* buf, size_t size) override {
    FileOp op{FileOp::WRITE, off, size, buf};
    return Do(op, [&] { return in_->Write(off, buf, size); });
  }
  Status Append(const void* buf, size_t size, int64_t* off) override {
    FileOp op{FileOp::APPEND, -1, size, buf};
    Status st = hub_->Before(in_.get(), op);
    if (st != Status::SUCCESS) return st;
    int64_t pos = -1;
    st = in_->Append(buf, size, &pos);
    if (off) *off = pos;
    op.off = pos;
    hub_->After(in_.get(), op, st);
    return st;
  }
  Status Expand(size_t inc, int64_t* old_size) override {
    FileOp op{FileOp::EXPAND, 0, inc};
    return Do(op, [&] { return in_->Expand(inc, old_size); });
  }
  Status Truncate(int64_t size) override {
    FileOp op{FileOp::TRUNCATE, size};
    return Do(op, [&] { return in_->Truncate(size); });
  }
  Status TruncateFakely(int64_t size) override {
    FileOp op{FileOp::FAKETRUNC, size};
    return Do(op, [&] { return in_->TruncateFakely(size); });
  }
  Status Synchronize(bool hard, int64_t off, int64_t size) override {
    FileOp op{FileOp::SYNC, off, (size_t)size}; op.hard = hard;
    return Do(op, [&] { return in_->Synchronize(hard, off, size); });
  }
  Status GetSize(int64_t* size) override { return in_->GetSize(size); }
  Status SetAllocationStrategy(int64_t init_size, double inc_factor) override { return in_->SetAllocationStrategy(init_size, inc_factor); }
  Status CopyProperties(File* file) override {
    if (auto* w = dynamic_cast<WrapFile*>(file)) return in_->CopyProperties(w->in_.get());
    return in_->CopyProperties(file);
  }
  Status GetPath(std::string* path) override { return in_->GetPath(path); }
  Status Rename(const std::string& new_path) override {
    FileOp op{FileOp::RENAME}; op.path = &new_path;
    return Do(op, [&] { return in_->Rename(new_path); });
  }
  Status DisablePathOperations() override { return in_->DisablePathOperations(); }
  bool IsOpen() const override { return in_->IsOpen(); }
  bool IsMemoryMapping() const override { return in_->IsMemoryMapping(); }
  bool IsAtomic() const override { return in_->IsAtomic(); }
  std::unique_ptr<File> MakeFile() const override { return std::make_unique<WrapFile>(hub_, cfg_, in_->MakeFile()); }
  File* Inner() { return in_.get(); }

 private:
  std::shared_ptr<FileHub> hub_;
  FileCfg cfg_;
  std::unique_ptr<File> in_;
};

// Yields or sleeps around operations so that rare interleavings happen.
class DelayHub : public FileHub {
 public:
  explicit DelayHub(uint64_t seed, int pct = 10, int max_us = 60) : seed_(seed), pct_(pct), max_us_(max_us) {}
  Status Before(File*, const FileOp&) override { Jitter(); return Status(Status::SUCCESS); }
  void After(File*, const FileOp&, const Status&) override { Jitter(); }
  void Jitter() {
    thread_local uint64_t x = 0;
    if (x == 0) x = Mix(seed_ ^ (uint64_t)(uintptr_t)&x);
    x = Mix(x);
    const int r = (int)(x % 100);
    if (r >= pct_) return;
    if (r & 1) std::this_thread::yield();
    else std::this_thread::sleep_for(std::chrono::microseconds((x >> 8) % (max_us_ + 1)));
  }

 private:
  const uint64_t seed_;
  const int pct_, max_us_;
};

}  // namespace vh
