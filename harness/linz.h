// Linearizability of histories of operations on one key (WGL search with memoization).
#pragma once
#include "vh.h"
#include <optional>

namespace vh {

struct KOp {
  enum Kind { GET, SET, SETNX, REMOVE, APPEND, CAS, INC, PROC, ITGET } kind = GET;
  int64_t t0 = 0, t1 = 0;
  int thread = 0;
  std::string arg, exp;            // argument (value / appended / desired), expected value of CAS
  bool arg_null = false, exp_null = false, exp_any = false, arg_any = false;
  int64_t inc = 0, inc_init = 0;
  // result
  int code = 0;                    // Status code
  bool has = false;                // an old/actual value was reported
  std::string out;
  int64_t num = 0;
};

inline std::string BE8(int64_t v) { std::string r(8, 0); for (int i = 0; i < 8; i++) r[7 - i] = (char)((uint64_t)v >> (8 * i)); return r; }

class Linz {
 public:
  struct St { bool present = false; std::string v; };
  // Whether the operation may take effect in the state and give its result.
  typedef std::function<bool(const KOp&, St*)> ApplyFn;
  int64_t nodes = 0;
  int max_open = 0;
  // 1 linearizable, 0 not, -1 undecided
  int Check(std::vector<KOp> ops, const St& init, const ApplyFn& apply, std::string* why, int64_t budget = 2000000) {
    std::sort(ops.begin(), ops.end(), [](const KOp& a, const KOp& b) { return a.t0 < b.t0; });
    const int n = (int)ops.size();
    std::unordered_set<uint64_t> memo;
    struct Frame { int p; std::vector<char> done; St st; int next; uint64_t dh; };
    std::vector<Frame> stack;
    stack.push_back({0, std::vector<char>(n, 0), init, -1, 0});
    nodes = 0;
    int best = -1;
    St best_state;
    // depth-first
    while (!stack.empty()) {
      Frame& f = stack.back();
      while (f.p < n && f.done[f.p]) f.p++;
      if (f.p >= n) return 1;
      if (f.next < 0) {
        f.next = f.p;
        if (f.p > best) { best = f.p; best_state = f.st; }
      }
      // Candidates begin before every undone operation has ended.
      bool pushed = false;
      int64_t min_end = INT64_MAX;
      for (int i = f.p; i < n && ops[i].t0 <= min_end; i++) if (!f.done[i]) min_end = std::min(min_end, ops[i].t1);
      for (int i = f.next; i < n; i++) {
        if (ops[i].t0 > min_end) break;
        if (f.done[i]) continue;
        St ns = f.st;
        if (!apply(ops[i], &ns)) continue;
        uint64_t h = HashStr(ns.v, ns.present ? 7 : 9);
        const uint64_t dh = f.dh ^ Mix((uint64_t)i + 12345);
        h = Mix(h ^ dh);
        const bool fresh = memo.insert(h).second;
        if (!fresh) continue;
        if (++nodes > budget) return -1;
        Frame nf{f.p, f.done, std::move(ns), -1, dh};
        nf.done[i] = 1;
        f.next = i + 1;
        stack.push_back(std::move(nf));
        pushed = true;
        break;
      }
      if (!pushed) stack.pop_back();
    }
    std::string s = Fmt("stuck after %d of %d operations with the state %s; next:", best, n, best_state.present ? Show(best_state.v, 24).c_str() : "absent");
    for (int i = best; i < n && i < best + 6; i++) s += " {" + Str(ops[i], ops[0].t0) + "}";
    *why = s;
    return 0;
  }
  static std::string Str(const KOp& o, int64_t base) {
    static const char* k[] = {"Get", "Set", "SetNX", "Remove", "Append", "CAS", "Inc", "Proc", "ItGet"};
    std::string s = Fmt("T%d %s", o.thread, k[o.kind]);
    if (o.kind == KOp::CAS) s += Fmt(" exp=%s", o.exp_null ? "null" : o.exp_any ? "any" : Show(o.exp, 12).c_str());
    if (o.kind != KOp::GET && o.kind != KOp::ITGET && o.kind != KOp::REMOVE && o.kind != KOp::INC) s += Fmt(" %s", o.arg_null ? "null" : o.arg_any ? "any" : Show(o.arg, 12).c_str());
    if (o.kind == KOp::INC) s += Fmt(" %lld", (long long)o.inc);
    s += Fmt(" -> %d", o.code);
    if (o.has) s += " " + Show(o.out, 16);
    if (o.kind == KOp::INC) s += Fmt(" %lld", (long long)o.num);
    s += Fmt(" @%.1f-%.1fus", (o.t0 - base) / 1e3, (o.t1 - base) / 1e3);
    return s;
  }
};

// The same search for any operation type and state: Op has t0, t1; State is copyable; hash(State) identifies it.
template <class Op, class State> class LinzAny {
 public:
  typedef std::function<bool(const Op&, State*)> ApplyFn;
  typedef std::function<uint64_t(const State&)> HashFn;
  typedef std::function<std::string(const Op&)> StrFn;
  int64_t nodes = 0;
  State last;
  // 1 linearizable, 0 not, -1 undecided
  int Check(std::vector<Op> ops, const State& init, const ApplyFn& apply, const HashFn& hash, const StrFn& str, std::string* why, int64_t budget = 2000000) {
    std::sort(ops.begin(), ops.end(), [](const Op& a, const Op& b) { return a.t0 < b.t0; });
    const int n = (int)ops.size();
    std::unordered_set<uint64_t> memo;
    struct Frame { int p; std::vector<char> done; State st; int next; uint64_t dh; };
    std::vector<Frame> stack;
    stack.push_back({0, std::vector<char>(n, 0), init, -1, 0});
    int best = -1;
    std::vector<char> best_done;
    while (!stack.empty()) {
      Frame& f = stack.back();
      while (f.p < n && f.done[f.p]) f.p++;
      if (f.p >= n) { last = f.st; return 1; }
      if (f.next < 0) { f.next = f.p; if (f.p > best) { best = f.p; best_done = f.done; } }
      bool pushed = false;
      int64_t min_end = INT64_MAX;
      for (int i = f.p; i < n && ops[i].t0 <= min_end; i++) if (!f.done[i]) min_end = std::min(min_end, ops[i].t1);
      for (int i = f.next; i < n; i++) {
        if (ops[i].t0 > min_end) break;
        if (f.done[i]) continue;
        State ns = f.st;
        if (!apply(ops[i], &ns)) continue;
        const uint64_t dh = f.dh ^ Mix((uint64_t)i + 12345);
        if (!memo.insert(Mix(hash(ns) ^ dh)).second) continue;
        if (++nodes > budget) return -1;
        Frame nf{f.p, f.done, std::move(ns), -1, dh};
        nf.done[i] = 1;
        f.next = i + 1;
        stack.push_back(std::move(nf));
        pushed = true;
        break;
      }
      if (!pushed) stack.pop_back();
    }
    std::string s = Fmt("no sequential order explains the %d operations, stuck at #%d:", n, best);
    for (int i = std::max(0, best - 2); i < n && i < best + 6; i++) s += std::string(" {") + (i < (int)best_done.size() && best_done[i] ? "done " : "") + str(ops[i]) + "}";
    *why = s;
    return 0;
  }
};

}  // namespace vh
