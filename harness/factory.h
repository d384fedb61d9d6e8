// Random configurations of files and databases.
#pragma once
#include "model.h"
#include "tkrzw_dbm_baby.h"
#include "tkrzw_dbm_cache.h"
#include "tkrzw_dbm_hash.h"
#include "tkrzw_dbm_poly.h"
#include "tkrzw_dbm_shard.h"
#include "tkrzw_dbm_skip.h"
#include "tkrzw_dbm_std.h"
#include "tkrzw_dbm_tiny.h"
#include "tkrzw_dbm_tree.h"
#include "tkrzw_file_mmap.h"
#include "tkrzw_file_poly.h"
#include "tkrzw_file_pos.h"
#include "tkrzw_file_std.h"
#include "tkrzw_file_util.h"

namespace vh {
using namespace tkrzw;

struct FileCfg {
  int kind = 0;       // 0 mmap-para 1 mmap-atom 2 pos-para 3 pos-atom 4 std
  int64_t alloc_init = 0;
  double alloc_inc = 2.0;
  int64_t block = 0;
  int options = 0;
  int64_t head = 0;
  std::string Str() const {
    static const char* names[] = {"mmap-para", "mmap-atom", "pos-para", "pos-atom", "std"};
    return Fmt("%s(init=%lld,inc=%g,block=%lld,opt=%d)", names[kind], (long long)alloc_init, alloc_inc, (long long)block, options);
  }
  static FileCfg Make(Rng& g, bool allow_std = true) {
    FileCfg f;
    f.kind = (int)g.U(allow_std ? 9 : 8);
    f.kind = f.kind < 8 ? f.kind / 2 : 4;
    if (g.P(70)) { f.alloc_init = g.Pick<int64_t>({1, 100, 4096, 8192, 1 << 16}); f.alloc_inc = g.Pick({1.1, 1.5, 2.0, 2.0}); }
    if (f.kind == 2 || f.kind == 3) {
      int t = (int)g.U(10);
      if (t < 3) { f.block = 512; f.options = PositionalFile::ACCESS_PADDING | (g.P(50) ? PositionalFile::ACCESS_PAGECACHE : 0); }
      else if (t < 6) { f.block = g.Pick<int64_t>({1, 512, 4096}); f.options = PositionalFile::ACCESS_PAGECACHE; }
      else if (t < 7) { f.block = 512; f.options = PositionalFile::ACCESS_SYNC; }
    }
    return f;
  }
  std::unique_ptr<File> New() const {
    std::unique_ptr<File> r;
    switch (kind) {
      case 0: r = std::make_unique<MemoryMapParallelFile>(); break;
      case 1: r = std::make_unique<MemoryMapAtomicFile>(); break;
      case 2: r = std::make_unique<PositionalParallelFile>(); break;
      case 3: r = std::make_unique<PositionalAtomicFile>(); break;
      default: r = std::make_unique<StdFile>(); break;
    }
    if (auto* p = dynamic_cast<PositionalFile*>(r.get()); p && block > 0) p->SetAccessStrategy(block, options);
    if (alloc_init > 0) r->SetAllocationStrategy(alloc_init, alloc_inc);
    return r;
  }
};

inline void RandHashParams(Rng& g, HashDBM::TuningParameters* t, bool for_tree = false) {
  t->update_mode = g.P(60) ? HashDBM::UPDATE_IN_PLACE : HashDBM::UPDATE_APPENDING;
  if (g.P(15)) t->update_mode = HashDBM::UPDATE_DEFAULT;
  t->record_crc_mode = (HashDBM::RecordCRCMode)g.Pick({0, 1, 1, 2, 3, 4});
  int comp = (int)g.U(20);
  t->record_comp_mode = comp < 12 ? HashDBM::RECORD_COMP_NONE : (HashDBM::RecordCompressionMode)(1 + (comp - 12) % 7);
  t->offset_width = (int)g.Pick({3, 4, 4, 5, 6});
  t->align_pow = (int)g.Pick({0, 0, 1, 2, 3, 3, 4, 5, 9});
  if (for_tree) t->align_pow = (int)g.Pick({0, 3, 6, 10});
  t->num_buckets = g.Pick<int64_t>({1, 2, 3, 7, 20, 53, 101, 1000});
  t->fbp_capacity = (int)g.Pick({-1, 0, 1, 2, 5, 100});
  t->min_read_size = (int)g.Pick({-1, -1, 1, 10, 48, 64, 100, 300});
  t->cache_buckets = (int)g.Pick({-1, 0, 1});
  t->cipher_key = g.P(50) ? "" : "secret";
}
inline std::string HashParamsStr(const HashDBM::TuningParameters& t) {
  return Fmt("mode=%d crc=%d comp=%d ow=%d ap=%d nb=%lld fbp=%d mrs=%d cb=%d key=%s restore=%x", t.update_mode, t.record_crc_mode, t.record_comp_mode,
             t.offset_width, t.align_pow, (long long)t.num_buckets, t.fbp_capacity, t.min_read_size, t.cache_buckets, t.cipher_key.c_str(), t.restore_mode);
}
inline void RandTreeParams(Rng& g, TreeDBM::TuningParameters* t, const KeyOrder** order, bool numeric_ok = true) {
  RandHashParams(g, t, true);
  t->max_page_size = (int)g.Pick({1, 40, 100, 100, 200, 400, 1000, 8130});
  t->max_branches = (int)g.Pick({2, 3, 4, 5, 8, 16, 256});
  t->max_cached_pages = (int)g.Pick({1, 8, 64, 200, 10000});
  t->page_update_mode = g.P(70) ? TreeDBM::PAGE_UPDATE_NONE : TreeDBM::PAGE_UPDATE_WRITE;
  *order = &KeyOrders()[numeric_ok && g.P(45) ? g.U(KeyOrders().size()) : 0];
  t->key_comparator = (*order)->comp;
}
inline std::string TreeParamsStr(const TreeDBM::TuningParameters& t, const KeyOrder* o) {
  return HashParamsStr(t) + Fmt(" page=%d br=%d cache=%d pu=%d cmp=%s", t.max_page_size, t.max_branches, t.max_cached_pages, t.page_update_mode, o->name.c_str());
}

}  // namespace vh
