// A randomly chosen and configured database of any class.
#pragma once
#include "factory.h"
#include "script.h"

namespace vh {

struct AnyOpt {
  std::vector<std::string> classes = {"HashDBM", "TreeDBM", "TinyDBM", "BabyDBM", "CacheDBM", "StdHashDBM", "StdTreeDBM", "PolyDBM", "ShardDBM"};
  bool tiny_trees = false;   // small pages and caches
  bool orders = true;        // key orders other than the lexical one
  bool std_file = true;
  bool padding = true;       // block-aligned padding in the file hash/tree database
  bool small = false;        // small tables
  bool compress = true;
  bool exact_mode = false;
  int update_mode = -1;
  bool always_file = false;  // on-memory databases are bound to a file too
};

class AnyDB {
 public:
  std::string cls, inner, desc, path;
  bool ordered = false, file_db = false, bound = true, skip = false;
  const KeyOrder* order = nullptr;
  FileCfg fc;
  HashDBM::TuningParameters hp;
  TreeDBM::TuningParameters tp;
  SkipDBM::TuningParameters sp;
  int64_t nb = 100, cap_rec = -1, cap_mem = -1;
  int shards = 1;
  std::map<std::string, std::string> params;

  static AnyDB Make(Rng& g, const std::string& dir, const AnyOpt& o) {
    AnyDB a;
    a.cls = g.Pick(o.classes);
    a.order = &KeyOrders()[0];
    a.inner = a.cls;
    if (a.cls == "PolyDBM" || a.cls == "ShardDBM") {
      std::vector<std::string> in;
      for (auto& x : o.classes) if (x != "PolyDBM" && x != "ShardDBM") in.push_back(x);
      if (in.empty()) in = {"HashDBM", "TreeDBM", "TinyDBM", "BabyDBM", "CacheDBM", "StdHashDBM", "StdTreeDBM"};
      a.inner = g.Pick(in);
      a.shards = a.cls == "ShardDBM" ? (int)g.Pick({1, 2, 3, 5, 10}) : 1;
    }
    a.skip = a.inner == "SkipDBM";
    a.file_db = a.skip || a.inner == "HashDBM" || a.inner == "TreeDBM";
    a.ordered = a.inner == "TreeDBM" || a.inner == "BabyDBM" || a.inner == "StdTreeDBM" || a.skip;
    a.fc = FileCfg::Make(g, o.std_file);
    if (a.fc.block > 0 && (a.fc.options & PositionalFile::ACCESS_PADDING) && (!a.file_db || !o.padding)) { a.fc.block = 0; a.fc.options = 0; }
    RandHashParams(g, &a.hp);
    RandTreeParams(g, &a.tp, &a.order, o.orders && a.inner == "TreeDBM");
    if (a.inner == "BabyDBM" && o.orders && g.P(45)) a.order = &KeyOrders()[g.U(KeyOrders().size())];
    if (a.inner != "BabyDBM" && a.inner != "TreeDBM") a.order = &KeyOrders()[0];
    if (a.cls == "ShardDBM") a.order = &KeyOrders()[0];  // keys which differ in bytes go to different shards
    a.tp.key_comparator = a.order->comp;
    if (o.tiny_trees) { a.tp.max_page_size = (int)g.Pick({1, 40, 100, 200}); a.tp.max_branches = (int)g.Pick({2, 3, 8}); a.tp.max_cached_pages = (int)g.Pick({1, 8, 64, 200}); }
    if (o.small) { a.hp.num_buckets = g.Pick<int64_t>({1, 2, 7, 50, 100}); a.tp.num_buckets = a.hp.num_buckets; }
    if (!o.compress) a.hp.record_comp_mode = a.tp.record_comp_mode = HashDBM::RECORD_COMP_NONE;
    if (o.update_mode >= 0) a.hp.update_mode = a.tp.update_mode = (HashDBM::UpdateMode)o.update_mode;
    a.sp.offset_width = (int)g.Pick({3, 4, 5});
    a.sp.step_unit = (int)g.Pick({2, 3, 4, 16});
    a.sp.max_level = (int)g.Pick({1, 2, 4, 14});
    a.sp.sort_mem_size = g.Pick<int64_t>({1000, 100000, 10000000});
    a.sp.max_cached_records = (int)g.Pick({1, 10, 1000});
    a.nb = g.Pick<int64_t>({1, 2, 7, 100, 1000});
    static const std::map<std::string, std::string> ext = {{"HashDBM", "tkh"}, {"TreeDBM", "tkt"}, {"SkipDBM", "tks"}, {"TinyDBM", "tkmt"}, {"BabyDBM", "tkmb"},
                                                           {"CacheDBM", "tkmc"}, {"StdHashDBM", "tksh"}, {"StdTreeDBM", "tkst"}};
    a.path = dir + "/casket." + ext.at(a.inner);
    a.bound = a.file_db || a.cls != a.inner || o.always_file || g.P(50);
    if (a.cls != a.inner) a.MakeParams();
    a.desc = a.cls + (a.cls != a.inner ? "(" + a.inner + ")" : "") + (a.shards > 1 || a.cls == "ShardDBM" ? Fmt("x%d", a.shards) : "") + " " + a.fc.Str() + " ";
    if (a.inner == "HashDBM") a.desc += HashParamsStr(a.hp);
    else if (a.inner == "TreeDBM") a.desc += TreeParamsStr(a.tp, a.order);
    else if (a.skip) a.desc += Fmt("step=%d level=%d sort=%lld cached=%d", a.sp.step_unit, a.sp.max_level, (long long)a.sp.sort_mem_size, a.sp.max_cached_records);
    else a.desc += Fmt("nb=%lld bound=%d order=%s", (long long)a.nb, a.bound, a.order->name.c_str());
    return a;
  }
  void MakeParams() {
    static const char* files[] = {"MemoryMapParallelFile", "MemoryMapAtomicFile", "PositionalParallelFile", "PositionalAtomicFile", "StdFile"};
    params["file"] = files[fc.kind];
    if (fc.block > 0) {
      params["block_size"] = Fmt("%lld", (long long)fc.block);
      std::string x;
      if (fc.options & PositionalFile::ACCESS_PADDING) x += "padding:";
      if (fc.options & PositionalFile::ACCESS_PAGECACHE) x += "pagecache:";
      if (fc.options & PositionalFile::ACCESS_SYNC) x += "sync:";
      if (!x.empty()) { x.pop_back(); params["access_options"] = x; }
    }
    if (inner == "HashDBM" || inner == "TreeDBM") {
      const HashDBM::TuningParameters& t = inner == "HashDBM" ? hp : (const HashDBM::TuningParameters&)tp;
      static const char* um[] = {"", "UPDATE_IN_PLACE", "UPDATE_APPENDING"};
      if (t.update_mode > 0) params["update_mode"] = um[t.update_mode];
      static const char* crc[] = {"", "RECORD_CRC_NONE", "RECORD_CRC_8", "RECORD_CRC_16", "RECORD_CRC_32"};
      if (t.record_crc_mode > 0) params["record_crc_mode"] = crc[t.record_crc_mode];
      static const char* cm[] = {"", "RECORD_COMP_NONE", "RECORD_COMP_ZLIB", "RECORD_COMP_ZSTD", "RECORD_COMP_LZ4", "RECORD_COMP_LZMA", "RECORD_COMP_RC4", "RECORD_COMP_AES"};
      if (t.record_comp_mode > 0) params["record_comp_mode"] = cm[t.record_comp_mode];
      params["offset_width"] = Fmt("%d", t.offset_width);
      params["align_pow"] = Fmt("%d", t.align_pow);
      params["num_buckets"] = Fmt("%lld", (long long)t.num_buckets);
      params["fbp_capacity"] = Fmt("%d", t.fbp_capacity);
      params["min_read_size"] = Fmt("%d", t.min_read_size);
      if (t.cache_buckets >= 0) params["cache_buckets"] = t.cache_buckets ? "true" : "false";
      params["cipher_key"] = t.cipher_key;
    }
    if (inner == "TreeDBM") {
      params["max_page_size"] = Fmt("%d", tp.max_page_size);
      params["max_branches"] = Fmt("%d", tp.max_branches);
      params["max_cached_pages"] = Fmt("%d", tp.max_cached_pages);
      params["page_update_mode"] = tp.page_update_mode == TreeDBM::PAGE_UPDATE_WRITE ? "PAGE_UPDATE_WRITE" : "PAGE_UPDATE_NONE";
    }
    if (inner == "TreeDBM" || inner == "BabyDBM") {
      static const std::map<std::string, std::string> cn = {{"lexical", "LexicalKeyComparator"}, {"lexcase", "LexicalCaseKeyComparator"}, {"decimal", "DecimalKeyComparator"},
          {"hex", "HexadecimalKeyComparator"}, {"real", "RealNumberKeyComparator"}, {"sbe", "SignedBigEndianKeyComparator"}, {"fbe", "FloatBigEndianKeyComparator"},
          {"pair-lexical", "PairLexicalKeyComparator"}, {"pair-lexcase", "PairLexicalCaseKeyComparator"}, {"pair-decimal", "PairDecimalKeyComparator"},
          {"pair-hex", "PairHexadecimalKeyComparator"}, {"pair-real", "PairRealNumberKeyComparator"}, {"pair-sbe", "PairSignedBigEndianKeyComparator"}, {"pair-fbe", "PairFloatBigEndianKeyComparator"}};
      params["key_comparator"] = cn.at(order->name);
    }
    if (skip) {
      params["offset_width"] = Fmt("%d", sp.offset_width);
      params["step_unit"] = Fmt("%d", sp.step_unit);
      params["max_level"] = Fmt("%d", sp.max_level);
      params["sort_mem_size"] = Fmt("%lld", (long long)sp.sort_mem_size);
      params["max_cached_records"] = Fmt("%d", sp.max_cached_records);
    }
    if (inner == "TinyDBM" || inner == "StdHashDBM") params["num_buckets"] = Fmt("%lld", (long long)nb);
    if (cls == "ShardDBM") params["num_shards"] = Fmt("%d", shards);
  }
  typedef std::function<std::unique_ptr<File>()> FileMaker;
  FileMaker file_maker;  // replaces the file of a plain database class
  std::unique_ptr<File> F() const { return file_maker ? file_maker() : fc.New(); }
  std::unique_ptr<DBM> New() const {
    if (cls == "HashDBM") return std::make_unique<HashDBM>(F());
    if (cls == "TreeDBM") return std::make_unique<TreeDBM>(F());
    if (cls == "SkipDBM") return std::make_unique<SkipDBM>(F());
    if (cls == "TinyDBM") return bound ? std::make_unique<TinyDBM>(F(), nb) : std::make_unique<TinyDBM>(nb);
    if (cls == "BabyDBM") return bound ? std::make_unique<BabyDBM>(F(), order->comp) : std::make_unique<BabyDBM>(order->comp);
    if (cls == "CacheDBM") return bound ? std::make_unique<CacheDBM>(F(), cap_rec, cap_mem) : std::make_unique<CacheDBM>(cap_rec, cap_mem);
    if (cls == "StdHashDBM") return bound ? std::make_unique<StdHashDBM>(F(), nb) : std::make_unique<StdHashDBM>(nb);
    if (cls == "StdTreeDBM") return bound ? std::make_unique<StdTreeDBM>(F()) : std::make_unique<StdTreeDBM>();
    if (cls == "PolyDBM") return std::make_unique<PolyDBM>();
    return std::make_unique<ShardDBM>();
  }
  Status Open(DBM* d, bool writable = true, int32_t options = File::OPEN_DEFAULT) const {
    if (!bound) return Status(Status::SUCCESS);
    if (cls == "HashDBM") return static_cast<HashDBM*>(d)->OpenAdvanced(path, writable, options, hp);
    if (cls == "TreeDBM") return static_cast<TreeDBM*>(d)->OpenAdvanced(path, writable, options, tp);
    if (cls == "SkipDBM") return static_cast<SkipDBM*>(d)->OpenAdvanced(path, writable, options, sp);
    if (cls == "PolyDBM" || cls == "ShardDBM") return static_cast<ParamDBM*>(d)->OpenAdvanced(path, writable, options, params);
    return d->Open(path, writable, options);
  }
  Status Close(DBM* d) const { return bound ? d->Close() : Status(Status::SUCCESS); }
  // Rebuilds with a random new tuning.
  Status Rebuild(DBM* d, Rng& g, std::string* what = nullptr) const {
    if (cls == "HashDBM" && g.P(70)) {
      HashDBM::TuningParameters t;
      if (g.P(50)) t.update_mode = g.P(50) ? HashDBM::UPDATE_IN_PLACE : HashDBM::UPDATE_APPENDING;
      if (g.P(40)) t.record_crc_mode = (HashDBM::RecordCRCMode)g.R(1, 4);
      if (g.P(30)) t.record_comp_mode = g.P(50) ? HashDBM::RECORD_COMP_NONE : HashDBM::RECORD_COMP_ZSTD;
      if (g.P(30)) t.offset_width = (int)g.R(4, 5);
      if (g.P(30)) t.align_pow = (int)g.U(6);
      if (g.P(60)) t.num_buckets = g.Pick<int64_t>({1, 5, 50, 300});
      if (what) *what = HashParamsStr(t);
      return static_cast<HashDBM*>(d)->RebuildAdvanced(t, false, g.P(30));
    }
    if (cls == "TreeDBM" && g.P(70)) {
      TreeDBM::TuningParameters t;
      if (g.P(50)) t.update_mode = g.P(50) ? HashDBM::UPDATE_IN_PLACE : HashDBM::UPDATE_APPENDING;
      if (g.P(40)) t.record_crc_mode = (HashDBM::RecordCRCMode)g.R(1, 4);
      if (g.P(30)) t.align_pow = (int)g.Pick({0, 3, 8});
      if (g.P(60)) t.num_buckets = g.Pick<int64_t>({1, 5, 50, 300});
      if (g.P(60)) t.max_page_size = (int)g.Pick({50, 200, 1000});
      if (g.P(60)) t.max_branches = (int)g.Pick({2, 4, 16});
      if (g.P(60)) t.max_cached_pages = (int)g.Pick({1, 10, 100});
      if (what) *what = TreeParamsStr(t, order);
      return static_cast<TreeDBM*>(d)->RebuildAdvanced(t);
    }
    return d->Rebuild();
  }
};

}  // namespace vh
