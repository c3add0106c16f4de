// A columnar in-memory storage that plays the part ArrowStorage plays in a build with Arrow: it is a schema
// provider and a data provider, splits rows into fragments, and computes chunk statistics with the engine's encoders.
#pragma once
#include "common.h"

#include "DataMgr/AbstractDataProvider.h"
#include "DataMgr/Encoder.h"
#include "DataProvider/DictDescriptor.h"
#include "DataProvider/TableFragmentsInfo.h"
#include "IR/Context.h"
#include "SchemaMgr/SimpleSchemaProvider.h"
#include "Shared/InlineNullValues.h"
#include "StringDictionary/StringDictionary.h"

namespace vf {

constexpr int kSchemaId = 1;
constexpr int kDbId = (kSchemaId << 24) + 1;

// Zero-copy token over a chunk kept alive by shared_ptr.
class VToken : public Data_Namespace::AbstractDataToken {
 public:
  VToken(std::shared_ptr<std::vector<int8_t>> d, const hdk::ir::Type* t, size_t n) : d_(d), t_(t), n_(n) {}
  const int8_t* getMemoryPtr() const override { return d_->data(); }
  size_t getSize() const override { return n_; }
  const hdk::ir::Type* getType() const override { return t_; }

 private:
  std::shared_ptr<std::vector<int8_t>> d_;
  const hdk::ir::Type* t_;
  size_t n_;
};

class VStorage : public SimpleSchemaProvider, public AbstractDataProvider {
 public:
  explicit VStorage(bool zero_copy = false)
      : SimpleSchemaProvider(hdk::ir::Context::defaultCtx(), kSchemaId, "verif"), zero_copy_(zero_copy) {}

  struct Col {
    const hdk::ir::Type* type;
    int dict_id = 0;
    // per fragment
    std::vector<std::shared_ptr<std::vector<int8_t>>> data;
    std::vector<std::shared_ptr<std::vector<int8_t>>> offs;  // varlen only
    std::vector<ChunkStats> stats;
  };
  struct Tab {
    int id;
    std::string name;
    size_t frag_size;
    std::vector<Col> cols;
    std::vector<size_t> frag_rows;
    std::shared_ptr<TableFragmentsInfo> meta;
  };

  static int& nextTableId() {
    static int n = 1;
    return n;
  }
  static int& nextDictId() {
    static int n = 1;
    return n;
  }

  // cols: [{"n":name,"t":type string}]; a type "dict..."/"dict...@k" shares a dictionary by k.
  int createTable(const std::string& name, const Val& cols, size_t frag_size) {
    Tab t;
    t.id = nextTableId()++;
    t.name = name;
    t.frag_size = frag_size;
    addTableInfo(kDbId, t.id, name, false, (size_t)0, (size_t)0);
    int cid = 1;
    for (auto& c : cols.GetArray()) {
      Col col;
      std::string ts = gets(c, "t");
      std::string share;
      auto at = ts.find('@');
      if (at != std::string::npos) {
        share = ts.substr(at + 1);
        ts = ts.substr(0, at);
      }
      col.type = ctx_.typeFromString(ts);
      if (col.type->isExtDictionary()) {
        auto dt = col.type->as<hdk::ir::ExtDictionaryType>();
        int did;
        if (!share.empty() && shared_.count(share)) {
          did = shared_.at(share);
        } else {
          did = addSchemaId(nextDictId()++, kSchemaId);
          auto dd = std::make_unique<DictDescriptor>(kDbId, did, "d" + std::to_string(did), dt->size() * 8, true, 1, "", true);
          dd->stringDict = std::make_shared<StringDictionary>(DictRef{kDbId, did}, -1);
          dicts_[did] = std::move(dd);
          if (!share.empty()) {
            shared_[share] = did;
          }
        }
        col.dict_id = did;
        col.type = ctx_.extDict(dt->elemType(), did, dt->size());
      }
      addColumnInfo(kDbId, t.id, cid, gets(c, "n"), col.type, false);
      ++cid;
      t.cols.push_back(std::move(col));
    }
    addRowidColumn(kDbId, t.id, cid);
    int id = t.id;
    tabs_[id] = std::move(t);
    refresh(tabs_.at(id));
    return id;
  }

  int tableId(const std::string& name) const { return getTableInfo(kDbId, name)->table_id; }

  void drop(const std::string& name) {
    int id = tableId(name);
    dropTable(kDbId, id);
    tabs_.erase(id);
  }

  // rows: [[v,...],...] with null, number or string cells.  Fills the last fragment first, as ArrowStorage does.
  void append(const std::string& name, const Val& rows) {
    auto& t = tabs_.at(tableId(name));
    size_t pos = 0;
    size_t n = rows.Size();
    while (pos < n) {
      if (t.frag_rows.empty() || t.frag_rows.back() >= t.frag_size) {
        t.frag_rows.push_back(0);
        for (auto& c : t.cols) {
          c.data.push_back(std::make_shared<std::vector<int8_t>>());
          c.offs.push_back(std::make_shared<std::vector<int8_t>>());
          c.stats.emplace_back();
        }
      }
      size_t f = t.frag_rows.size() - 1;
      size_t take = std::min(n - pos, t.frag_size - t.frag_rows[f]);
      for (size_t ci = 0; ci < t.cols.size(); ++ci) {
        auto& c = t.cols[ci];
        // copy on write: tokens handed out keep the old chunk
        c.data[f] = std::make_shared<std::vector<int8_t>>(*c.data[f]);
        c.offs[f] = std::make_shared<std::vector<int8_t>>(*c.offs[f]);
        for (size_t r = 0; r < take; ++r) {
          put(c, f, rows[pos + r][ci]);
        }
      }
      t.frag_rows[f] += take;
      pos += take;
    }
    refresh(t);
  }

  void fetchBuffer(const ChunkKey& key, Data_Namespace::AbstractBuffer* dest, const size_t num_bytes) override {
    auto& t = tabs_.at(key[CHUNK_KEY_TABLE_IDX]);
    auto& c = t.cols.at(key[CHUNK_KEY_COLUMN_IDX] - 1);
    size_t f = key[CHUNK_KEY_FRAGMENT_IDX] - 1;
    auto* src = &c.data.at(f);
    if (key.size() == 5 && key[CHUNK_KEY_VARLEN_IDX] == 2) {
      src = &c.offs.at(f);
    }
    if (key.size() == 5 && key[CHUNK_KEY_VARLEN_IDX] == 1 && !dest->hasEncoder()) {
      dest->initEncoder(c.type);
    }
    size_t nb = num_bytes ? num_bytes : (*src)->size();
    dest->reserve(nb);
    memcpy(dest->getMemoryPtr(), (*src)->data(), std::min(nb, (*src)->size()));
    dest->setSize(nb);
    ++fetches;
  }

  std::unique_ptr<Data_Namespace::AbstractDataToken> getZeroCopyBufferMemory(const ChunkKey& key, size_t num_bytes) override {
    if (!zero_copy_) {
      return nullptr;
    }
    auto& t = tabs_.at(key[CHUNK_KEY_TABLE_IDX]);
    auto& c = t.cols.at(key[CHUNK_KEY_COLUMN_IDX] - 1);
    if (c.type->isVarLen()) {
      return nullptr;
    }
    size_t f = key[CHUNK_KEY_FRAGMENT_IDX] - 1;
    size_t nb = num_bytes ? num_bytes : c.data.at(f)->size();
    return std::make_unique<VToken>(c.data.at(f), c.type, nb);
  }

  std::unique_ptr<Data_Namespace::AbstractDataToken> getZeroCopyColumnData(const ColumnRef& ref) override {
    if (!zero_copy_) {
      return nullptr;
    }
    auto& t = tabs_.at(ref.table_id);
    size_t ci = ref.column_id - 1;
    if (ci >= t.cols.size() || t.cols[ci].type->isVarLen() || t.frag_rows.size() != 1) {
      return nullptr;
    }
    auto& c = t.cols[ci];
    return std::make_unique<VToken>(c.data[0], c.type, c.data[0]->size());
  }

  std::shared_ptr<const TableFragmentsInfo> getTableMetadata(int, int table_id) const override {
    return tabs_.at(table_id).meta;
  }

  const DictDescriptor* getDictMetadata(int dict_id, bool) override {
    auto it = dicts_.find(dict_id);
    return it == dicts_.end() ? nullptr : it->second.get();
  }

  size_t fetches = 0;

 private:
  template <typename T>
  static void push(std::vector<int8_t>& v, T x) {
    size_t o = v.size();
    v.resize(o + sizeof(T));
    memcpy(v.data() + o, &x, sizeof(T));
  }

  static void pushScalar(std::vector<int8_t>& out, const hdk::ir::Type* type, const Val& v) {
    if (type->isFp32()) {
      push<float>(out, v.IsNull() ? inline_fp_null_value<float>() : (float)v.GetDouble());
    } else if (type->isFp64()) {
      push<double>(out, v.IsNull() ? inline_fp_null_value<double>() : v.GetDouble());
    } else {
      int64_t x = v.IsNull() ? inline_fixed_encoding_null_value(type) : (v.IsBool() ? v.GetBool() : v.GetInt64());
      switch (type->size()) {
        case 1:
          push<int8_t>(out, x);
          break;
        case 2:
          push<int16_t>(out, x);
          break;
        case 4:
          push<int32_t>(out, x);
          break;
        default:
          push<int64_t>(out, x);
      }
    }
  }

  void put(Col& c, size_t f, const Val& v) {
    auto& out = *c.data[f];
    if (c.type->isExtDictionary()) {
      int32_t id = v.IsNull() ? inline_int_null_value<int32_t>()
                              : dicts_.at(c.dict_id)->stringDict->getOrAdd(std::string(v.GetString(), v.GetStringLength()));
      switch (c.type->size()) {
        case 1:
          push<uint8_t>(out, v.IsNull() ? 255 : id);
          break;
        case 2:
          push<uint16_t>(out, v.IsNull() ? 65535 : id);
          break;
        default:
          push<int32_t>(out, id);
      }
    } else if (c.type->isString()) {
      auto& offs = *c.offs[f];
      if (offs.empty()) {
        push<uint32_t>(offs, 0);
      }
      if (!v.IsNull()) {
        std::string s(v.GetString(), v.GetStringLength());
        out.insert(out.end(), s.begin(), s.end());
      }
      push<uint32_t>(offs, out.size());
    } else if (c.type->isFixedLenArray()) {
      auto at = c.type->as<hdk::ir::FixedLenArrayType>();
      for (auto& e : v.GetArray()) {
        pushScalar(out, at->elemType(), e);
      }
    } else {
      pushScalar(out, c.type, v);
    }
  }

  void refresh(Tab& t) {
    auto m = std::make_shared<TableFragmentsInfo>();
    auto ti = getTableInfo(kDbId, t.id);
    size_t total = 0;
    if (t.frag_rows.empty()) {
      m->setPhysicalNumTuples(0);
      FragmentInfo e;
      e.fragmentId = 0;
      e.setPhysicalNumTuples(0);
      e.deviceIds = {0, 0, 0};
      e.physicalTableId = t.id;
      m->fragments.push_back(e);
      m->fragments.push_back(e);
    } else {
      TableStats ts;
      for (size_t f = 0; f < t.frag_rows.size(); ++f) {
        auto& fi = m->fragments.emplace_back();
        fi.fragmentId = f + 1;
        fi.physicalTableId = t.id;
        fi.setPhysicalNumTuples(t.frag_rows[f]);
        fi.deviceIds = {0, 0, 0};
        total += t.frag_rows[f];
        for (size_t ci = 0; ci < t.cols.size(); ++ci) {
          auto& c = t.cols[ci];
          auto cm = std::make_shared<ChunkMetadata>(c.type, c.data[f]->size(), t.frag_rows[f]);
          ChunkStats st;
          if (c.type->isString()) {
            cm->fillStringChunkStats(true);
            st = cm->chunkStats();
          } else {
            auto et = c.type->isArray() ? c.type->as<hdk::ir::ArrayBaseType>()->elemType() : c.type;
            std::unique_ptr<Encoder> enc(Encoder::Create(nullptr, et));
            enc->updateStatsEncoded(c.data[f]->data(), c.data[f]->size() / et->size(), c.type->isFixedLenArray());
            enc->fillChunkStats(st, et);
            cm->fillChunkStats(st);
          }
          fi.setChunkMetadata(ci + 1, cm);
          if (f == 0) {
            ts.emplace(ci + 1, st);
          } else if (!c.type->isString()) {
            mergeStats(ts.at(ci + 1), st, c.type);
          }
        }
      }
      m->setPhysicalNumTuples(total);
      m->setTableStats(ts);
    }
    t.meta = m;
    ti->fragments = t.frag_rows.size();
    ti->row_count = total;
  }

  bool zero_copy_;
  std::map<int, Tab> tabs_;
  std::map<int, std::unique_ptr<DictDescriptor>> dicts_;
  std::map<std::string, int> shared_;
};

}  // namespace vf
