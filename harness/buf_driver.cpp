// Drives CPU buffer pools (one, or a pool over a pool as a device pool sits over the host pool) against a scripted storage.
#include "common.h"

#include <atomic>
#include <chrono>
#include <condition_variable>
#include <mutex>
#include <set>
#include <thread>

#include "DataMgr/BufferMgr/CpuBufferMgr/CpuBuffer.h"
#include "DataMgr/BufferMgr/CpuBufferMgr/CpuBufferMgr.h"
#include "DataMgr/BufferMgr/CpuBufferMgr/TieredCpuBufferMgr.h"
#include "IR/Context.h"
#include "Logger/Logger.h"

using namespace vf;
using namespace Buffer_Namespace;
using namespace Data_Namespace;

namespace {

struct Fail : std::runtime_error {
  Fail() : std::runtime_error("storage failure") {}
};

inline int8_t pat(int64_t v, int64_t j) { return (v + j) % 100; }

class Token : public AbstractDataToken {
 public:
  Token(std::vector<int8_t> d) : d_(std::move(d)) {}
  const int8_t* getMemoryPtr() const override { return d_.data(); }
  size_t getSize() const override { return d_.size(); }
  const hdk::ir::Type* getType() const override { return hdk::ir::Context::defaultCtx().int8(); }

 private:
  std::vector<int8_t> d_;
};

// The storage below the pools.
class Store : public AbstractBufferMgr {
 public:
  Store() : AbstractBufferMgr(0) {}
  struct Item {
    int64_t v = 0, n = 0, fail = 0;
    bool zc = false;
  };
  std::map<ChunkKey, Item> items;
  std::mutex m;
  std::map<ChunkKey, int> inflight;
  int max_inflight = 0, fetches = 0;
  bool slow = false;

  void fetchBuffer(const ChunkKey& key, AbstractBuffer* dest, const size_t num_bytes) override {
    Item it;
    {
      std::lock_guard<std::mutex> l(m);
      auto& x = items.at(key);
      if (x.fail > 0) {
        --x.fail;
        throw Fail();
      }
      it = x;
      max_inflight = std::max(max_inflight, ++inflight[key]);
      fetches++;
    }
    if (slow) std::this_thread::sleep_for(std::chrono::microseconds(20 + (key.back() * 37) % 100));
    try {
      size_t n = num_bytes ? num_bytes : it.n;
      dest->reserve(n);
      int8_t* p = dest->getMemoryPtr();
      for (size_t j = dest->size(); j < n; ++j) p[j] = pat(it.v, j);
      dest->setSize(n);
    } catch (...) {
      std::lock_guard<std::mutex> l(m);
      inflight[key]--;
      throw;
    }
    std::lock_guard<std::mutex> l(m);
    inflight[key]--;
  }
  std::unique_ptr<AbstractDataToken> getZeroCopyBufferMemory(const ChunkKey& key, size_t) override {
    std::lock_guard<std::mutex> l(m);
    auto it = items.find(key);
    if (it == items.end() || !it->second.zc) return nullptr;
    std::vector<int8_t> d(it->second.n);
    for (size_t j = 0; j < d.size(); ++j) d[j] = pat(it->second.v, j);
    return std::make_unique<Token>(std::move(d));
  }
  std::unique_ptr<AbstractDataToken> getZeroCopyColumnData(const ColumnRef&) override { return nullptr; }
  AbstractBuffer* createBuffer(const ChunkKey&, const size_t, const size_t) override { abort(); }
  AbstractBuffer* createZeroCopyBuffer(const ChunkKey&, std::unique_ptr<AbstractDataToken>) override { abort(); }
  void deleteBuffer(const ChunkKey&, const bool) override { abort(); }
  void deleteBuffersWithPrefix(const ChunkKey&, const bool) override {}
  AbstractBuffer* getBuffer(const ChunkKey&, const size_t) override { abort(); }
  void getChunkMetadataVecForKeyPrefix(ChunkMetadataVector&, const ChunkKey&) override { abort(); }
  bool isBufferOnDevice(const ChunkKey&) override { return false; }
  std::string printSlabs() override { return ""; }
  size_t getMaxSize() override { return 0; }
  size_t getInUseSize() override { return 0; }
  size_t getAllocated() override { return 0; }
  bool isAllocationCapped() override { return false; }
  const DictDescriptor* getDictMetadata(int, bool) override { return nullptr; }
  std::shared_ptr<const TableFragmentsInfo> getTableMetadata(int, int) const override { return nullptr; }
  AbstractBuffer* alloc(const size_t) override { abort(); }
  void free(AbstractBuffer*) override { abort(); }
  MgrType getMgrType() override { return PERSISTENT_STORAGE_MGR; }
  std::string getStringMgrType() override { return "store"; }
  size_t getNumChunks() override { return 0; }
};

class Pool : public CpuBufferMgr {
 public:
  using CpuBufferMgr::CpuBufferMgr;
  int fail_slabs = 0;
  void addSlab(const size_t slab_size) override {
    if (fail_slabs > 0) {
      --fail_slabs;
      throw FailedToCreateSlab(slab_size);
    }
    CpuBufferMgr::addSlab(slab_size);
  }
  int8_t* slab(size_t i) { return this->slabs_.at(i); }
};
class TierPool : public TieredCpuBufferMgr {
 public:
  using TieredCpuBufferMgr::TieredCpuBufferMgr;
  int8_t* slab(size_t i) { return this->slabs_.at(i); }
};

std::unique_ptr<Store> store;
std::vector<std::unique_ptr<BufferMgr>> pools;  // [0] what the user sees; [1], if any, the pool below
std::vector<Pool*> flat;
std::vector<TierPool*> tiered;
std::map<int, AbstractBuffer*> handles;
size_t page = 0;

std::string ints(const std::vector<int32_t>& v) {
  std::string s = "[";
  for (size_t i = 0; i < v.size(); ++i) s += (i ? "," : "") + std::to_string(v[i]);
  return s + "]";
}

ChunkKey key_of(const Val& v) {
  ChunkKey k;
  for (auto& x : v.GetArray()) k.push_back(x.GetInt());
  return k;
}

std::string dump_pool(int lev) {
  auto& p = *pools[lev];
  auto info = p.getMemoryInfo();
  std::string s = "{\"slabs\":[";
  size_t sl = 0;
  for (auto& segs : p.getSlabSegments()) {
    if (sl) s += ",";
    s += "[";
    bool first = true;
    int8_t* base = flat[lev] ? flat[lev]->slab(sl) : tiered[lev]->slab(sl);
    for (auto& g : segs) {
      if (!first) s += ",";
      first = false;
      int64_t off = -1;
      int pins = 0;
      int64_t size = 0;
      bool used = g.mem_status == USED;
      if (used && g.buffer) {
        off = g.buffer->getMemoryPtr() - base;
        off = off % (int64_t)page ? -2 : off / (int64_t)page;
        pins = g.buffer->getPinCount();
        size = g.buffer->size();
      }
      s += "{\"s\":" + std::to_string(g.start_page) + ",\"n\":" + std::to_string(g.num_pages) + ",\"u\":" + (used ? "true" : "false") +
           ",\"k\":" + (used ? ints(g.chunk_key) : "[]") + ",\"p\":" + std::to_string(pins) + ",\"o\":" + std::to_string(off) +
           ",\"z\":" + std::to_string(size) + "}";
    }
    s += "]";
    ++sl;
  }
  // the two public reports have to agree with the segments
  size_t rep = 0;
  for (auto& d : info.nodeMemoryData)
    if (d.memStatus == USED) rep += d.numPages;
  s += "],\"alloc\":" + std::to_string(info.numPageAllocated) + ",\"allocb\":" + std::to_string(p.getAllocated()) + ",\"inuse\":" +
       std::to_string(p.getInUseSize()) + ",\"rep\":" + std::to_string(rep * info.pageSize) + ",\"max\":" + std::to_string(p.getMaxSize()) +
       ",\"cap\":" + (info.isAllocationCapped ? "true" : "false") + ",\"nch\":" + std::to_string(p.getNumChunks()) + "}";
  return s;
}

std::string contents(AbstractBuffer* b) {
  std::vector<int8_t> d(b->size());
  if (!d.empty()) b->read(d.data(), d.size(), 0, CPU_LEVEL, -1);
  std::vector<int32_t> w(d.begin(), d.end());
  return ints(w);
}

std::string exec(const Val& c) {
  const std::string op = gets(c, "op");
  if (op == "start") {
    handles.clear();
    pools.clear();
    flat.clear();
    tiered.clear();
    store.reset(new Store());
    page = geti(c, "page");
    int levels = geti(c, "levels", 1);
    AbstractBufferMgr* par = store.get();
    std::vector<std::unique_ptr<BufferMgr>> made;
    std::vector<Pool*> mf;
    std::vector<TierPool*> mt;
    for (int i = levels - 1; i >= 0; --i) {
      const char* pk = i ? "pool2" : "pool";
      size_t total = geti(c, pk) * page;
      if (geti(c, "tier")) {
        CpuTierSizeVector sizes{total, geti(c, "tier") * page};
        auto* t = new TierPool(0, total + geti(c, "tier") * page, nullptr, geti(c, "min") * page, geti(c, "max") * page, page, sizes, par);
        made.emplace_back(t);
        mt.push_back(t);
        mf.push_back(nullptr);
      } else {
        auto* t = new Pool(0, total, nullptr, geti(c, "min") * page, geti(c, "max") * page, page, par);
        made.emplace_back(t);
        mf.push_back(t);
        mt.push_back(nullptr);
      }
      par = made.back().get();
    }
    for (int i = levels - 1; i >= 0; --i) {
      pools.push_back(std::move(made[i]));
      flat.push_back(mf[i]);
      tiered.push_back(mt[i]);
    }
    return "\"k\":\"ok\"";
  }
  if (op == "pset") {
    auto& it = store->items[key_of(c["key"])];
    it.v = geti(c, "v");
    it.n = geti(c, "n");
    it.zc = geti(c, "zc");
    it.fail = 0;
    return "\"k\":\"ok\"";
  }
  if (op == "pfail") {
    store->items.at(key_of(c["key"])).fail = geti(c, "times");
    return "\"k\":\"ok\"";
  }
  if (op == "sfail") {
    if (flat[0]) flat[0]->fail_slabs = geti(c, "times");
    return "\"k\":\"ok\"";
  }
  auto& p = *pools[0];
  if (op == "get") {
    auto* b = p.getBuffer(key_of(c["key"]), geti(c, "n"));
    handles[geti(c, "h")] = b;
    return "\"k\":\"ok\",\"r\":" + contents(b) + ",\"p\":" + std::to_string(b->getPinCount());
  }
  if (op == "create") {
    auto* b = p.createBuffer(key_of(c["key"]), 0, geti(c, "n"));
    handles[geti(c, "h")] = b;
    return "\"k\":\"ok\",\"r\":[],\"p\":" + std::to_string(b->getPinCount());
  }
  if (op == "alloc") {
    auto* b = p.alloc(geti(c, "n"));
    handles[geti(c, "h")] = b;
    return "\"k\":\"ok\",\"r\":[],\"p\":" + std::to_string(b->getPinCount());
  }
  if (op == "has") return std::string("\"k\":\"ok\",\"r\":") + (p.isBufferOnDevice(key_of(c["key"])) ? "true" : "false");
  if (op == "del") {
    p.deleteBuffer(key_of(c["key"]));
    return "\"k\":\"ok\"";
  }
  if (op == "delp") {
    p.deleteBuffersWithPrefix(key_of(c["key"]));
    return "\"k\":\"ok\"";
  }
  if (op == "clear") {
    p.clearSlabs();
    return "\"k\":\"ok\"";
  }
  AbstractBuffer* b = handles.at(geti(c, "h"));
  if (op == "free") {
    p.free(b);
    return "\"k\":\"ok\"";
  }
  if (op == "pin") return "\"k\":\"ok\",\"p\":" + std::to_string(b->pin());
  if (op == "unpin") return "\"k\":\"ok\",\"p\":" + std::to_string(b->unPin());
  if (op == "read") return "\"k\":\"ok\",\"r\":" + contents(b);
  if (op == "reserve") {
    b->reserve(geti(c, "n"));
    return "\"k\":\"ok\",\"r\":" + contents(b);
  }
  if (op == "write" || op == "append") {
    std::vector<int8_t> d(geti(c, "n"));
    for (size_t j = 0; j < d.size(); ++j) d[j] = pat(geti(c, "v"), j);
    if (op == "write") {
      b->write(d.data(), d.size(), geti(c, "off"), CPU_LEVEL, -1);
    } else {
      b->append(d.data(), d.size(), CPU_LEVEL, -1);
    }
    return "\"k\":\"ok\",\"r\":" + contents(b);
  }
  fprintf(stderr, "driver: unknown op %s\n", op.c_str());
  exit(90);
}

// Concurrent clients of one pool: each gets chunks, reads them while it holds them, and releases them.
std::string conc(const Val& c) {
  int T = geti(c, "threads"), iters = geti(c, "iters"), nkeys = geti(c, "keys"), hold = geti(c, "hold", 2);
  int64_t seed = geti(c, "seed");
  store->slow = geti(c, "slow");
  std::vector<ChunkKey> keys;
  for (auto& [k, it] : store->items) keys.push_back(k);
  std::atomic<int> bad_data{0}, na{0}, oom{0}, failed{0}, gets{0}, ready{0}, unpinned{0}, other{0};
  std::vector<std::thread> th;
  auto& p = *pools[0];
  for (int t = 0; t < T; ++t) {
    th.emplace_back([&, t] {
      std::mt19937 r(seed * 1000 + t);
      ready++;
      while (ready < T) std::this_thread::yield();
      for (int i = 0; i < iters; ++i) {
        std::vector<std::pair<AbstractBuffer*, int8_t*>> held;
        std::vector<std::pair<int64_t, int64_t>> exp;
        int n = 1 + r() % hold;
        for (int j = 0; j < n; ++j) {
          auto& k = keys[r() % nkeys];
          auto item = store->items.at(k);
          size_t want = item.n;
          bool mine = geti(c, "allocs") && r() % 4 == 0;
          try {
            AbstractBuffer* b;
            int64_t v = item.v;
            if (mine) {
              na++;
              b = p.alloc(want);
              v = r() % 100;
              std::vector<int8_t> d(want);
              for (size_t x = 0; x < want; ++x) d[x] = pat(v, x);
              b->write(d.data(), want, 0, CPU_LEVEL, -1);
            } else {
              b = p.getBuffer(k, want);
            }
            gets++;
            if (b->getPinCount() < 1) unpinned++;
            held.push_back({b, b->getMemoryPtr()});
            exp.push_back({v, mine ? -(int64_t)want : (int64_t)want});
          } catch (const OutOfMemory&) {
            oom++;
          } catch (const Fail&) {
            failed++;
          } catch (const std::exception&) {
            other++;
          }
        }
        if (r() % 2) std::this_thread::yield();
        for (size_t j = 0; j < held.size(); ++j) {
          auto* b = held[j].first;
          int64_t want = std::abs(exp[j].second);
          if ((int64_t)b->size() < want) {
            bad_data++;
          } else {
            const int8_t* m = b->getMemoryPtr();
            for (int64_t x = 0; x < want; ++x)
              if (m[x] != pat(exp[j].first, x)) {
                bad_data++;
                break;
              }
          }
          if (exp[j].second < 0) {
            p.free(b);
          } else {
            b->unPin();
          }
        }
        if (geti(c, "dels") && r() % 16 == 0) {
          ChunkKey k = keys[r() % nkeys];
          k.resize(3);
          p.deleteBuffersWithPrefix(k);
        }
      }
    });
  }
  for (auto& t : th) t.join();
  store->slow = false;
  for (auto& [k, it] : store->items) it.fail = 0;
  std::ostringstream o;
  o << "\"k\":\"ok\",\"bad\":" << bad_data << ",\"oom\":" << oom << ",\"failed\":" << failed << ",\"other\":" << other << ",\"unpinned\":" << unpinned
    << ",\"na\":" << na << ",\"gets\":" << gets << ",\"mf\":" << store->max_inflight << ",\"fetches\":" << store->fetches;
  return o.str();
}

}  // namespace

int main(int argc, char** argv) {
  logger::LogOptions lo(argv[0]);
  lo.severity_ = logger::Severity::FATAL;
  lo.severity_clog_ = logger::Severity::FATAL;
  lo.set_base_path("");
  lo.max_files_ = 0;
  logger::init(lo);
  std::string line;
  while (std::getline(std::cin, line)) {
    if (line.empty()) continue;
    Json c = parse(line);
    std::string a;
    try {
      a = gets(c, "op") == "conc" ? conc(c) : exec(c);
    } catch (const OutOfMemory& e) {
      a = "\"k\":\"oom\"";
    } catch (const std::exception& e) {
      a = "\"k\":\"err\",\"m\":" + jstr(e.what());
    }
    std::string s = "{" + a;
    if (!pools.empty()) {
      s += ",\"d\":[";
      for (size_t i = 0; i < pools.size(); ++i) s += (i ? "," : "") + dump_pool(i);
      s += "]";
    }
    emit(s + "}");
  }
  fflush(stdout);
  handles.clear();
  // the pools are left alone: buffers still pinned at the end of a scenario belong to the script
  _exit(0);
}
