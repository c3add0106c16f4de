// Drives the chunk encoders: statistics of raw and encoded data, reductions, copies and metadata.
#include "common.h"

#include <cmath>

#include "DataMgr/AbstractBuffer.h"
#include "DataMgr/ArrayNoneEncoder.h"
#include "DataMgr/Encoder.h"
#include "DataMgr/FixedLengthArrayNoneEncoder.h"
#include "DataMgr/MemoryLevel.h"
#include "DataMgr/StringNoneEncoder.h"
#include "IR/Context.h"
#include "Logger/Logger.h"

using namespace vf;
using namespace Data_Namespace;

namespace {

class Buf : public AbstractBuffer {
 public:
  Buf(const hdk::ir::Type* type) : AbstractBuffer(0, type) {}
  void read(int8_t* const, const size_t, const size_t, const MemoryLevel, const int) override {}
  void write(int8_t*, const size_t, const size_t, const MemoryLevel, const int) override {}
  void reserve(size_t) override {}
  void append(int8_t*, const size_t, const MemoryLevel, const int) override {}
  int8_t* getMemoryPtr() override { return nullptr; }
  size_t pageCount() const override { return 0; }
  size_t pageSize() const override { return 0; }
  size_t reservedSize() const override { return 0; }
  MemoryLevel getType() const override { return CPU_LEVEL; }
};

struct Enc {
  std::unique_ptr<Buf> b;
  const hdk::ir::Type* type;
  char kind;   // i integer of size w (signed), u unsigned, f fp, s string, a array, l fixed-length array
  int raw, w;  // bytes of a raw and of an encoded value
  const hdk::ir::Type* elem;
  bool efp = false;
};

std::map<int64_t, Enc> encs;

const hdk::ir::Type* mk(const std::string& t, Enc& e) {
  auto& ctx = hdk::ir::Context::defaultCtx();
  using hdk::ir::TimeUnit;
  auto set = [&](char k, int raw, int w, const hdk::ir::Type* ty) {
    e.kind = k;
    e.raw = raw;
    e.w = w;
    return ty;
  };
  if (t == "bool") return set('i', 1, 1, ctx.boolean());
  if (t == "i8") return set('i', 1, 1, ctx.int8());
  if (t == "i16") return set('i', 2, 2, ctx.int16());
  if (t == "i32") return set('i', 4, 4, ctx.int32());
  if (t == "i64") return set('i', 8, 8, ctx.int64());
  if (t == "dec") return set('i', 8, 8, ctx.decimal64(10, 2));
  if (t == "f32") return set('f', 4, 4, ctx.fp32());
  if (t == "f64") return set('f', 8, 8, ctx.fp64());
  if (t == "dict8") return set('u', 1, 1, ctx.extDict(ctx.text(), 1, 1));
  if (t == "dict16") return set('u', 2, 2, ctx.extDict(ctx.text(), 1, 2));
  if (t == "dict32") return set('i', 4, 4, ctx.extDict(ctx.text(), 1, 4));
  if (t == "date16") return set('i', 8, 2, ctx.date16(TimeUnit::kDay));
  if (t == "date32") return set('i', 8, 4, ctx.date32(TimeUnit::kDay));
  if (t == "date64") return set('i', 8, 8, ctx.date64(TimeUnit::kDay));
  if (t == "dates64") return set('i', 8, 8, ctx.date64(TimeUnit::kSecond));
  if (t == "time16") return set('i', 8, 2, ctx.time16(TimeUnit::kSecond));
  if (t == "time32") return set('i', 8, 4, ctx.time32(TimeUnit::kSecond));
  if (t == "time64") return set('i', 8, 8, ctx.time64(TimeUnit::kSecond));
  if (t == "ts64") return set('i', 8, 8, ctx.timestamp(TimeUnit::kMilli));
  if (t == "iv32") return set('i', 8, 4, ctx.interval(4, TimeUnit::kDay));
  if (t == "iv64") return set('i', 8, 8, ctx.interval64(TimeUnit::kDay));
  if (t == "text") return set('s', 0, 0, ctx.text());
  if (t[0] == 'a' || t[0] == 'l') {
    Enc x;
    e.elem = mk(t.substr(2), x);
    e.efp = x.kind == 'f';
    return set(t[0],
               x.raw,
               x.w,
               t[0] == 'a' ? (const hdk::ir::Type*)ctx.arrayVarLen(e.elem)
                           : (const hdk::ir::Type*)ctx.arrayFixed(3, e.elem));
  }
  fprintf(stderr, "driver: unknown type %s\n", t.c_str());
  exit(90);
}

void put(std::vector<int8_t>& out, const Val& v, int size, bool fp) {
  auto add = [&](const void* p, size_t n) { out.insert(out.end(), (const int8_t*)p, (const int8_t*)p + n); };
  if (fp) {
    double d = v.GetDouble();
    if (size == 4) {
      float f = d;
      add(&f, 4);
    } else {
      add(&d, 8);
    }
  } else {
    int64_t x = v.GetInt64();
    add(&x, size);  // little endian
  }
}

std::vector<int8_t> pack(const Val& vals, int size, bool fp, size_t n) {
  std::vector<int8_t> out;
  for (size_t i = 0; i < n; ++i) put(out, vals[i % vals.Size()], size, fp);
  return out;
}

std::string bound(const Datum& d, const hdk::ir::Type* t) {
  if ((t->isFp32() && !std::isfinite(d.floatval)) || (t->isFp64() && !std::isfinite(d.doubleval))) return "1.25e300";
  char buf[64];
  if (t->isFp32()) {
    snprintf(buf, sizeof buf, "%.17g", (double)d.floatval);
    return buf;
  }
  if (t->isFp64()) {
    snprintf(buf, sizeof buf, "%.17g", d.doubleval);
    return buf;
  }
  if (t->isExtDictionary()) return std::to_string(d.intval);
  if (t->isDateTime() || t->isInterval()) return std::to_string(d.bigintval);
  switch (t->size()) {
    case 1:
      return std::to_string((int)d.tinyintval);
    case 2:
      return std::to_string(d.smallintval);
    case 4:
      return std::to_string(d.intval);
  }
  return std::to_string(d.bigintval);
}

std::string stats(const ChunkStats& s, const Enc& e, bool noBounds = false) {
  if (e.kind == 's' || noBounds) {
    return std::string("[[],[],") + (s.has_nulls ? "1" : "0") + "]";
  }
  auto t = e.kind == 'a' || e.kind == 'l' ? e.elem : e.type;
  return "[[" + bound(s.min, t) + "],[" + bound(s.max, t) + "]," + (s.has_nulls ? "1" : "0") + "]";
}

void setBound(Datum& d, const Val& v, const Enc& e) {
  auto t = e.kind == 'a' || e.kind == 'l' ? e.elem : e.type;
  memset(&d, 0, sizeof d);
  if (t->isFp32()) {
    d.floatval = v.GetDouble();
  } else if (t->isFp64()) {
    d.doubleval = v.GetDouble();
  } else if (t->isExtDictionary()) {
    d.intval = v.GetInt64();
  } else if (t->isDateTime() || t->isInterval() || t->size() == 8) {
    d.bigintval = v.GetInt64();
  } else if (t->size() == 1) {
    d.tinyintval = v.GetInt64();
  } else if (t->size() == 2) {
    d.smallintval = v.GetInt64();
  } else {
    d.intval = v.GetInt64();
  }
}

std::string run(const Json& c) {
  const std::string op = gets(c, "op");
  if (op == "start") {
    encs.clear();
    return "{\"k\":\"ok\"}";
  }
  if (op == "new") {
    Enc e;
    e.elem = nullptr;
    e.type = mk(gets(c, "t"), e);
    e.b = std::make_unique<Buf>(e.type);
    encs[geti(c, "e")] = std::move(e);
    return "{\"k\":\"ok\"}";
  }
  Enc& e = encs.at(geti(c, "e"));
  Encoder* enc = e.b->getEncoder();
  if (op == "upd") {
    if (e.kind == 's') {
      std::vector<std::string> v;
      for (auto& s : c["vals"].GetArray()) v.emplace_back(s.GetInt64(), 'x');
      enc->updateStats(&v, geti(c, "from"), geti(c, "num"));
    } else if (e.kind == 'a' || e.kind == 'l') {
      std::vector<ArrayDatum> v;
      std::vector<std::unique_ptr<std::vector<int8_t>>> keep;
      for (auto& a : c["vals"].GetArray()) {
        bool null = a.IsNull();
        keep.push_back(std::make_unique<std::vector<int8_t>>());
        if (null) {
          if (e.kind == 'a') {
            v.push_back(ArrayDatum(0, nullptr, true, DoNothingDeleter()));
          } else {
            keep.back()->resize(3 * e.raw);
            v.push_back(ArrayDatum(keep.back()->size(), keep.back()->data(), true, DoNothingDeleter()));
          }
        } else {
          for (auto& x : a.GetArray()) put(*keep.back(), x, e.raw, e.efp);
          v.push_back(ArrayDatum(keep.back()->size(), keep.back()->data(), false, DoNothingDeleter()));
        }
      }
      enc->updateStats(&v, geti(c, "from"), geti(c, "num"));
    } else {
      auto d = pack(c["vals"], e.raw, e.kind == 'f', c["vals"].Size());
      try {
        enc->updateStats(d.data(), c["vals"].Size());
      } catch (const std::runtime_error& x) {
        return "{\"k\":\"refused\"}";
      }
    }
    return "{\"k\":\"ok\"}";
  }
  if (op == "sca") {
    if (geti(c, "fp")) {
      enc->updateStats(c["v"].GetDouble(), (bool)geti(c, "null"));
    } else {
      enc->updateStats((int64_t)c["v"].GetInt64(), (bool)geti(c, "null"));
    }
    return "{\"k\":\"ok\"}";
  }
  if (op == "enc") {
    auto d = pack(c["vals"], e.w, e.kind == 'f', geti(c, "num"));
    enc->updateStatsEncoded(d.data(), geti(c, "num"), geti(c, "arr"));
    return "{\"k\":\"ok\"}";
  }
  if (op == "red") {
    enc->reduceStats(*encs.at(geti(c, "f")).b->getEncoder());
    return "{\"k\":\"ok\"}";
  }
  if (op == "cpy") {
    if (geti(c, "sync")) {
      e.b->syncEncoder(encs.at(geti(c, "f")).b.get());
    } else {
      enc->copyMetadata(encs.at(geti(c, "f")).b->getEncoder());
    }
    return "{\"k\":\"ok\"}";
  }
  if (op == "wr") {  // e is written, f is read
    FILE* f = tmpfile();
    enc->writeMetadata(f);
    rewind(f);
    encs.at(geti(c, "f")).b->getEncoder()->readMetadata(f);
    fclose(f);
    return "{\"k\":\"ok\"}";
  }
  if (op == "rst") {
    enc->resetChunkStats();
    return "{\"k\":\"ok\"}";
  }
  if (op == "set") {
    ChunkStats s;
    if (e.kind != 's') {
      setBound(s.min, c["mn"], e);
      setBound(s.max, c["mx"], e);
    }
    s.has_nulls = geti(c, "nulls");
    bool r = enc->resetChunkStats(s);
    return std::string("{\"k\":\"ok\",\"r\":") + (r ? "1" : "0") + "}";
  }
  if (op == "setn") {
    enc->setNumElems(geti(c, "n"));
    e.b->setSize(geti(c, "bytes"));
    return "{\"k\":\"ok\"}";
  }
  if (op == "get") {
    auto m = enc->getMetadata();
    std::string r = "{\"k\":\"ok\",\"n\":" + std::to_string(m->numElements()) + ",\"bytes\":" + std::to_string(m->numBytes()) +
                    ",\"st\":[" + stats(m->chunkStats(), e);
    r += "," + stats(enc->getMetadata(e.type)->chunkStats(), e);
    if (e.kind != 's' && e.kind != 'a' && e.kind != 'l') {
      ChunkStats s;
      memset(&s, 0, sizeof s);
      enc->fillChunkStats(s, e.type);
      r += "," + stats(s, e);
    }
    return r + "]}";
  }
  if (op == "mrg") {  // statistics of e merged with those of f
    Enc& f = encs.at(geti(c, "f"));
    ChunkStats s = enc->getMetadata()->chunkStats();
    mergeStats(s, f.b->getEncoder()->getMetadata()->chunkStats(), e.type);
    return "{\"k\":\"ok\",\"st\":[" + stats(s, e) + "]}";
  }
  if (op == "eq") {
    auto a = enc->getMetadata();
    auto b = encs.at(geti(c, "f")).b->getEncoder()->getMetadata();
    return std::string("{\"k\":\"ok\",\"r\":") + (*a == *b ? "1" : "0") + "}";
  }
  if (op == "lazy") {  // metadata with statistics computed on demand: reads times
    int calls = 0;
    auto src = enc->getMetadata()->chunkStats();
    ChunkMetadata m(e.type, 8, 1, [&](ChunkStats& s) {
      calls++;
      s = src;
    });
    bool before = m.hasComputedChunkStats();
    std::string r = "{\"k\":\"ok\",\"before\":" + std::string(before ? "1" : "0") + ",\"st\":[";
    for (int i = 0; i < geti(c, "reads"); ++i) r += (i ? "," : "") + stats(m.chunkStats(), e);
    return r + "],\"calls\":" + std::to_string(calls) + ",\"after\":" + (m.hasComputedChunkStats() ? "1" : "0") + "}";
  }
  if (op == "fit") {
    size_t r;
    if (e.kind == 's') {
      std::vector<std::string> v;
      for (auto& s : c["lens"].GetArray()) v.emplace_back(s.GetInt64(), 'x');
      r = dynamic_cast<StringNoneEncoder*>(enc)->getNumElemsForBytesInsertData(
          &v, geti(c, "from"), geti(c, "num"), geti(c, "limit"), geti(c, "repl"));
    } else {
      std::vector<int8_t> zero(4096);
      std::vector<ArrayDatum> v;
      for (auto& s : c["lens"].GetArray()) {
        v.push_back(ArrayDatum(e.kind == 'l' ? e.type->size() : s.GetInt64(), zero.data(), false, DoNothingDeleter()));
      }
      if (e.kind == 'a') {
        r = dynamic_cast<ArrayNoneEncoder*>(enc)->getNumElemsForBytesInsertData(
            &v, geti(c, "from"), geti(c, "num"), geti(c, "limit"), geti(c, "repl"));
      } else {
        r = dynamic_cast<FixedLengthArrayNoneEncoder*>(enc)->getNumElemsForBytesInsertData(
            &v, geti(c, "from"), geti(c, "num"), geti(c, "limit"), geti(c, "repl"));
      }
    }
    return "{\"k\":\"ok\",\"r\":" + std::to_string(r) + "}";
  }
  fprintf(stderr, "driver: unknown op %s\n", op.c_str());
  exit(90);
}

}  // namespace

int main(int argc, char** argv) {
  logger::LogOptions log_options(argv[0]);
  log_options.max_files_ = 0;
  log_options.severity_ = logger::Severity::FATAL;
  logger::init(log_options);
  std::string line;
  while (std::getline(std::cin, line)) {
    if (line.empty()) continue;
    auto c = parse(line);
    try {
      emit(run(c));
    } catch (const std::exception& x) {
      emit("{\"k\":\"throw\",\"m\":" + jstr(x.what()) + "}");
    }
  }
  return 0;
}
