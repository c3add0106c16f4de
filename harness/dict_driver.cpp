// Conformance driver of the string dictionary.
// Strings travel as arrays of byte codes.  One command per line, one answer per line.
#include "common.h"

#include "Logger/Logger.h"
#include "StringDictionary/StringDictionary.h"

#include <atomic>
#include <functional>
#include <set>
#include <thread>

extern bool g_enable_stringdict_parallel;
using namespace vf;

namespace {
using SD = legacy::StringDictionary;
std::map<int, std::shared_ptr<SD>> dicts;

std::string str(const Val& v) {
  std::string s;
  for (auto& c : v.GetArray()) s.push_back((char)c.GetInt());
  return s;
}
std::vector<std::string> strs(const Val& v) {
  std::vector<std::string> r;
  for (auto& x : v.GetArray()) r.push_back(str(x));
  return r;
}
// generated strings: prefix followed by a decimal number
std::vector<std::string> gen(const Val& c) {
  std::vector<std::string> r;
  std::string p = str(c["pre"]);
  for (int64_t i = geti(c, "lo"); i < geti(c, "hi"); ++i) r.push_back(p + std::to_string(i));
  return r;
}
std::string codes(const std::string& s) {
  std::string o = "[";
  for (size_t i = 0; i < s.size(); ++i) {
    if (i) o += ",";
    o += std::to_string((unsigned char)s[i]);
  }
  return o + "]";
}
template <class V>
std::string ints(const V& v) {
  std::string o = "[";
  bool f = true;
  for (auto x : v) {
    if (!f) o += ",";
    f = false;
    o += std::to_string((int64_t)x);
  }
  return o + "]";
}
std::string allcodes(const std::vector<std::string>& v) {
  std::string o = "[";
  for (size_t i = 0; i < v.size(); ++i) {
    if (i) o += ",";
    o += codes(v[i]);
  }
  return o + "]";
}
// runs of consecutive ids: [[first,len],...]
template <class V>
std::string runs(const V& v) {
  std::string o = "[";
  size_t i = 0;
  while (i < v.size()) {
    size_t j = i + 1;
    while (j < v.size() && (int64_t)v[j] == (int64_t)v[j - 1] + 1) ++j;
    if (o.size() > 1) o += ",";
    o += "[" + std::to_string((int64_t)v[i]) + "," + std::to_string(j - i) + "]";
    i = j;
  }
  return o + "]";
}
std::string ok(const std::string& r) { return "{\"k\":\"ok\",\"r\":" + r + "}"; }

struct Collect : SD::StringCallback {
  std::vector<std::pair<int32_t, std::string>> got;
  void operator()(std::string const& s, int32_t const id) override { got.emplace_back(id, s); }
  void operator()(std::string_view const s, int32_t const id) override { got.emplace_back(id, std::string(s)); }
};

template <class T>
std::string bulk(SD& d, const std::vector<std::string>& in, bool views, bool as_runs) {
  std::vector<T> out(in.size(), T(77));
  if (views) {
    std::vector<std::string_view> v(in.begin(), in.end());
    d.getOrAddBulk(v, out.data());
  } else {
    d.getOrAddBulk(in, out.data());
  }
  return ok(as_runs ? runs(out) : ints(out));
}
template <class T>
std::string getbulk(SD& d, const std::vector<std::string>& in, const Val& c, bool as_runs) {
  std::vector<T> out(in.size(), T(77));
  size_t n = c.HasMember("g") ? d.getBulk(in, out.data(), geti(c, "g")) : d.getBulk(in, out.data());
  return "{\"k\":\"ok\",\"r\":" + (as_runs ? runs(out) : ints(out)) + ",\"nf\":" + std::to_string(n) + "}";
}

std::string runOp(const Val& c, SD* forced = nullptr);

// A client's operation in a concurrent history: records [start, end] tickets around the call.
std::string concurrent(const Val& c) {
  auto& clients = c["clients"];
  std::atomic<int> ticket{0};
  std::atomic<int> ready{0};
  const int lockstep = geti(c, "lockstep");  // operations of a round start together
  struct Ev {
    int s, e;
    std::string r;
  };
  std::vector<std::vector<Ev>> log(clients.Size());
  std::vector<std::thread> th;
  for (size_t i = 0; i < clients.Size(); ++i) {
    th.emplace_back([&, i]() {
      auto& ops = clients[i];
      int round = 0;
      for (auto& op : ops.GetArray()) {
        if (round == 0 || lockstep) {
          ++ready;
          ++round;
          while (ready.load() < (int)clients.Size() * round) {
          }
        }
        Ev ev;
        ev.s = ++ticket;
        try {
          ev.r = runOp(op);
        } catch (const std::exception& e) {
          ev.r = "{\"k\":\"err\"}";
        }
        ev.e = ++ticket;
        log[i].push_back(ev);
      }
    });
  }
  for (auto& t : th) t.join();
  std::string o = "{\"k\":\"hist\",\"h\":[";
  bool f = true;
  for (size_t i = 0; i < log.size(); ++i) {
    for (size_t j = 0; j < log[i].size(); ++j) {
      if (!f) o += ",";
      f = false;
      o += "{\"c\":" + std::to_string(i + 1) + ",\"n\":" + std::to_string(j + 1) + ",\"s\":" + std::to_string(log[i][j].s) +
           ",\"e\":" + std::to_string(log[i][j].e) + ",\"a\":" + log[i][j].r + "}";
    }
  }
  return o + "]}";
}

std::string runOp(const Val& c, SD*) {
  std::string op = gets(c, "op");
  if (op == "start") {
    dicts.clear();
    g_enable_stringdict_parallel = geti(c, "par", 1);
    return "{\"k\":\"ok\"}";
  }
  if (op == "par") {
    g_enable_stringdict_parallel = geti(c, "v");
    return "{\"k\":\"ok\"}";
  }
  int id = geti(c, "d");
  if (op == "new") {
    dicts[id] = std::make_shared<SD>(DictRef{1, id}, (bool)geti(c, "mat"), (size_t)geti(c, "cap", 256));
    return "{\"k\":\"ok\"}";
  }
  if (op == "nest") {
    auto b = dicts.at(geti(c, "b"));
    dicts[id] = std::make_shared<SD>(b, c.HasMember("g") ? geti(c, "g") : -1, (bool)geti(c, "mat"), (size_t)geti(c, "cap", 0));
    return "{\"k\":\"ok\"}";
  }
  if (op == "conc") return concurrent(c);
  auto& d = *dicts.at(id);
  if (op == "add") return ok(std::to_string(d.getOrAdd(str(c["s"]))));
  if (op == "bulk" || op == "bulkgen") {
    auto in = op == "bulk" ? strs(c["ss"]) : gen(c);
    bool r = op == "bulkgen";
    switch (geti(c, "w", 4)) {
      case 1:
        return bulk<uint8_t>(d, in, geti(c, "sv"), r);
      case 2:
        return bulk<uint16_t>(d, in, geti(c, "sv"), r);
      default:
        return bulk<int32_t>(d, in, geti(c, "sv"), r);
    }
  }
  if (op == "getbulk" || op == "getbulkgen") {
    auto in = op == "getbulk" ? strs(c["ss"]) : gen(c);
    bool r = op == "getbulkgen";
    switch (geti(c, "w", 4)) {
      case 1:
        return getbulk<uint8_t>(d, in, c, r);
      case 2:
        return getbulk<uint16_t>(d, in, c, r);
      default:
        return getbulk<int32_t>(d, in, c, r);
    }
  }
  if (op == "idof") {
    std::string s = str(c["s"]);
    int a = d.getIdOfString(s);
    int b = d.getIdOfString(std::string_view(s));
    return ok("[" + std::to_string(a) + "," + std::to_string(b) + "]");
  }
  if (op == "idof1") return ok(std::to_string(d.getIdOfString(str(c["s"]))));
  if (op == "count1") return ok(std::to_string(d.entryCount()));
  if (op == "string") return ok(codes(d.getString(geti(c, "id"))));
  if (op == "strings") {
    std::vector<int32_t> ids;
    for (auto& x : c["ids"].GetArray()) ids.push_back(x.GetInt());
    return ok(allcodes(d.getStrings(ids)));
  }
  if (op == "bytes") {
    auto p = d.getStringBytes(geti(c, "id"));
    return ok(codes(std::string(p.first, p.second)));
  }
  if (op == "count") return ok("[" + std::to_string(d.entryCount()) + "," + std::to_string(d.storageEntryCount()) + "]");
  if (op == "copy") return ok(allcodes(d.copyStrings(geti(c, "g", -1))));
  if (op == "copygen") {
    // the copy as runs of generated strings: [[index, prefix, lo, len] ...] for the given prefix, other strings skipped
    auto all = d.copyStrings(geti(c, "g", -1));
    std::string p = str(c["pre"]);
    std::string o = "[";
    size_t i = 0;
    auto numOf = [&](size_t k) -> int64_t {
      auto& s = all[k];
      if (s.size() <= p.size() || s.compare(0, p.size(), p) != 0) return -1;
      return atoll(s.c_str() + p.size());
    };
    while (i < all.size()) {
      int64_t n = numOf(i);
      if (n < 0) {
        ++i;
        continue;
      }
      size_t j = i + 1;
      while (j < all.size() && numOf(j) == n + (int64_t)(j - i)) ++j;
      if (o.size() > 1) o += ",";
      o += "[" + std::to_string(i) + "," + std::to_string(n) + "," + std::to_string(j - i) + "]";
      i = j;
    }
    return "{\"k\":\"ok\",\"n\":" + std::to_string(all.size()) + ",\"r\":" + o + "]}";
  }
  if (op == "each") {
    Collect cb;
    if (c.HasMember("g")) {
      d.eachStringSerially(geti(c, "g"), cb);
    } else {
      d.eachStringSerially(cb);
    }
    std::string o = "[";
    for (size_t i = 0; i < cb.got.size(); ++i) {
      if (i) o += ",";
      o += "[" + std::to_string(cb.got[i].first) + "," + codes(cb.got[i].second) + "]";
    }
    return ok(o + "]");
  }
  if (op == "like") {
    return ok(ints(d.getLike(str(c["p"]), geti(c, "ic"), geti(c, "si"), (char)geti(c, "esc", '\\'), geti(c, "g", -1))));
  }
  if (op == "cmp") {
    return ok(ints(d.getCompare(str(c["p"]), gets(c, "o"), geti(c, "g", -1))));
  }
  if (op == "regexp") {
    return ok(ints(d.getRegexpLike(str(c["p"]), (char)geti(c, "esc", '\\'), geti(c, "g", -1))));
  }
  if (op == "eq") {
    auto& e = *dicts.at(geti(c, "d2"));
    return ok("[" + std::to_string(d == e) + "," + std::to_string(d != e) + "]");
  }
  if (op == "inter") return ok(ints(d.buildIntersectionTranslationMap(dicts.at(geti(c, "d2")).get())));
  if (op == "union") return ok(ints(d.buildUnionTranslationMap(dicts.at(geti(c, "d2")).get())));
  if (op == "trans") {
    std::vector<int32_t> out(geti(c, "sg"), 77);
    std::mutex m;
    std::set<int32_t> called;
    bool tr = geti(c, "tr");
    auto cb = [&](const std::string_view&, const int32_t sid) {
      std::lock_guard<std::mutex> l(m);
      called.insert(sid);
      return true;
    };
    size_t n = StringDictionaryTranslator::buildDictionaryTranslationMap(
        &d, dicts.at(geti(c, "d2")).get(), out.data(), geti(c, "sg"), geti(c, "dg"), tr, cb);
    return "{\"k\":\"ok\",\"r\":" + ints(out) + ",\"nf\":" + std::to_string(n) + ",\"cb\":" + ints(called) + "}";
  }
  fprintf(stderr, "driver: unknown op %s\n", op.c_str());
  exit(90);
}
}  // namespace

int main(int argc, char** argv) {
  logger::LogOptions lo(argv[0]);
  lo.severity_ = logger::Severity::FATAL;
  lo.severity_clog_ = logger::Severity::FATAL;
  lo.set_base_path("");
  lo.max_files_ = 0;
  logger::init(lo);
  std::string line;
  while (std::getline(std::cin, line)) {
    if (line.empty()) continue;
    auto d = parse(line);
    std::string a;
    try {
      a = runOp(d);
    } catch (const std::exception& e) {
      a = std::string("{\"k\":\"err\",\"m\":") + jstr(e.what()) + "}";
    }
    emit(a);
  }
  dicts.clear();
  fflush(stdout);
  return 0;
}
