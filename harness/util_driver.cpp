// Drives the stateless building blocks of queries: string predicates, dates, parsing and printing, work division, sorts,
// quantiles, distinct counts and text utilities.
#include "common.h"

#include <sys/mman.h>
#include <cmath>
#include <cstring>

#include "IR/Context.h"
#include "Logger/Logger.h"
#include "QueryEngine/DateTruncate.h"
#include "QueryEngine/HyperLogLogRank.h"
#include "ResultSet/CountDistinct.h"
#include "ResultSet/QuantileAccessors.h"
#include "Shared/DateTimeParser.h"
#include "Shared/DoubleSort.h"
#include "Shared/Intervals.h"
#include "Shared/SimpleAllocator.h"
#include "Shared/StringTransform.h"
#include "Shared/approx_quantile.h"
#include "Shared/base64.h"
#include "Shared/misc.h"
#include "Shared/parallel_sort.h"
#include "Shared/quantile.h"
#include "Utils/ExtractFromTime.h"
#include "Utils/Regexp.h"
#include "Utils/StringLike.h"

#define EXECUTE_INCLUDE
#include "QueryEngine/DateAdd.cpp"
#include "Calcite/CalciteAdapter.cpp"

extern "C" {
int8_t string_like_nullable(const char*, const int32_t, const char*, const int32_t, const char, const int8_t);
int8_t string_ilike_nullable(const char*, const int32_t, const char*, const int32_t, const char, const int8_t);
int8_t string_like_simple_nullable(const char*, const int32_t, const char*, const int32_t, const int8_t);
int8_t string_ilike_simple_nullable(const char*, const int32_t, const char*, const int32_t, const int8_t);
int8_t string_lt_nullable(const char*, const int32_t, const char*, const int32_t, const int8_t);
int8_t string_le_nullable(const char*, const int32_t, const char*, const int32_t, const int8_t);
int8_t string_gt_nullable(const char*, const int32_t, const char*, const int32_t, const int8_t);
int8_t string_ge_nullable(const char*, const int32_t, const char*, const int32_t, const int8_t);
int8_t string_eq_nullable(const char*, const int32_t, const char*, const int32_t, const int8_t);
int8_t string_ne_nullable(const char*, const int32_t, const char*, const int32_t, const int8_t);
int8_t regexp_like_nullable(const char*, const int32_t, const char*, const int32_t, const char, const int8_t);
int64_t DateDiff(const hdk::ir::DateTruncField, const int64_t, const int64_t);
int64_t DateDiffHighPrecision(const hdk::ir::DateTruncField, const int64_t, const int64_t, const int32_t, const int32_t);
int64_t DateDiffNullable(const hdk::ir::DateTruncField, const int64_t, const int64_t, const int64_t);
int64_t DateDiffHighPrecisionNullable(const hdk::ir::DateTruncField, const int64_t, const int64_t, const int32_t, const int32_t, const int64_t);
int64_t DateTruncateHighPrecisionToDate(const int64_t, const int64_t);
int64_t DateTruncateHighPrecisionToDateNullable(const int64_t, const int64_t, const int64_t);
int64_t TimestampToTimeUpscale(const int64_t, const int64_t, const int64_t);
int64_t TimestampToTimeDownscale(const int64_t, const int64_t, const int64_t);
int64_t TimestampToTimeUpscaleNullable(const int64_t, const int64_t, const int64_t, const int64_t, const int64_t);
int64_t TimestampToTimeDownscaleNullable(const int64_t, const int64_t, const int64_t, const int64_t, const int64_t);
}

using namespace vf;
using hdk::ir::DateAddField;
using hdk::ir::DateExtractField;
using hdk::ir::DateTruncField;
using hdk::ir::TimeUnit;

namespace {

// A string that ends where an unreadable page begins.
class Guarded {
 public:
  Guarded() {
    base_ = (char*)mmap(nullptr, 2 * kPage, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    mprotect(base_ + kPage, kPage, PROT_NONE);
  }
  const char* set(const std::string& s) {
    char* p = base_ + kPage - s.size();
    memcpy(p, s.data(), s.size());
    return p;
  }

 private:
  static constexpr size_t kPage = 65536;
  char* base_;
};
Guarded ga, gb;

std::string str(const Val& v) {
  std::string s;
  for (auto& x : v.GetArray()) s.push_back((char)x.GetInt());
  return s;
}
std::string codes(const std::string& s) {
  std::string r = "[";
  for (size_t i = 0; i < s.size(); ++i) r += (i ? "," : "") + std::to_string((unsigned char)s[i]);
  return r + "]";
}

struct List {
  std::string s = "[";
  bool first = true;
  void raw(const std::string& x) {
    s += (first ? "" : ",") + x;
    first = false;
  }
  template <typename T>
  void add(T x) {
    raw(std::to_string(x));
  }
  std::string done() const { return s + "]"; }
};
std::string ok(const List& l) {
  return "{\"k\":\"ok\",\"r\":" + l.done() + "}";
}
std::string ok(const List& l, bool nn) {
  return "{\"k\":\"ok\",\"r\":" + l.done() + ",\"nn\":" + (nn ? "1" : "0") + "}";
}

template <typename E>
E field(const std::map<std::string, E>& m, const std::string& f) {
  auto it = m.find(f);
  if (it == m.end()) {
    fprintf(stderr, "driver: unknown field %s\n", f.c_str());
    exit(90);
  }
  return it->second;
}
const std::map<std::string, DateExtractField> kExtract{{"year", DateExtractField::kYear},
                                                       {"quarter", DateExtractField::kQuarter},
                                                       {"month", DateExtractField::kMonth},
                                                       {"day", DateExtractField::kDay},
                                                       {"hour", DateExtractField::kHour},
                                                       {"minute", DateExtractField::kMinute},
                                                       {"second", DateExtractField::kSecond},
                                                       {"milli", DateExtractField::kMilli},
                                                       {"micro", DateExtractField::kMicro},
                                                       {"nano", DateExtractField::kNano},
                                                       {"dow", DateExtractField::kDayOfWeek},
                                                       {"isodow", DateExtractField::kIsoDayOfWeek},
                                                       {"doy", DateExtractField::kDayOfYear},
                                                       {"epoch", DateExtractField::kEpoch},
                                                       {"quarterday", DateExtractField::kQuarterDay},
                                                       {"week", DateExtractField::kWeek},
                                                       {"week_sunday", DateExtractField::kWeekSunday},
                                                       {"week_saturday", DateExtractField::kWeekSaturday},
                                                       {"dateepoch", DateExtractField::kDateEpoch}};
const std::map<std::string, DateTruncField> kTrunc{{"year", DateTruncField::kYear},
                                                   {"quarter", DateTruncField::kQuarter},
                                                   {"month", DateTruncField::kMonth},
                                                   {"day", DateTruncField::kDay},
                                                   {"hour", DateTruncField::kHour},
                                                   {"minute", DateTruncField::kMinute},
                                                   {"second", DateTruncField::kSecond},
                                                   {"milli", DateTruncField::kMilli},
                                                   {"micro", DateTruncField::kMicro},
                                                   {"nano", DateTruncField::kNano},
                                                   {"millennium", DateTruncField::kMillennium},
                                                   {"century", DateTruncField::kCentury},
                                                   {"decade", DateTruncField::kDecade},
                                                   {"week", DateTruncField::kWeek},
                                                   {"week_sunday", DateTruncField::kWeekSunday},
                                                   {"week_saturday", DateTruncField::kWeekSaturday},
                                                   {"quarterday", DateTruncField::kQuarterDay}};
const std::map<std::string, DateAddField> kAdd{{"year", DateAddField::kYear},
                                               {"quarter", DateAddField::kQuarter},
                                               {"month", DateAddField::kMonth},
                                               {"day", DateAddField::kDay},
                                               {"hour", DateAddField::kHour},
                                               {"minute", DateAddField::kMinute},
                                               {"second", DateAddField::kSecond},
                                               {"millennium", DateAddField::kMillennium},
                                               {"century", DateAddField::kCentury},
                                               {"decade", DateAddField::kDecade},
                                               {"milli", DateAddField::kMilli},
                                               {"micro", DateAddField::kMicro},
                                               {"nano", DateAddField::kNano},
                                               {"week", DateAddField::kWeek},
                                               {"weekday", DateAddField::kWeekDay},
                                               {"doy", DateAddField::kDayOfYear}};
const std::map<std::string, TimeUnit> kUnit{{"s", TimeUnit::kSecond},
                                            {"ms", TimeUnit::kMilli},
                                            {"us", TimeUnit::kMicro},
                                            {"ns", TimeUnit::kNano},
                                            {"d", TimeUnit::kDay}};

int64_t pow10(int n) {
  int64_t r = 1;
  while (n--) r *= 10;
  return r;
}

constexpr int64_t kNull = std::numeric_limits<int64_t>::min();

template <typename T>
std::string intervals(const Val& c) {
  auto num = [&](const char* k) { return c[k].IsUint64() ? (T)c[k].GetUint64() : (T)c[k].GetInt64(); };
  auto iv = makeIntervals<T>(num("A"), num("B"), (size_t)c["n"].GetUint64());
  List l;
  size_t guard = 0;
  for (auto const& x : iv) {
    List y;
    y.add(x.begin);
    y.add(x.end);
    y.add((uint64_t)x.index);
    y.add((uint64_t)x.size());
    l.raw(y.done());
    if (++guard > 70000) break;
  }
  return "{\"k\":\"ok\",\"r\":" + l.done() + ",\"empty\":" + (iv.empty() ? "1" : "0") + "}";
}

template <typename K, typename V>
std::string sorted(const Val& c, const std::string& alg) {
  std::vector<K> keys;
  std::vector<V> vals;
  for (auto& x : c["ks"].GetArray()) {
    keys.push_back(x.GetInt64());
    vals.push_back(vals.size());
  }
  bool desc = geti(c, "desc");
  auto comp = [desc](const K& a, const K& b) { return desc ? b < a : a < b; };
  if (alg == "par") {
    parallel_sort_by_key(keys.begin(), vals.begin(), keys.size(), comp);
  } else if (alg == "parp") {
    parallel_sort_by_key(keys.data(), vals.data(), keys.size(), comp);
  } else if (alg == "ins") {
    insertion_sort_by_key(keys.begin(), vals.begin(), keys.size(), comp);
  } else {
    using It = double_sort::Iterator<K, V>;
    using Value = double_sort::Value<K, V>;
    std::sort(It(keys.data(), vals.data()),
              It(keys.data() + keys.size(), vals.data() + vals.size()),
              [&](const Value& a, const Value& b) { return comp(a.value0(), b.value0()); });
  }
  List k, v;
  for (auto x : keys) k.add(x);
  for (auto x : vals) v.add(x);
  return "{\"k\":\"ok\",\"ks\":" + k.done() + ",\"vs\":" + v.done() + "}";
}

class Alloc : public SimpleAllocator {
 public:
  int8_t* allocate(const size_t n, const size_t = 0) override { return get(n); }
  int8_t* allocateSmallMtNoLock(size_t n, size_t) override { return get(n); }
  int8_t* get(size_t n) {
    mem_.emplace_back(new int8_t[n]);
    memset(mem_.back().get(), 0x5a, n);
    return mem_.back().get();
  }
  std::vector<std::unique_ptr<int8_t[]>> mem_;
};

hdk::ir::Interpolation interp(const std::string& s) {
  using I = hdk::ir::Interpolation;
  return s == "lower" ? I::kLower : s == "higher" ? I::kHigher : s == "nearest" ? I::kNearest : s == "midpoint" ? I::kMidpoint : I::kLinear;
}

std::string dbl(double d) {
  char b[64];
  if (std::isnan(d)) return "\"nan\"";
  if (std::isinf(d)) return "\"inf\"";
  snprintf(b, sizeof b, "%.17g", d);
  return b;
}

template <typename V, typename R>
std::string quant(const Val& c) {
  Alloc alloc;
  std::vector<std::unique_ptr<hdk::quantile::Quantile>> qs;
  double q = c["q"].GetDouble();
  auto in = interp(gets(c, "interp"));
  List mid;
  auto show = [](R r) -> std::string {
    if (r == inline_null_value<R>()) return "[]";
    return "[" + dbl((double)r) + "]";
  };
  for (auto& p : c["parts"].GetArray()) {
    auto x = std::make_unique<hdk::quantile::Quantile>(&alloc);
    for (auto& v : p.GetArray()) x->add<V>((V)v.GetDouble());
    qs.push_back(std::move(x));
  }
  // merges in the given order: [[into, from], ...], everything ends in number 0
  for (auto& m : c["merges"].GetArray()) {
    if (geti(c, "peek")) mid.raw(show(qs[m[1].GetInt()]->quantile<V, R>(q, in)));
    qs[m[0].GetInt()]->merge(*qs[m[1].GetInt()]);
  }
  bool e = qs[0]->empty();
  std::string cur = show(qs[0]->quantile<V, R>(q, in));
  qs[0]->finalize<V, R>(q, in);
  std::string fin = show(qs[0]->quantile<V, R>(q, in));
  return "{\"k\":\"ok\",\"mid\":" + mid.done() + ",\"cur\":" + cur + ",\"fin\":" + fin + ",\"empty\":" + (e ? "1" : "0") + "}";
}

template <typename V>
std::string quant_r(const Val& c, const std::string& rt) {
  if (rt == "i8") return quant<V, int8_t>(c);
  if (rt == "i16") return quant<V, int16_t>(c);
  if (rt == "i32") return quant<V, int32_t>(c);
  if (rt == "i64") return quant<V, int64_t>(c);
  if (rt == "f32") return quant<V, float>(c);
  return quant<V, double>(c);
}

std::string run(const Val& c) {
  std::string op = gets(c, "op");
  if (op == "start") return "{\"k\":\"ok\"}";
  if (op == "like") {
    std::string fn = gets(c, "fn"), p = str(c["p"]);
    char esc = geti(c, "esc", '\\');
    const char* pp = gb.set(p);
    int pl = p.size();
    List l;
    bool nn = true;
    for (auto& x : c["ss"].GetArray()) {
      auto s = str(x);
      const char* sp = ga.set(s);
      int sl = s.size();
      int r, n;
      if (fn == "like") r = string_like(sp, sl, pp, pl, esc), n = string_like_nullable(sp, sl, pp, pl, esc, -128);
      else if (fn == "ilike") r = string_ilike(sp, sl, pp, pl, esc), n = string_ilike_nullable(sp, sl, pp, pl, esc, -128);
      else if (fn == "simple") r = string_like_simple(sp, sl, pp, pl), n = string_like_simple_nullable(sp, sl, pp, pl, -128);
      else if (fn == "isimple") r = string_ilike_simple(sp, sl, pp, pl), n = string_ilike_simple_nullable(sp, sl, pp, pl, -128);
      else r = regexp_like(sp, sl, pp, pl, esc), n = regexp_like_nullable(sp, sl, pp, pl, esc, -128);
      nn = nn && r == n;
      l.add(r);
    }
    int n;
    if (fn == "like") n = string_like_nullable(nullptr, 0, pp, pl, esc, -128);
    else if (fn == "ilike") n = string_ilike_nullable(nullptr, 0, pp, pl, esc, -128);
    else if (fn == "simple") n = string_like_simple_nullable(nullptr, 0, pp, pl, -128);
    else if (fn == "isimple") n = string_ilike_simple_nullable(nullptr, 0, pp, pl, -128);
    else n = regexp_like_nullable(nullptr, 0, pp, pl, esc, -128);
    return ok(l, nn && n == -128);
  }
  if (op == "cmp") {
    List l;
    bool nn = true;
    for (auto& x : c["ss"].GetArray()) {
      auto a = str(x[0]), b = str(x[1]);
      const char *p = ga.set(a), *q = gb.set(b);
      int m = a.size(), n = b.size();
      List y;
#define CMP(f)                                           \
  {                                                      \
    int r = f(p, m, q, n);                               \
    y.add(r);                                            \
    nn = nn && r == f##_nullable(p, m, q, n, -128);      \
    nn = nn && f##_nullable(nullptr, 0, q, n, -128) == -128; \
    nn = nn && f##_nullable(p, m, nullptr, 0, -128) == -128; \
  }
      CMP(string_lt)
      CMP(string_le)
      CMP(string_gt)
      CMP(string_ge)
      CMP(string_eq)
      CMP(string_ne)
      int r = StringCompare(p, m, q, n);
      y.add(r < 0 ? -1 : r > 0 ? 1 : 0);
      l.raw(y.done());
    }
    return ok(l, nn);
  }
  if (op == "ext") {
    auto f = field(kExtract, gets(c, "f"));
    List l;
    for (auto& v : c["vs"].GetArray()) l.add(ExtractFromTime(f, v.GetInt64()));
    return ok(l);
  }
  if (op == "trunc") {
    auto f = field(kTrunc, gets(c, "f"));
    List l;
    for (auto& v : c["vs"].GetArray()) l.add(DateTruncate(f, v.GetInt64()));
    return ok(l);
  }
  if (op == "add") {
    auto f = field(kAdd, gets(c, "f"));
    int64_t n = geti(c, "n");
    int p = geti(c, "p");
    List l;
    bool nn = true;
    for (auto& x : c["vs"].GetArray()) {
      int64_t v = x.GetInt64();
      int64_t r = DateAddHighPrecision(f, n, v, p);
      if (p == 0 && f != DateAddField::kMilli && f != DateAddField::kMicro && f != DateAddField::kNano) {
        nn = nn && r == DateAdd(f, n, v) && r == DateAddNullable(f, n, v, kNull) && DateAddNullable(f, n, v, v) == v;
      }
      nn = nn && r == DateAddHighPrecisionNullable(f, n, v, p, kNull) && DateAddHighPrecisionNullable(f, n, v, p, v) == v;
      l.add(r);
    }
    return ok(l, nn);
  }
  if (op == "diff") {
    auto f = field(kTrunc, gets(c, "f"));
    int p = geti(c, "p"), q = geti(c, "q");
    List l;
    bool nn = true;
    for (auto& x : c["vs"].GetArray()) {
      int64_t a = x[0].GetInt64(), b = x[1].GetInt64();
      int64_t r = DateDiffHighPrecision(f, a, b, p, q);
      if (p == 0 && q == 0) {
        nn = nn && r == DateDiff(f, a, b) && r == DateDiffNullable(f, a, b, kNull) && DateDiffNullable(f, a, b, a) == a && DateDiffNullable(f, a, b, b) == b;
      }
      nn = nn && r == DateDiffHighPrecisionNullable(f, a, b, p, q, kNull) && DateDiffHighPrecisionNullable(f, a, b, p, q, a) == a &&
           DateDiffHighPrecisionNullable(f, a, b, p, q, b) == b;
      l.add(r);
    }
    return ok(l, nn);
  }
  if (op == "todate") {
    int64_t scale = pow10(geti(c, "p"));
    List l;
    bool nn = true;
    for (auto& x : c["vs"].GetArray()) {
      int64_t v = x.GetInt64(), r = DateTruncateHighPrecisionToDate(v, scale);
      nn = nn && r == DateTruncateHighPrecisionToDateNullable(v, scale, kNull) && DateTruncateHighPrecisionToDateNullable(v, scale, v) == v &&
           r == truncate_high_precision_timestamp_to_date(v, scale);
      l.add(r);
    }
    return ok(l, nn);
  }
  if (op == "totime") {  // time of day of a timestamp of precision p, in precision q
    int p = geti(c, "p"), q = geti(c, "q");
    List l;
    bool nn = true;
    for (auto& x : c["vs"].GetArray()) {
      int64_t v = x.GetInt64(), r;
      if (p < q) {
        r = TimestampToTimeUpscale(v, pow10(q - p), pow10(q));
        nn = nn && r == TimestampToTimeUpscaleNullable(v, pow10(q - p), pow10(q), kNull, 7) &&
             TimestampToTimeUpscaleNullable(v, pow10(q - p), pow10(q), v, -7) == -7;
      } else {
        r = TimestampToTimeDownscale(v, pow10(p - q), pow10(p));
        nn = nn && r == TimestampToTimeDownscaleNullable(v, pow10(p - q), pow10(p), kNull, 7) &&
             TimestampToTimeDownscaleNullable(v, pow10(p - q), pow10(p), v, -7) == -7;
      }
      l.add(r);
    }
    return ok(l, nn);
  }
  if (op == "parse") {
    auto u = field(kUnit, gets(c, "u"));
    auto t = gets(c, "t");
    List l;
    for (auto& x : c["ss"].GetArray()) {
      auto s = str(x);
      std::string_view v(ga.set(s), s.size());
      auto r = t == "date" ? dateTimeParseOptional<hdk::ir::Type::kDate>(v, u)
               : t == "time" ? dateTimeParseOptional<hdk::ir::Type::kTime>(v, u)
                             : dateTimeParseOptional<hdk::ir::Type::kTimestamp>(v, u);
      l.raw(r ? "[" + std::to_string(*r) + "]" : "[]");
    }
    return ok(l);
  }
  if (op == "fmt") {  // all the ways to print an instant
    auto u = field(kUnit, gets(c, "u"));
    auto t = gets(c, "t");
    size_t max = geti(c, "max", 64);
    List l;
    for (auto& x : c["vs"].GetArray()) {
      int64_t v = x.GetInt64();
      std::vector<char> buf(max + 16, '#');
      if (t == "str") {
        l.raw(codes(getStrTStamp(v, u)));
      } else if (t == "strdate") {
        l.raw(codes(getStrDateFromSeconds(v)));
      } else if (t == "strtime") {
        l.raw(codes(getStrTimeFromSeconds(v)));
      } else {
        size_t n = t == "date" ? shared::formatDate(buf.data(), max, v)
                   : t == "hms" ? shared::formatHMS(buf.data(), max, v)
                                : shared::formatDateTime(buf.data(), max, v, u);
        for (int i = 0; i < 16; ++i) {
          if (buf[max + i] != '#') n = 1000;
        }
        l.raw(n == 1000 ? "[0]" : codes(std::string(buf.data(), n)));
      }
    }
    return ok(l);
  }
  if (op == "ivl") {
    auto t = gets(c, "t");
    if (t == "i8") return intervals<int8_t>(c);
    if (t == "u8") return intervals<uint8_t>(c);
    if (t == "i16") return intervals<int16_t>(c);
    if (t == "i32") return intervals<int32_t>(c);
    if (t == "u32") return intervals<uint32_t>(c);
    if (t == "i64") return intervals<int64_t>(c);
    return intervals<uint64_t>(c);
  }
  if (op == "sort") {
    auto alg = gets(c, "alg");
    auto t = gets(c, "t");
    if (t == "i32") return sorted<int32_t, uint32_t>(c, alg);
    if (t == "i16") return sorted<int16_t, int64_t>(c, alg);
    return sorted<int64_t, uint32_t>(c, alg);
  }
  if (op == "quant") {
    auto vt = gets(c, "vt"), rt = gets(c, "rt");
    if (vt == "i8") return quant_r<int8_t>(c, rt);
    if (vt == "i16") return quant_r<int16_t>(c, rt);
    if (vt == "i32") return quant_r<int32_t>(c, rt);
    if (vt == "i64") return quant_r<int64_t>(c, rt);
    if (vt == "f32") return quant_r<float>(c, rt);
    return quant_r<double>(c, rt);
  }
  if (op == "tdig") {
    using TDigest = quantile::detail::TDigest<double, size_t>;
    Alloc alloc;
    std::vector<std::unique_ptr<TDigest>> ds;
    double q0 = c["q0"].GetDouble();
    size_t nb = geti(c, "buf"), nc = geti(c, "cen");
    for (auto& p : c["parts"].GetArray()) {
      auto d = std::make_unique<TDigest>(q0, &alloc, nb, nc);
      d->allocate();
      for (auto& v : p.GetArray()) d->add(v.GetDouble());
      ds.push_back(std::move(d));
    }
    for (size_t i = 1; i < ds.size(); ++i) ds[0]->mergeTDigest(*ds[i]);
    ds[0]->mergeBuffer();
    List l;
    for (auto& q : c["qs"].GetArray()) l.raw(dbl(ds[0]->quantile(q.GetDouble())));
    return "{\"k\":\"ok\",\"r\":" + l.done() + ",\"w\":" + std::to_string(ds[0]->totalWeight()) + ",\"own\":" + dbl(ds[0]->quantile()) +
           "}";
  }
  if (op == "hll") {
    int bits = geti(c, "bits");
    size_t m = (size_t)1 << bits;
    bool gpu = geti(c, "gpu");
    CountDistinctDescriptor d{CountDistinctImplType::Bitmap, 0, bits, true, ExecutorDeviceType::CPU, 1};
    CountDistinctDescriptor dg{CountDistinctImplType::Bitmap, 0, bits, true, ExecutorDeviceType::GPU, 1};
    std::vector<std::vector<int8_t>> regs;
    for (auto& p : c["parts"].GetArray()) {
      std::vector<int8_t> r(m, 0);
      for (auto& v : p.GetArray()) r[v[0].GetInt64() & (m - 1)] = std::max<int8_t>(r[v[0].GetInt64() & (m - 1)], v[1].GetInt());
      regs.push_back(r);
    }
    List sizes;
    for (auto& r : regs) sizes.add(count_distinct_set_size((int64_t)r.data(), d));
    std::vector<int32_t> wide(regs[0].begin(), regs[0].end());
    for (size_t i = 1; i < regs.size(); ++i) {
      if (gpu) count_distinct_set_union((int64_t)wide.data(), (int64_t)regs[i].data(), dg, d);
      else count_distinct_set_union((int64_t)regs[0].data(), (int64_t)regs[i].data(), d, d);
    }
    int64_t total = gpu ? count_distinct_set_size((int64_t)wide.data(), dg) : count_distinct_set_size((int64_t)regs[0].data(), d);
    List out;
    for (size_t i = 0; i < m && m <= 256; ++i) out.add(gpu ? wide[i] : (int32_t)regs[0][i]);
    return "{\"k\":\"ok\",\"sizes\":" + sizes.done() + ",\"total\":" + std::to_string(total) + ",\"regs\":" + out.done() + "}";
  }
  if (op == "rank") {
    List l;
    for (auto& v : c["vs"].GetArray()) l.add((int)get_rank(v.GetUint64(), geti(c, "b")));
    return ok(l);
  }
  if (op == "hllsize") {
    List l;
    for (int i = 1; i <= 100; ++i) l.add(hll_size_for_rate(i));
    return ok(l);
  }
  if (op == "cds") {  // exact distinct counts: bitmap (with sub-bitmaps) or hash set, unions and sizes
    int64_t bits = geti(c, "bits");
    size_t sub = geti(c, "sub", 1);
    bool hash = geti(c, "hash"), gpu = geti(c, "gpu");
    CountDistinctDescriptor d{hash ? CountDistinctImplType::HashSet : CountDistinctImplType::Bitmap, 0, bits, false,
                              gpu ? ExecutorDeviceType::GPU : ExecutorDeviceType::CPU, sub};
    std::vector<std::unique_ptr<int64_t[]>> mem;
    std::vector<std::unique_ptr<robin_hood::unordered_set<int64_t>>> sets;
    std::vector<int64_t> h;
    for (auto& p : c["parts"].GetArray()) {
      if (hash) {
        sets.push_back(std::make_unique<robin_hood::unordered_set<int64_t>>());
        for (auto& v : p.GetArray()) sets.back()->insert(v[1].GetInt64());
        h.push_back((int64_t)sets.back().get());
      } else {
        size_t n = d.bitmapPaddedSizeBytes();
        mem.emplace_back(new int64_t[n / 8 + 2]());
        auto b = (int8_t*)mem.back().get();
        memset(b + n, 0xff, 8);
        for (auto& v : p.GetArray()) {
          auto s = b + (v[0].GetInt64() % sub) * (n / sub);
          s[v[1].GetInt64() >> 3] |= 1 << (v[1].GetInt64() & 7);
        }
        h.push_back((int64_t)b);
      }
    }
    List sizes;
    if (geti(c, "before")) {
      for (auto x : h) sizes.add(count_distinct_set_size(x, d));
    }
    for (size_t i = 1; i < h.size(); ++i) count_distinct_set_union(h[0], h[i], d, d);
    int64_t total = count_distinct_set_size(h[0], d);
    return "{\"k\":\"ok\",\"sizes\":" + sizes.done() + ",\"total\":" + std::to_string(total) +
           ",\"none\":" + std::to_string(count_distinct_set_size(0, d)) + "}";
  }
  if (op == "split") {
    std::optional<size_t> mx;
    if (geti(c, "max", -1) >= 0) mx = geti(c, "max");
    auto s = str(c["s"]), dl = str(c["d"]);
    List l;
    for (auto& x : split(s, dl, mx)) l.raw(codes(x));
    return ok(l);
  }
  if (op == "text") {
    auto s = str(c["s"]);
    auto fn = gets(c, "fn");
    if (fn == "strip") return "{\"k\":\"ok\",\"r\":" + codes(strip(s)) + "}";
    if (fn == "upper") return "{\"k\":\"ok\",\"r\":" + codes(to_upper(s)) + "}";
    if (fn == "lower") return "{\"k\":\"ok\",\"r\":" + codes(to_lower(s)) + "}";
    if (fn == "sanitize") return "{\"k\":\"ok\",\"r\":" + codes(simple_sanitize(s)) + "}";
    if (fn == "unnl") {
      bool b = remove_unquoted_newlines_linefeeds_and_tabs_from_sql_string(s);
      return "{\"k\":\"ok\",\"r\":" + codes(s) + ",\"b\":" + (b ? "1" : "0") + "}";
    }
    if (fn == "quoted") return "{\"k\":\"ok\",\"r\":" + codes(get_quoted_string(s)) + "}";
    if (fn == "substr") {
      auto r = substring(s, geti(c, "n"));
      return "{\"k\":\"ok\",\"r\":" + codes(std::string(r.first)) + ",\"p\":" + codes(r.second) + "}";
    }
    if (fn == "hide") return "{\"k\":\"ok\",\"r\":" + codes(hide_sensitive_data_from_query(s)) + "}";
    if (fn == "shim") return "{\"k\":\"ok\",\"r\":" + codes(pg_shim(s)) + "}";
    if (fn == "lits") {
      List l;
      auto v = find_string_literals(s);
      for (auto& x : v) {
        List y;
        y.add(x.first);
        y.add(x.second);
        l.raw(y.done());
      }
      List in;
      for (size_t i = 0; i < s.size(); ++i) {
        auto r = inside_string_literal(i, 1, v);
        in.raw(r ? std::to_string(*r) : "0");
      }
      return "{\"k\":\"ok\",\"r\":" + l.done() + ",\"in\":" + in.done() + "}";
    }
    if (fn == "b64") {
      auto e = shared::encode_base64(s);
      std::string back;
      try {
        back = shared::decode_base64(e);
      } catch (const std::exception& x) {
        back = "?";
      }
      return "{\"k\":\"ok\",\"r\":" + codes(e) + ",\"back\":" + codes(back) + "}";
    }
  }
  if (op == "join") {
    std::vector<std::string> v;
    for (auto& x : c["ss"].GetArray()) v.push_back(str(x));
    return "{\"k\":\"ok\",\"r\":" + codes(join(v, str(c["d"]))) + "}";
  }
  fprintf(stderr, "driver: unknown op %s\n", op.c_str());
  exit(90);
}

}  // namespace

int main(int argc, char** argv) {
  logger::LogOptions log_options(argv[0]);
  log_options.max_files_ = 0;
  log_options.severity_ = logger::Severity::FATAL;
  logger::init(log_options);
  std::string line;
  while (std::getline(std::cin, line)) {
    if (line.empty()) continue;
    auto c = parse(line);
    try {
      emit(run(c));
    } catch (const std::exception& x) {
      emit("{\"k\":\"throw\",\"m\":" + jstr(x.what()) + "}");
    }
  }
  return 0;
}
