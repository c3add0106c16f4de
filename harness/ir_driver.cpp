// Drives IR: types (Context, Type), expressions (equality, hash, rewriting, visiting), constants (casts, texts).
#include "common.h"

#include "Logger/Logger.h"

#include "IR/Context.h"
#include "IR/Expr.h"
#include "IR/ExprCollector.h"
#include "IR/ExprRewriter.h"
#include "IR/Type.h"
#include "Shared/sqltypes.h"

#include <cmath>
#include <set>

using namespace vf;
using namespace hdk::ir;

[[noreturn]] static void die(const std::string& what) {
  fprintf(stderr, "driver: %s\n", what.c_str());
  exit(90);
}

static Context ctxs[2];
static int cur = 0;

static const char* UN[] = {"m", "d", "s", "ms", "us", "ns"};
static TimeUnit unitOf(const std::string& s) {
  static const std::map<std::string, TimeUnit> m{{"m", TimeUnit::kMonth}, {"d", TimeUnit::kDay},    {"s", TimeUnit::kSecond},
                                                 {"ms", TimeUnit::kMilli}, {"us", TimeUnit::kMicro}, {"ns", TimeUnit::kNano}};
  return m.at(s);
}
static std::string unitName(TimeUnit u) {
  switch (u) {
    case TimeUnit::kMonth: return UN[0];
    case TimeUnit::kDay: return UN[1];
    case TimeUnit::kSecond: return UN[2];
    case TimeUnit::kMilli: return UN[3];
    case TimeUnit::kMicro: return UN[4];
    case TimeUnit::kNano: return UN[5];
  }
  return "?";
}

static const Type* mk(Context& c, const Val& t) {
  std::string k = gets(t, "k");
  bool n = geti(t, "n", 1);
  int s = geti(t, "s");
  if (k == "null") return c.null();
  if (k == "bool") return c.boolean(n);
  if (k == "int") return c.integer(s, n);
  if (k == "fp") return c.fp(s == 4 ? FloatingPointType::kFloat : FloatingPointType::kDouble, n);
  if (k == "dec") return c.decimal(s, geti(t, "p"), geti(t, "sc"), n);
  if (k == "varchar") return c.varChar(geti(t, "len"), n);
  if (k == "text") return c.text(n);
  if (k == "date") return c.date(s, unitOf(gets(t, "u")), n);
  if (k == "time") return c.time(s, unitOf(gets(t, "u")), n);
  if (k == "ts") return c.timestamp(unitOf(gets(t, "u")), n);
  if (k == "interval") return c.interval(s, unitOf(gets(t, "u")), n);
  if (k == "arrf") return c.arrayFixed(geti(t, "len"), mk(c, t["e"]), n);
  if (k == "arrv") return c.arrayVarLen(mk(c, t["e"]), geti(t, "os"), n);
  if (k == "dict") return c.extDict(mk(c, t["e"]), geti(t, "id"), s);
  if (k == "col") return c.column(mk(c, t["e"]), n);
  if (k == "collist") return c.columnList(mk(c, t["e"]), geti(t, "len"), n);
  die("type kind " + k);
}

// The description of a type, read through its public interface.
static std::string desc(const Type* t) {
  std::ostringstream o;
  int n = t->nullable();
  auto num = [&](const char* k, long v) { o << ",\"" << k << "\":" << v; };
  auto kind = [&](const char* k) { o << "{\"k\":\"" << k << "\""; };
  auto unit = [&] { o << ",\"u\":\"" << unitName(t->as<DateTimeBaseType>()->unit()) << "\""; };
  switch (t->id()) {
    case Type::kNull: kind("null"); o << "}"; return o.str();
    case Type::kBoolean: kind("bool"); break;
    case Type::kInteger: kind("int"); num("s", t->size()); break;
    case Type::kFloatingPoint: kind("fp"); num("s", t->as<FloatingPointType>()->precision() == FloatingPointType::kFloat ? 4 : 8); break;
    case Type::kDecimal: kind("dec"); num("s", t->size()); num("p", t->as<DecimalType>()->precision()); num("sc", t->as<DecimalType>()->scale()); break;
    case Type::kVarChar: kind("varchar"); num("len", t->as<VarCharType>()->maxLength()); break;
    case Type::kText: kind("text"); break;
    case Type::kDate: kind("date"); num("s", t->size()); unit(); break;
    case Type::kTime: kind("time"); num("s", t->size()); unit(); break;
    case Type::kTimestamp: kind("ts"); unit(); break;
    case Type::kInterval: kind("interval"); num("s", t->size()); unit(); break;
    case Type::kFixedLenArray: kind("arrf"); num("len", t->as<FixedLenArrayType>()->numElems()); o << ",\"e\":" << desc(t->as<ArrayBaseType>()->elemType()); break;
    case Type::kVarLenArray: kind("arrv"); num("os", t->as<VarLenArrayType>()->offsetSize()); o << ",\"e\":" << desc(t->as<ArrayBaseType>()->elemType()); break;
    case Type::kExtDictionary: {
      auto d = t->as<ExtDictionaryType>();
      kind("dict"); num("s", t->size()); num("id", d->dictId()); o << ",\"e\":" << desc(d->elemType());
      break;
    }
    case Type::kColumn: kind("col"); o << ",\"e\":" << desc(t->as<ColumnType>()->columnType()); break;
    case Type::kColumnList: kind("collist"); num("len", t->as<ColumnListType>()->length()); o << ",\"e\":" << desc(t->as<ColumnListType>()->columnType()); break;
  }
  num("n", n);
  o << "}";
  return o.str();
}

static std::string facts(const Type* t) {
  std::ostringstream o;
  o << "{\"size\":" << t->size() << ",\"csize\":" << t->canonicalSize() << ",\"nullable\":" << t->nullable() << ",\"is\":[";
  bool b[] = {t->isNull(), t->isBoolean(), t->isInteger(), t->isFloatingPoint(), t->isDecimal(), t->isVarChar(), t->isText(), t->isDate(), t->isTime(),
              t->isTimestamp(), t->isInterval(), t->isFixedLenArray(), t->isVarLenArray(), t->isExtDictionary(), t->isColumn(), t->isColumnList(),
              t->isInt8(), t->isInt16(), t->isInt32(), t->isInt64(), t->isFp32(), t->isFp64(), t->isNumber(), t->isString(), t->isDateTime(), t->isArray(),
              t->isVarLen(), t->isBuffer()};
  for (size_t i = 0; i < sizeof(b); ++i) o << (i ? "," : "") << int(b[i]);
  o << "]}";
  return o.str();
}

// ---- expressions ------------------------------------------------------------------------------------------------
static std::string fpText(double v) {
  if (std::isnan(v)) return "nan";
  char buf[512];
  snprintf(buf, sizeof buf, "%.60f", v);
  std::string s(buf);
  while (s.back() == '0') s.pop_back();
  if (s.back() == '.') s.pop_back();
  if (s == "-0") s = "0";
  return s;
}

static Datum datum(const Type* t, const std::string& v) {
  Datum d;
  memset(&d, 0, sizeof d);
  switch (t->id()) {
    case Type::kBoolean: d.boolval = v == "1"; break;
    case Type::kInteger:
    case Type::kDecimal:
      switch (t->size()) {
        case 1: d.tinyintval = std::stoll(v); break;
        case 2: d.smallintval = std::stoll(v); break;
        case 4: d.intval = std::stoll(v); break;
        case 8: d.bigintval = std::stoll(v); break;
      }
      break;
    case Type::kFloatingPoint:
      if (t->size() == 4) d.floatval = std::stof(v); else d.doubleval = std::stod(v);
      break;
    case Type::kVarChar:
    case Type::kText: d.stringval = new std::string(v); break;
    default: d.bigintval = std::stoll(v);
  }
  return d;
}

static std::string value(const Type* t, const Datum& d) {
  switch (t->id()) {
    case Type::kBoolean: return d.boolval ? "1" : "0";
    case Type::kInteger:
    case Type::kDecimal:
      switch (t->size()) {
        case 1: return std::to_string(d.tinyintval);
        case 2: return std::to_string(d.smallintval);
        case 4: return std::to_string(d.intval);
        default: return std::to_string(d.bigintval);
      }
    case Type::kFloatingPoint: return fpText(t->size() == 4 ? d.floatval : d.doubleval);
    case Type::kVarChar:
    case Type::kText: return d.stringval ? *d.stringval : std::string("<null>");
    default: return std::to_string(d.bigintval);
  }
}

static const std::vector<std::pair<std::string, OpType>> OPS = {
    {"eq", OpType::kEq}, {"bweq", OpType::kBwEq}, {"ne", OpType::kNe}, {"lt", OpType::kLt}, {"gt", OpType::kGt}, {"le", OpType::kLe}, {"ge", OpType::kGe},
    {"and", OpType::kAnd}, {"or", OpType::kOr}, {"minus", OpType::kMinus}, {"plus", OpType::kPlus}, {"mul", OpType::kMul}, {"div", OpType::kDiv},
    {"mod", OpType::kMod}, {"at", OpType::kArrayAt}, {"band", OpType::kBwAnd}, {"bor", OpType::kBwOr}, {"bxor", OpType::kBwXor},
    {"not", OpType::kNot}, {"bnot", OpType::kBwNot}, {"neg", OpType::kUMinus}, {"isnull", OpType::kIsNull}, {"cast", OpType::kCast}, {"unnest", OpType::kUnnest}};
static OpType opOf(const std::string& s) {
  for (auto& p : OPS) if (p.first == s) return p.second;
  die("op " + s);
}
static std::string opName(OpType o) {
  for (auto& p : OPS) if (p.second == o) return p.first;
  return "op?" + std::to_string((int)o);
}

static ExprPtr build(const Val& e);
static ExprPtr buildOpt(const Val& e, const char* k) {
  if (!e.HasMember(k) || gets(e[k], "x") == "none") return nullptr;
  return build(e[k]);
}
static ExprPtrVector buildVec(const Val& a) {
  ExprPtrVector v;
  for (auto& x : a.GetArray()) v.push_back(build(x));
  return v;
}

static ExprPtr build(const Val& e) {
  Context& c = ctxs[cur];
  std::string k = gets(e, "x");
  auto ty = [&] { return mk(c, e["t"]); };
  if (k == "col") return makeExpr<ColumnVar>(ty(), geti(e, "db"), geti(e, "tab"), geti(e, "c"), geti(e, "rte"));
  if (k == "var") {
    auto ci = std::make_shared<ColumnInfo>(geti(e, "db"), geti(e, "tab"), geti(e, "c"), "", ty(), false);
    return makeExpr<Var>(ci, geti(e, "rte"), (Var::WhichRow)geti(e, "row"), geti(e, "no"));
  }
  if (k == "const") {
    auto t = ty();
    if (geti(e, "null")) {
      Datum d;
      memset(&d, 0, sizeof d);
      return makeExpr<Constant>(t, true, d);
    }
    return makeExpr<Constant>(t, false, datum(t, gets(e, "v")));
  }
  if (k == "tuple") return makeExpr<ExpressionTuple>(buildVec(e["args"]));
  if (k == "u") return makeExpr<UOper>(ty(), (bool)geti(e, "agg"), opOf(gets(e, "op")), build(e["a"]), (bool)geti(e, "di"));
  if (k == "b") return makeExpr<BinOper>(ty(), (bool)geti(e, "agg"), opOf(gets(e, "op")), (Qualifier)geti(e, "q"), build(e["a"]), build(e["b"]));
  if (k == "in") {
    auto v = buildVec(e["args"]);
    return makeExpr<InValues>(build(e["a"]), ExprPtrList(v.begin(), v.end()));
  }
  if (k == "inset") {
    std::vector<int64_t> v;
    for (auto& x : e["vs"].GetArray()) v.push_back(x.GetInt64());
    return makeExpr<InIntegerSet>(build(e["a"]), v, (bool)geti(e, "nn"));
  }
  if (k == "charlen") return makeExpr<CharLengthExpr>(build(e["a"]), (bool)geti(e, "enc"));
  if (k == "key") return makeExpr<KeyForStringExpr>(build(e["a"]));
  if (k == "ratio") return makeExpr<SampleRatioExpr>(build(e["a"]));
  if (k == "lower") return makeExpr<LowerExpr>(build(e["a"]));
  if (k == "card") return makeExpr<CardinalityExpr>(build(e["a"]));
  if (k == "like") return makeExpr<LikeExpr>(build(e["a"]), build(e["b"]), buildOpt(e, "esc"), (bool)geti(e, "il"), (bool)geti(e, "sim"));
  if (k == "regexp") return makeExpr<RegexpExpr>(build(e["a"]), build(e["b"]), buildOpt(e, "esc"));
  if (k == "bucket") return makeExpr<WidthBucketExpr>(build(e["a"]), build(e["b"]), build(e["c1"]), build(e["d"]));
  if (k == "likely") return makeExpr<LikelihoodExpr>(build(e["a"]), (float)(geti(e, "l") / 16.0));
  if (k == "agg") return makeExpr<AggExpr>(ty(), (AggType)geti(e, "at"), buildOpt(e, "a"), (bool)geti(e, "dist"), buildOpt(e, "a1"), (Interpolation)geti(e, "ip"));
  if (k == "case") {
    std::list<std::pair<ExprPtr, ExprPtr>> ps;
    auto w = e["ws"].GetArray();
    for (auto& p : w) ps.emplace_back(build(p["c"]), build(p["v"]));
    return makeExpr<CaseExpr>(ty(), (bool)geti(e, "agg"), ps, buildOpt(e, "els"));
  }
  if (k == "extract") return makeExpr<ExtractExpr>(ty(), (bool)geti(e, "agg"), (DateExtractField)geti(e, "f"), build(e["a"]));
  if (k == "dadd") return makeExpr<DateAddExpr>(ty(), (DateAddField)geti(e, "f"), build(e["a"]), build(e["b"]));
  if (k == "ddiff") return makeExpr<DateDiffExpr>(ty(), (DateTruncField)geti(e, "f"), build(e["a"]), build(e["b"]));
  if (k == "dtrunc") return makeExpr<DateTruncExpr>(ty(), (bool)geti(e, "agg"), (DateTruncField)geti(e, "f"), build(e["a"]));
  if (k == "fn") return makeExpr<FunctionOper>(ty(), gets(e, "name"), buildVec(e["args"]));
  if (k == "fnc") return makeExpr<FunctionOperWithCustomTypeHandling>(ty(), gets(e, "name"), buildVec(e["args"]));
  if (k == "win") {
    std::vector<OrderEntry> co;
    for (auto& x : e["co"].GetArray()) co.emplace_back(x[0].GetInt(), x[1].GetInt(), x[2].GetInt());
    return makeExpr<WindowFunction>(ty(), (WindowFunctionKind)geti(e, "kind"), buildVec(e["args"]), buildVec(e["pk"]), buildVec(e["ok"]), co);
  }
  if (k == "arr") return makeExpr<ArrayExpr>(ty(), buildVec(e["args"]), (bool)geti(e, "null"), (bool)geti(e, "la"));
  if (k == "offs") return makeExpr<OffsetInFragment>();
  die("expr " + k);
}

static std::string show(const Expr* e);
static std::string showOpt(const Expr* e) { return e ? show(e) : "{\"x\":\"none\"}"; }
template <class C>
static std::string showVec(const C& v) {
  std::string s = "[";
  bool first = true;
  for (auto& x : v) {
    s += (first ? "" : ",") + show(x.get());
    first = false;
  }
  return s + "]";
}

// The expression as a term again, read through the public interface.
static std::string show(const Expr* e) {
  std::ostringstream o;
  auto h = [&](const char* k) { o << "{\"x\":\"" << k << "\""; };
  auto t = [&] { o << ",\"t\":" << desc(e->type()); };
  auto num = [&](const char* k, int64_t v) { o << ",\"" << k << "\":" << v; };
  auto raw = [&](const char* k, const std::string& v) { o << ",\"" << k << "\":" << v; };
  auto sub = [&](const char* k, const Expr* x) { raw(k, showOpt(x)); };
  if (auto v = e->as<Var>()) {
    h("var"); t(); num("db", v->dbId()); num("tab", v->tableId()); num("c", v->columnId()); num("rte", v->rteIdx()); num("row", v->whichRow()); num("no", v->varNo());
  } else if (auto v = e->as<ColumnVar>()) {
    h("col"); t(); num("db", v->dbId()); num("tab", v->tableId()); num("c", v->columnId()); num("rte", v->rteIdx());
  } else if (auto v = e->as<Constant>()) {
    h("const"); t(); num("null", v->isNull()); raw("v", jstr(v->isNull() ? "" : value(v->type(), v->value())));
  } else if (auto v = e->as<ExpressionTuple>()) {
    h("tuple"); raw("args", showVec(v->tuple()));
  } else if (auto v = e->as<UOper>()) {
    h("u"); t(); num("agg", v->containsAgg()); raw("op", jstr(opName(v->opType()))); sub("a", v->operand()); num("di", v->isDictIntersection());
  } else if (auto v = e->as<BinOper>()) {
    h("b"); t(); num("agg", v->containsAgg()); raw("op", jstr(opName(v->opType()))); num("q", (int)v->qualifier()); sub("a", v->leftOperand()); sub("b", v->rightOperand());
  } else if (auto v = e->as<InValues>()) {
    h("in"); sub("a", v->arg()); raw("args", showVec(v->valueList()));
  } else if (auto v = e->as<InIntegerSet>()) {
    h("inset"); sub("a", v->arg()); num("nn", !v->type()->nullable()); o << ",\"vs\":[";
    for (size_t i = 0; i < v->valueList().size(); ++i) o << (i ? "," : "") << v->valueList()[i];
    o << "]";
  } else if (auto v = e->as<CharLengthExpr>()) {
    h("charlen"); sub("a", v->arg()); num("enc", v->calcEncodedLength());
  } else if (auto v = e->as<KeyForStringExpr>()) {
    h("key"); sub("a", v->arg());
  } else if (auto v = e->as<SampleRatioExpr>()) {
    h("ratio"); sub("a", v->arg());
  } else if (auto v = e->as<LowerExpr>()) {
    h("lower"); sub("a", v->arg());
  } else if (auto v = e->as<CardinalityExpr>()) {
    h("card"); sub("a", v->arg());
  } else if (auto v = e->as<LikeExpr>()) {
    h("like"); sub("a", v->arg()); sub("b", v->likeExpr()); sub("esc", v->escapeExpr()); num("il", v->isIlike()); num("sim", v->isSimple());
  } else if (auto v = e->as<RegexpExpr>()) {
    h("regexp"); sub("a", v->arg()); sub("b", v->patternExpr()); sub("esc", v->escapeExpr());
  } else if (auto v = e->as<WidthBucketExpr>()) {
    h("bucket"); sub("a", v->targetValue()); sub("b", v->lowerBound()); sub("c1", v->upperBound()); sub("d", v->partitionCount());
  } else if (auto v = e->as<LikelihoodExpr>()) {
    h("likely"); sub("a", v->arg()); num("l", std::lround(v->likelihood() * 16));
  } else if (auto v = e->as<AggExpr>()) {
    h("agg"); t(); num("at", (int)v->aggType()); sub("a", v->arg()); num("dist", v->isDistinct()); sub("a1", v->arg1()); num("ip", (int)v->interpolation());
  } else if (auto v = e->as<CaseExpr>()) {
    h("case"); t(); num("agg", v->containsAgg()); o << ",\"ws\":[";
    bool first = true;
    for (auto& p : v->exprPairs()) {
      o << (first ? "" : ",") << "{\"c\":" << show(p.first.get()) << ",\"v\":" << show(p.second.get()) << "}";
      first = false;
    }
    o << "]"; sub("els", v->elseExpr());
  } else if (auto v = e->as<ExtractExpr>()) {
    h("extract"); t(); num("agg", v->containsAgg()); num("f", (int)v->field()); sub("a", v->from());
  } else if (auto v = e->as<DateAddExpr>()) {
    h("dadd"); t(); num("f", (int)v->field()); sub("a", v->number()); sub("b", v->datetime());
  } else if (auto v = e->as<DateDiffExpr>()) {
    h("ddiff"); t(); num("f", (int)v->field()); sub("a", v->start()); sub("b", v->end());
  } else if (auto v = e->as<DateTruncExpr>()) {
    h("dtrunc"); t(); num("agg", v->containsAgg()); num("f", (int)v->field()); sub("a", v->from());
  } else if (auto v = e->as<FunctionOper>()) {
    h(e->is<FunctionOperWithCustomTypeHandling>() ? "fnc" : "fn"); t(); raw("name", jstr(v->name())); o << ",\"args\":[";
    for (size_t i = 0; i < v->arity(); ++i) o << (i ? "," : "") << show(v->arg(i));
    o << "]";
  } else if (auto v = e->as<WindowFunction>()) {
    h("win"); t(); num("kind", (int)v->kind()); raw("args", showVec(v->args())); raw("pk", showVec(v->partitionKeys())); raw("ok", showVec(v->orderKeys())); o << ",\"co\":[";
    for (size_t i = 0; i < v->collation().size(); ++i) {
      auto& c = v->collation()[i];
      o << (i ? "," : "") << "[" << c.tle_no << "," << int(c.is_desc) << "," << int(c.nulls_first) << "]";
    }
    o << "]";
  } else if (auto v = e->as<ArrayExpr>()) {
    h("arr"); t(); o << ",\"args\":[";
    for (size_t i = 0; i < v->elementCount(); ++i) o << (i ? "," : "") << show(v->element(i));
    o << "]"; num("null", v->isNull()); num("la", v->isLocalAlloc());
  } else if (e->as<OffsetInFragment>()) {
    h("offs");
  } else {
    h("other");
  }
  o << "}";
  return o.str();
}

struct ColMap : public ExprRewriter {
  std::map<std::pair<int, int>, ExprPtr> m;
  ExprPtr visitColumnVar(const ColumnVar* c) override {
    auto it = m.find({c->tableId(), c->columnId()});
    return it == m.end() ? defaultResult(c) : it->second;
  }
};

struct Cols : public ExprCollector<std::set<std::pair<int, int>>, Cols> {
  void visitColumnVar(const ColumnVar* c) override { result_.insert({c->tableId(), c->columnId()}); }
};

static std::string run(const Val& c) {
  std::string op = gets(c, "op");
  std::ostringstream o;
  cur = geti(c, "ctx");
  if (op == "start") return "{\"started\":1}";
  if (op == "mk") {
    const Type* t;
    try {
      t = mk(ctxs[cur], c["t"]);
    } catch (const std::exception&) {
      bool again = false;
      try {
        const Type* u = mk(ctxs[cur], c["t"]);
        again = true;
        if (!u) again = true;
      } catch (const std::exception&) {
      }
      o << "{\"ok\":0,\"again\":" << again << "}";
      return o.str();
    }
    const Type* u = mk(ctxs[cur], c["t"]);
    o << "{\"ok\":1,\"same\":" << (t == u) << ",\"d\":" << desc(t) << ",\"str\":" << jstr(t->toString()) << ",\"canon\":" << desc(t->canonicalize()) << ",\"nn\":" << desc(t->withNullable(false))
      << ",\"nu\":" << desc(t->withNullable(true)) << ",\"f\":" << facts(t) << ",\"own\":" << (&t->ctx() == &ctxs[cur] && &t->canonicalize()->ctx() == &ctxs[cur]);
    // reading the printed name back
    o << ",\"back\":";
    try {
      o << desc(ctxs[cur].typeFromString(t->toString()));
    } catch (const std::exception& e) {
      o << "{\"k\":\"error\"}";
    }
    if (t->isArray() && c.HasMember("e2")) o << ",\"we\":" << desc(t->as<ArrayBaseType>()->withElemType(mk(ctxs[cur], c["e2"])));
    o << "}";
  } else if (op == "teq") {
    auto a = mk(ctxs[geti(c, "ca")], c["a"]);
    auto b = mk(ctxs[geti(c, "cb")], c["b"]);
    o << "{\"eq\":" << a->equal(b) << ",\"eqr\":" << b->equal(*a) << ",\"op\":" << (*a == *b) << "}";
  } else if (op == "copy") {
    auto a = mk(ctxs[geti(c, "ca")], c["t"]);
    try {
      auto b = a->copyTo(ctxs[geti(c, "cb")]);
      auto e = mk(ctxs[geti(c, "cb")], c["t"]);
      o << "{\"ok\":1,\"d\":" << desc(b) << ",\"own\":" << (b == e) << ",\"eq\":" << (a->equal(b) && b->equal(a)) << "}";
    } catch (const std::exception& e) {
      o << "{\"ok\":0,\"msg\":" << jstr(e.what()) << "}";
    }
  } else if (op == "tparse") {
    try {
      auto t = ctxs[cur].typeFromString(gets(c, "text"));
      o << "{\"ok\":1,\"d\":" << desc(t) << "}";
    } catch (const std::exception&) {
      o << "{\"ok\":0}";
    }
  } else if (op == "ecmp") {
    auto a = build(c["a"]), b = build(c["b"]);
    o << "{\"eq\":" << (*a == *b) << ",\"eqr\":" << b->equal(a.get()) << ",\"h\":" << (a->hash() == b->hash()) << ",\"self\":" << (*a == *a && *b == *b) << ",\"h2\":" << (a->hash() == a->hash())
      << ",\"sa\":" << show(a.get()) << "}";
  } else if (op == "erw") {
    auto a = build(c["e"]);
    auto before = show(a.get());
    ColMap m;
    for (auto& x : c["map"].GetArray()) m.m[{(int)geti(x, "tab"), (int)geti(x, "c")}] = build(x["to"]);
    auto r = m.visit(a.get());
    auto cols = Cols::collect(a);
    ColMap id;
    o << "{\"r\":" << show(r.get()) << ",\"kept\":" << (show(a.get()) == before) << ",\"same\":" << (id.visit(a.get()).get() == a.get()) << ",\"again\":" << (*m.visit(a.get()) == *r) << ",\"cols\":[";
    bool first = true;
    for (auto& p : cols) {
      o << (first ? "" : ",") << "[" << p.first << "," << p.second << "]";
      first = false;
    }
    o << "]}";
  } else if (op == "etype") {
    auto a = build(c["e"]);
    auto r = a->withType(mk(ctxs[cur], c["to"]));
    o << "{\"r\":" << show(r.get()) << ",\"rt\":" << desc(r->type()) << "}";
  } else if (op == "ccast") {
    auto a = build(c["e"]);
    try {
      auto r = a->cast(mk(ctxs[cur], c["to"]));
      o << "{\"ok\":1,\"r\":" << show(r.get()) << "}";
    } catch (const std::exception& e) {
      o << "{\"ok\":0}";
    }
  } else if (op == "cint") {
    auto r = Constant::make(mk(ctxs[cur], c["t"]), std::stoll(gets(c, "v")));
    o << "{\"ok\":1,\"r\":" << show(r.get()) << "}";
  } else if (op == "dread") {
    auto t = mk(ctxs[cur], c["t"]);
    try {
      auto d = StringToDatum(gets(c, "text"), t);
      o << "{\"ok\":1,\"v\":" << jstr(value(t, d)) << "}";
    } catch (const std::exception& e) {
      o << "{\"ok\":0}";
    }
  } else if (op == "dprint") {
    auto t = mk(ctxs[cur], c["t"]);
    Datum d = datum(t, gets(c, "v"));
    o << "{\"text\":" << jstr(DatumToString(d, t)) << "}";
    if (t->isString()) delete d.stringval;
  } else {
    die("op " + op);
  }
  return o.str();
}

int main(int argc, char** argv) {
  logger::LogOptions log_options(argv[0]);
  log_options.max_files_ = 0;
  log_options.severity_ = logger::Severity::FATAL;
  logger::init(log_options);
  std::string line;
  while (std::getline(std::cin, line)) {
    if (line.empty()) continue;
    Json c = parse(line);
    try {
      emit("{\"k\":\"ok\"," + run(c).substr(1));
    } catch (const std::exception& x) {
      emit("{\"k\":\"throw\",\"m\":" + jstr(x.what()) + "}");
    }
  }
  return 0;
}
