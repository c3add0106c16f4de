// Conformance driver of the query engine.  Reads one JSON command per line, prints one JSON result per line.
#include "common.h"
#include "vstorage.h"

#include "Analyzer/Analyzer.h"
#include "DataMgr/DataMgr.h"
#include "DataMgr/PersistentStorageMgr/PersistentStorageMgr.h"
#include "IR/Expr.h"
#include "QueryBuilder/QueryBuilder.h"
#include "QueryEngine/RelAlgExecutor.h"
#include "ResultSetRegistry/ResultSetRegistry.h"
#include "SchemaMgr/SchemaMgr.h"

#include <cmath>
#include <thread>

extern bool g_is_test_env;

using namespace vf;
using namespace hdk::ir;

namespace {

struct Env {
  ConfigPtr config;
  std::shared_ptr<VStorage> storage;
  std::shared_ptr<Data_Namespace::DataMgr> data_mgr;
  std::shared_ptr<hdk::ResultSetRegistry> registry;
  std::shared_ptr<SchemaMgr> schema_mgr;
  std::shared_ptr<Executor> executor;
  std::map<std::string, ExecutionResult> kept;
};

void applyCfg(Config& c, const std::string& k, int64_t v) {
  if (k == "columnar") c.rs.enable_columnar_output = v;
  else if (k == "row_init") c.rs.optimize_row_initialization = v;
  else if (k == "direct_col") c.rs.enable_direct_columnarization = v;
  else if (k == "lazy") c.rs.enable_lazy_fetch = v;
  else if (k == "loop_join") c.exec.join.allow_loop_joins = v;
  else if (k == "trivial_loop") c.exec.join.trivial_loop_join_threshold = v;
  else if (k == "huge_join") c.exec.join.huge_join_hash_threshold = v;
  else if (k == "huge_load") c.exec.join.huge_join_hash_min_load = v;
  else if (k == "multifrag_kernels") c.exec.group_by.enable_cpu_multifrag_kernels = v;
  else if (k == "baseline_threshold") c.exec.group_by.baseline_threshold = v;
  else if (k == "big_group") c.exec.group_by.big_group_threshold = v;
  else if (k == "groups_guess") c.exec.group_by.default_max_groups_buffer_entry_guess = v;
  else if (k == "bigint_count") c.exec.group_by.bigint_count = v;
  else if (k == "buf_desc") c.exec.group_by.use_groupby_buffer_desc = v;
  else if (k == "partitioned") c.exec.group_by.enable_cpu_partitioned_groupby = v;
  else if (k == "part_buf") c.exec.group_by.partitioning_buffer_size_threshold = v;
  else if (k == "part_group") c.exec.group_by.partitioning_group_size_threshold = v / 10.0;
  else if (k == "part_min") c.exec.group_by.min_partitions = v;
  else if (k == "part_max") c.exec.group_by.max_partitions = v;
  else if (k == "part_target") c.exec.group_by.partitioning_buffer_target_size = v;
  else if (k == "large_ndv") c.exec.group_by.large_ndv_threshold = v;
  else if (k == "sub_tasks") c.exec.sub_tasks.enable = v;
  else if (k == "sub_task_size") c.exec.sub_tasks.sub_task_size = v;
  else if (k == "watchdog") c.exec.watchdog.enable = v;
  else if (k == "win_par") c.exec.window_func.parallel_window_partition_compute = v;
  else if (k == "win_par_thr") c.exec.window_func.parallel_window_partition_compute_threshold = v;
  else if (k == "win_sort") c.exec.window_func.parallel_window_partition_sort = v;
  else if (k == "win_sort_thr") c.exec.window_func.parallel_window_partition_sort_threshold = v;
  else if (k == "hoist") c.exec.codegen.hoist_literals = v;
  else if (k == "filter_fn") c.exec.codegen.enable_filter_function = v;
  else if (k == "null_div") c.exec.codegen.null_div_by_zero = v;
  else if (k == "inf_div") c.exec.codegen.inf_div_by_zero = v;
  else if (k == "null_mod") c.exec.codegen.null_mod_by_zero = v;
  else if (k == "topn") c.exec.streaming_topn_max = v;
  else if (k == "ptop") c.exec.parallel_top_min = v;
  else if (k == "par_lin") c.exec.parallel_linearization_threshold = v;
  else if (k == "multifrag_rs") c.exec.enable_multifrag_rs = v;
  else if (k == "multifrag_res") c.exec.enable_multifrag_execution_result = v;
  else if (k == "mat_inner") c.exec.materialize_inner_join_tables = v;
  else if (k == "pushdown") c.opts.filter_pushdown.enable = v;
  else if (k == "reorder") c.opts.from_table_reordering = v;
  else if (k == "in_thr") c.opts.constrained_by_in_threshold = v;
  else if (k == "lj_hoist") c.opts.enable_left_join_filter_hoisting = v;
  else if (k == "recycler") c.cache.enable_data_recycler = v;
  else if (k == "ht_cache") c.cache.use_hashtable_cache = v;
  else if (k == "est_cache") c.cache.use_estimator_result_cache = v;
  else if (k == "cpu_mem") c.mem.cpu.max_size = v;
  else if (k == "cpu_min_slab") c.mem.cpu.min_slab_size = v;
  else if (k == "cpu_max_slab") c.mem.cpu.max_slab_size = v;
  else if (k == "exp_str") c.exec.enable_experimental_string_functions = v;
  else {
    fprintf(stderr, "driver: unknown config key %s\n", k.c_str());
    exit(91);
  }
}

std::unique_ptr<Env> makeEnv(const Val& cmd) {
  auto e = std::make_unique<Env>();
  e->config = std::make_shared<Config>();
  e->config->mem.cpu.max_size = 1ULL << 30;
  e->config->mem.cpu.min_slab_size = 1 << 20;
  e->config->mem.cpu.max_slab_size = 1 << 26;
  if (cmd.HasMember("cfg")) {
    for (auto m = cmd["cfg"].MemberBegin(); m != cmd["cfg"].MemberEnd(); ++m) {
      applyCfg(*e->config, m->name.GetString(), m->value.GetInt64());
    }
  }
  e->storage = std::make_shared<VStorage>(geti(cmd, "zc"));
  e->data_mgr = std::make_shared<Data_Namespace::DataMgr>(*e->config, false);
  e->data_mgr->getPersistentStorageMgr()->registerDataProvider(kSchemaId, e->storage);
  e->executor = Executor::getExecutor(e->data_mgr.get(), e->config, "", "");
  e->registry = hdk::ResultSetRegistry::getOrCreate(e->data_mgr.get(), e->config);
  e->schema_mgr = std::make_shared<SchemaMgr>();
  e->schema_mgr->registerProvider(kSchemaId, e->storage);
  e->schema_mgr->registerProvider(hdk::ResultSetRegistry::SCHEMA_ID, e->registry);
  e->executor->setSchemaProvider(e->schema_mgr);
  return e;
}

struct Ctx {
  Env& env;
  QueryBuilder& b;
  std::vector<BuilderNode> in;  // input nodes of the expression being built
};

BuilderNode buildNode(Env& env, QueryBuilder& b, const Val& q);

DateAddField addField(const std::string& s) {
  static const std::map<std::string, DateAddField> m = {
      {"year", DateAddField::kYear},     {"quarter", DateAddField::kQuarter}, {"month", DateAddField::kMonth},
      {"day", DateAddField::kDay},       {"hour", DateAddField::kHour},       {"minute", DateAddField::kMinute},
      {"second", DateAddField::kSecond}, {"week", DateAddField::kWeek},       {"decade", DateAddField::kDecade},
      {"century", DateAddField::kCentury}, {"millennium", DateAddField::kMillennium}};
  return m.at(s);
}
DateTruncField truncField(const std::string& s) {
  static const std::map<std::string, DateTruncField> m = {
      {"year", DateTruncField::kYear},     {"quarter", DateTruncField::kQuarter}, {"month", DateTruncField::kMonth},
      {"day", DateTruncField::kDay},       {"hour", DateTruncField::kHour},       {"minute", DateTruncField::kMinute},
      {"second", DateTruncField::kSecond}, {"week", DateTruncField::kWeek},       {"decade", DateTruncField::kDecade},
      {"week_sunday", DateTruncField::kWeekSunday}, {"week_saturday", DateTruncField::kWeekSaturday},
      {"quarterday", DateTruncField::kQuarterDay},
      {"century", DateTruncField::kCentury}, {"millennium", DateTruncField::kMillennium}};
  return m.at(s);
}

BuilderExpr buildExpr(Ctx& c, const Val& x);

std::vector<BuilderExpr> buildExprs(Ctx& c, const Val& xs) {
  std::vector<BuilderExpr> r;
  for (auto& x : xs.GetArray()) {
    r.push_back(buildExpr(c, x));
  }
  return r;
}

BuilderExpr buildExpr(Ctx& c, const Val& x) {
  std::string k = gets(x, "e");
  auto& b = c.b;
  if (k == "col") {
    return c.in.at(geti(x, "s")).ref((int)geti(x, "i"));
  }
  if (k == "rowid") {
    return c.in.at(geti(x, "s")).ref("rowid");
  }
  if (k == "lit") {
    auto& v = x["v"];
    std::string t = gets(x, "t");
    if (v.IsNull() || (v.IsArray() && v.Size() == 0)) {
      return b.nullCst(t);
    }
    auto& u = v.IsArray() ? v[0] : v;
    if (u.IsString()) {
      return t == "text" ? b.cst(std::string(u.GetString())) : b.cst(std::string(u.GetString()), t);
    }
    if (t == "bool") {
      return u.GetInt64() ? b.trueCst() : b.falseCst();
    }
    if (t == "fp64" || t == "fp32") {
      return b.cst(u.GetInt64() / 1000.0, t);
    }
    if (t.substr(0, 3) == "dec" || t.substr(0, 4) == "date" || t.substr(0, 9) == "timestamp") {
      return b.cstNoScale(u.GetInt64(), t);
    }
    return b.cst(u.GetInt64(), t);
  }
  if (k == "case") {
    auto a = buildExprs(c, x["a"]);
    return b.ifThenElse(a[0], a[1], a[2]);
  }
  if (k == "cast") {
    return buildExpr(c, x["a"][0]).cast(gets(x, "t"));
  }
  if (k == "extract") {
    return buildExpr(c, x["a"][0]).extract(gets(x, "f"));
  }
  if (k == "dateadd") {
    auto a = buildExprs(c, x["a"]);
    return a[0].add(a[1], addField(gets(x, "f")));
  }
  if (k == "datesub") {
    auto a = buildExprs(c, x["a"]);
    return a[0].sub(a[1], gets(x, "f"));
  }
  if (k == "trunc") {
    auto a = buildExpr(c, x["a"][0]);
    auto e = a.expr();
    auto* t = e->ctx().timestamp(TimeUnit::kSecond, e->type()->nullable());
    auto cast = e->type()->isTimestamp() ? e : e->cast(t);
    return BuilderExpr(&b, makeExpr<DateTruncExpr>(cast->type(), false, truncField(gets(x, "f")), cast));
  }
  if (k == "datediff") {
    auto a = buildExprs(c, x["a"]);
    auto& ctx = a[0].expr()->ctx();
    return BuilderExpr(&b, makeExpr<DateDiffExpr>(ctx.int64(), truncField(gets(x, "f")), a[0].expr(), a[1].expr()));
  }
  if (k == "like") {
    auto a = buildExpr(c, x["a"][0]);
    auto pat = Analyzer::analyzeStringValue(gets(x, "p"));
    ExprPtr esc;
    if (x.HasMember("esc")) {
      esc = Analyzer::analyzeStringValue(gets(x, "esc"));
    }
    return BuilderExpr(&b, Analyzer::getLikeExpr(a.expr(), pat, esc, geti(x, "ilike"), geti(x, "not")));
  }
  if (k == "regexp") {
    auto a = buildExpr(c, x["a"][0]);
    auto pat = Analyzer::analyzeStringValue(gets(x, "p"));
    return BuilderExpr(&b, Analyzer::getRegexpExpr(a.expr(), pat, nullptr, geti(x, "not")));
  }
  if (k == "in") {
    auto a = buildExpr(c, x["a"][0]);
    ExprPtrList l;
    for (auto& v : x["l"].GetArray()) {
      auto ve = buildExpr(c, v).expr();
      if (a.expr()->type()->isExtDictionary()) {
        l.push_back(ve->cast(a.expr()->type()));
      } else {
        l.push_back(ve->cast(a.expr()->type()));
      }
    }
    return BuilderExpr(&b, makeExpr<InValues>(a.expr(), l));
  }
  if (k == "charlen") {
    auto a = buildExpr(c, x["a"][0]);
    return BuilderExpr(&b, makeExpr<CharLengthExpr>(a.expr(), geti(x, "enc")));
  }
  if (k == "win") {
    std::string f = gets(x, "f");
    BuilderExpr w;
    std::vector<BuilderExpr> a = x.HasMember("a") ? buildExprs(c, x["a"]) : std::vector<BuilderExpr>{};
    int n = geti(x, "n", 1);
    if (f == "row_number") w = b.rowNumber();
    else if (f == "rank") w = b.rank();
    else if (f == "dense_rank") w = b.denseRank();
    else if (f == "percent_rank") w = b.percentRank();
    else if (f == "ntile") w = b.nTile(n);
    else if (f == "lag") w = a[0].lag(n);
    else if (f == "lead") w = a[0].lead(n);
    else if (f == "first") w = a[0].firstValue();
    else if (f == "last") w = a[0].lastValue();
    else if (f == "sum") w = a[0].sum();
    else if (f == "min") w = a[0].min();
    else if (f == "max") w = a[0].max();
    else if (f == "avg") w = a[0].avg();
    else if (f == "count") w = a[0].count();
    else if (f == "count_star") w = b.count();
    else throw std::runtime_error("driver: window fn " + f);
    w = x["p"].Size() ? w.over(buildExprs(c, x["p"])) : w.over();
    if (x["o"].Size()) {
      std::vector<BuilderOrderByKey> ks;
      for (auto& o : x["o"].GetArray()) {
        ks.emplace_back(buildExpr(c, o["k"]), std::string(geti(o, "d") ? "desc" : "asc"),
                        std::string(geti(o, "nf") ? "first" : "last"));
      }
      w = w.orderBy(ks);
    }
    return w;
  }
  // operators
  auto a = buildExprs(c, x["a"]);
  if (k == "add") return a[0].add(a[1]);
  if (k == "sub") return a[0].sub(a[1]);
  if (k == "mul") return a[0].mul(a[1]);
  if (k == "div") return a[0].div(a[1]);
  if (k == "mod") return a[0].mod(a[1]);
  if (k == "neg") return a[0].uminus();
  if (k == "not") return a[0].logicalNot();
  if (k == "and") return a[0].logicalAnd(a[1]);
  if (k == "or") return a[0].logicalOr(a[1]);
  if (k == "isnull") return a[0].isNull();
  if (k == "eq") return a[0].eq(a[1]);
  if (k == "ne") return a[0].ne(a[1]);
  if (k == "lt") return a[0].lt(a[1]);
  if (k == "le") return a[0].le(a[1]);
  if (k == "gt") return a[0].gt(a[1]);
  if (k == "ge") return a[0].ge(a[1]);
  if (k == "bwand") return a[0].bwAnd(a[1]);
  if (k == "bwor") return a[0].bwOr(a[1]);
  if (k == "bwxor") return a[0].bwXor(a[1]);
  if (k == "bwnot") return a[0].bwNot();
  if (k == "floor") return a[0].floor();
  if (k == "ceil") return a[0].ceil();
  if (k == "bweq") {
    return BuilderExpr(&b, makeExpr<BinOper>(a[0].expr()->ctx().boolean(false), OpType::kBwEq, Qualifier::kOne,
                                             a[0].expr(), a[1].expr()));
  }
  throw std::runtime_error("driver: unknown expr " + k);
}

BuilderExpr buildAgg(Ctx& c, const Val& x) {
  std::string f = gets(x, "f");
  if (f == "count_star") return c.b.count();
  auto a = buildExprs(c, x["a"]);
  auto& e = a[0];
  if (f == "count") return e.count();
  if (f == "count_distinct") return e.count(true);
  if (f == "approx_count_distinct") return e.approxCountDist();
  if (f == "sum") return e.sum();
  if (f == "min") return e.min();
  if (f == "max") return e.max();
  if (f == "avg") return e.avg();
  if (f == "sample") return e.sample();
  if (f == "single") return e.singleValue();
  if (f == "stddev") return e.stdDev();
  if (f == "corr") return e.corr(a[1]);
  if (f == "topk") return e.topK(geti(x, "n"));
  if (f == "bottomk") return e.bottomK(geti(x, "n"));
  if (f == "approx_quantile") return e.approxQuantile(geti(x, "n") / 1000.0);
  if (f == "quantile") {
    static const std::map<std::string, Interpolation> m = {{"linear", Interpolation::kLinear},
                                                           {"lower", Interpolation::kLower},
                                                           {"higher", Interpolation::kHigher},
                                                           {"nearest", Interpolation::kNearest},
                                                           {"midpoint", Interpolation::kMidpoint}};
    return e.quantile(geti(x, "n") / 1000.0, m.at(gets(x, "ip")));
  }
  throw std::runtime_error("driver: unknown agg " + f);
}

BuilderNode buildNode(Env& env, QueryBuilder& b, const Val& q) {
  std::string n = gets(q, "n");
  if (n == "scan") {
    return b.scan(kDbId, gets(q, "t"));
  }
  if (n == "res") {
    auto& r = env.kept.at(gets(q, "t"));
    return b.scan(r.getToken()->dbId(), r.getToken()->tableId());
  }
  if (n == "filter") {
    auto in = buildNode(env, b, q["in"]);
    Ctx c{env, b, {in}};
    return in.filter(buildExpr(c, q["c"]));
  }
  if (n == "proj") {
    auto in = buildNode(env, b, q["in"]);
    Ctx c{env, b, {in}};
    auto es = buildExprs(c, q["e"]);
    std::vector<std::string> names;
    for (size_t i = 0; i < es.size(); ++i) {
      names.push_back("p" + std::to_string(i));
    }
    return in.proj(es, names);
  }
  if (n == "agg") {
    auto in = buildNode(env, b, q["in"]);
    Ctx c{env, b, {in}};
    std::vector<BuilderExpr> keys = buildExprs(c, q["k"]);
    std::vector<BuilderExpr> aggs;
    int i = 0;
    for (auto& a : q["a"].GetArray()) {
      aggs.push_back(buildAgg(c, a).rename("a" + std::to_string(i++)));
    }
    return in.agg(keys, aggs);
  }
  if (n == "sort") {
    auto in = buildNode(env, b, q["in"]);
    std::vector<BuilderSortField> fs;
    for (auto& f : q["f"].GetArray()) {
      fs.emplace_back((int)geti(f, "i"), std::string(geti(f, "d") ? "desc" : "asc"),
                      std::string(geti(f, "nf") ? "first" : "last"));
    }
    return in.sort(fs, geti(q, "limit"), geti(q, "offset"));
  }
  if (n == "join") {
    auto l = buildNode(env, b, q["l"]);
    auto r = buildNode(env, b, q["r"]);
    Ctx c{env, b, {l, r}};
    return l.join(r, buildExpr(c, q["c"]), gets(q, "jt"));
  }
  throw std::runtime_error("driver: unknown node " + n);
}

std::string num(double d) {
  // thousandths, rounded; the specification works in thousandths
  if (std::isnan(d)) return "\"nan\"";
  double m = d * 1000.0;
  if (!(std::fabs(m) < 2.0e9)) return "\"big\"";
  return std::to_string((int64_t)std::llround(m));
}

std::string scalar(const ScalarTargetValue& v, const Type* type) {
  if (auto* s = boost::get<NullableString>(&v)) {
    if (auto* str = boost::get<std::string>(s)) {
      return "[" + jstr(*str) + "]";
    }
    return "[]";
  }
  if (isNull(v, type)) {
    return "[]";
  }
  if (auto* i = boost::get<int64_t>(&v)) {
    if (*i > 2000000000LL || *i < -2000000000LL) {
      return "[\"" + std::to_string(*i) + "\"]";
    }
    return "[" + std::to_string(*i) + "]";
  }
  if (auto* d = boost::get<double>(&v)) return "[" + num(*d) + "]";
  if (auto* f = boost::get<float>(&v)) return "[" + num(*f) + "]";
  return "[\"?\"]";
}

std::string cell(const TargetValue& v, const Type* type) {
  if (auto* s = boost::get<ScalarTargetValue>(&v)) {
    return scalar(*s, type);
  }
  auto& arr = boost::get<ArrayTargetValue>(v);
  if (!arr) return "[]";
  auto et = type->isArray() ? type->as<ArrayBaseType>()->elemType() : type;
  std::string o = "[[";
  bool first = true;
  for (auto& e : *arr) {
    if (!first) o += ",";
    first = false;
    o += scalar(e, et);
  }
  return o + "]]";
}

std::string row(const std::vector<TargetValue>& r, const hdk::ResultSetTableToken& t) {
  std::string o = "[";
  for (size_t i = 0; i < r.size(); ++i) {
    if (i) o += ",";
    o += cell(r[i], t.colType(i));
  }
  return o + "]";
}

// Reads a result through random access and through the sequential interfaces: they must agree.
std::string readResult(const ExecutionResult& res) {
  auto& t = *res.getToken();
  size_t n = t.rowCount();
  std::vector<std::string> rows;
  for (size_t i = 0; i < n; ++i) {
    rows.push_back(row(t.row(i, true, false), t));
  }
  std::vector<std::string> seq;
  size_t cnt = 0;
  for (size_t rs = 0; rs < t.resultSetCount(); ++rs) {
    auto r = t.resultSet(rs);
    cnt += r->rowCount();
    r->moveToBegin();
    while (true) {
      auto v = r->getNextRow(true, false);
      if (v.empty()) break;
      seq.push_back(row(v, t));
    }
    r->moveToBegin();
  }
  std::vector<std::string> it;
  auto iter = t.rowIterator(true, false);
  for (size_t i = 0; i < n; ++i) {
    it.push_back(row(*iter, t));
    ++iter;
  }
  std::string o = "{\"k\":\"rows\",\"ty\":[";
  for (size_t i = 0; i < t.colCount(); ++i) {
    if (i) o += ",";
    o += jstr(t.colType(i)->toString());
  }
  o += "],\"n\":" + std::to_string(cnt) + ",\"seq\":" + ((seq == rows && it == rows) ? "1" : "0") + ",\"rows\":[";
  for (size_t i = 0; i < rows.size(); ++i) {
    if (i) o += ",";
    o += rows[i];
  }
  return o + "]}";
}

ExecutionResult runQuery(Env& env, const Val& q, bool columnar_hint, bool just_explain = false) {
  QueryBuilder b(Context::defaultCtx(), env.schema_mgr, env.config);
  auto node = buildNode(env, b, q);
  // A scan has to be projected to be run.
  auto dag = node.finalize();
  auto ra = RelAlgExecutor(env.executor.get(), env.schema_mgr, std::move(dag));
  auto co = CompilationOptions::defaults(ExecutorDeviceType::CPU);
  co.hoist_literals = env.config->exec.codegen.hoist_literals;
  auto eo = ExecutionOptions::fromConfig(*env.config);
  if (columnar_hint) eo.output_columnar_hint = true;
  return ra.executeRelAlgQuery(co, eo, false);
}

std::string runCmd(std::unique_ptr<Env>& env, const Val& cmd);

std::string tryCmd(std::unique_ptr<Env>& env, const Val& cmd) {
  try {
    return runCmd(env, cmd);
  } catch (const std::exception& e) {
    return std::string("{\"k\":\"err\",\"m\":") + jstr(e.what()) + "}";
  }
}

std::string runCmd(std::unique_ptr<Env>& env, const Val& cmd) {
  std::string op = gets(cmd, "op");
  if (op == "start") {
    env.reset();
    env = makeEnv(cmd);
    return "{\"k\":\"ok\"}";
  }
  if (op == "create") {
    env->storage->createTable(gets(cmd, "t"), cmd["cols"], geti(cmd, "frag", 1000000));
    return "{\"k\":\"ok\"}";
  }
  if (op == "append") {
    env->storage->append(gets(cmd, "t"), cmd["rows"]);
    return "{\"k\":\"ok\"}";
  }
  if (op == "drop") {
    env->storage->drop(gets(cmd, "t"));
    return "{\"k\":\"ok\"}";
  }
  if (op == "cfg") {
    for (auto m = cmd["cfg"].MemberBegin(); m != cmd["cfg"].MemberEnd(); ++m) {
      applyCfg(*env->config, m->name.GetString(), m->value.GetInt64());
    }
    return "{\"k\":\"ok\"}";
  }
  if (op == "query") {
    auto res = runQuery(*env, cmd["q"], geti(cmd, "hint"));
    std::string out = readResult(res);
    if (cmd.HasMember("keep")) {
      env->kept[gets(cmd, "keep")] = res;
    }
    return out;
  }
  if (op == "par") {  // queries run concurrently; results in order
    auto& qs = cmd["qs"];
    std::vector<std::string> outs(qs.Size());
    std::vector<std::thread> th;
    for (size_t i = 0; i < qs.Size(); ++i) {
      th.emplace_back([&, i]() {
        try {
          // each client has an executor of its own on the shared data manager
          Env e = *env;
          e.executor = Executor::getExecutor(e.data_mgr.get(), e.config, "", "");
          e.executor->setSchemaProvider(e.schema_mgr);
          auto res = runQuery(e, qs[i], false);
          outs[i] = readResult(res);
        } catch (const std::exception& ex) {
          outs[i] = std::string("{\"k\":\"err\",\"m\":") + jstr(ex.what()) + "}";
        }
      });
    }
    for (auto& t : th) t.join();
    std::string o = "{\"k\":\"many\",\"rs\":[";
    for (size_t i = 0; i < outs.size(); ++i) {
      if (i) o += ",";
      o += outs[i];
    }
    return o + "]}";
  }
  if (op == "read") {
    return readResult(env->kept.at(gets(cmd, "r")));
  }
  if (op == "head" || op == "tail") {
    auto& r = env->kept.at(gets(cmd, "r"));
    auto x = op == "head" ? r.head(geti(cmd, "c")) : r.tail(geti(cmd, "c"));
    std::string out = readResult(x);
    if (cmd.HasMember("keep")) {
      env->kept[gets(cmd, "keep")] = x;
    }
    return out;
  }
  if (op == "release") {
    env->kept.erase(gets(cmd, "r"));
    return "{\"k\":\"ok\"}";
  }
  if (op == "clear") {
    Executor::clearMemory(Data_Namespace::MemoryLevel::CPU_LEVEL, env->data_mgr.get());
    return "{\"k\":\"ok\"}";
  }
  throw std::runtime_error("driver: unknown op " + op);
}

}  // namespace

int main(int argc, char** argv) {
  g_is_test_env = true;
  logger::LogOptions lo(argv[0]);
  lo.severity_ = logger::Severity::FATAL;
  lo.severity_clog_ = logger::Severity::FATAL;
  lo.set_base_path("");
  lo.max_files_ = 0;
  logger::init(lo);
  std::unique_ptr<Env> env;
  std::string line;
  while (std::getline(std::cin, line)) {
    if (line.empty()) continue;
    auto d = parse(line);
    emit(tryCmd(env, d));
  }
  env.reset();
  fflush(stdout);
  _exit(0);
}
