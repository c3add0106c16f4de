// Driver of the configuration builder and of the schema catalogues.
#include "common.h"

#include "ConfigBuilder/ConfigBuilder.h"
#include "IR/Context.h"
#include "Logger/Logger.h"
#include "SchemaMgr/SchemaMgr.h"
#include "SchemaMgr/SimpleSchemaProvider.h"

using namespace vf;

// ---- configuration ------------------------------------------------------------------------------------------------
std::string text(bool v) { return v ? "1" : "0"; }
std::string text(const std::string& v) { return v; }
std::string text(double v) {
  char b[64];
  snprintf(b, sizeof b, "%g", v);
  return b;
}
std::string text(float v) { return text(double(v)); }
template <typename T>
std::string text(T v) {
  return std::to_string(v);
}
void put(bool& d, const std::string& s) { d = s == "1"; }
void put(std::string& d, const std::string& s) { d = s; }
template <typename T>
void put(T& d, const std::string& s) {
  if (std::is_floating_point<T>::value) {
    d = static_cast<T>(std::stod(s));
  } else {
    d = static_cast<T>(std::stoull(s));
  }
}

std::string settings(const Config& c) {
  std::string r;
#define F(f) r += (r.empty() ? "{" : ",") + jstr(#f) + ":" + jstr(text(c.f));
#include "config_fields.inc"
#undef F
  return r + "}";
}
void setting(Config& c, const std::string& name, const std::string& v) {
#define F(f)      \
  if (name == #f) \
    put(c.f, v);
#include "config_fields.inc"
#undef F
}

std::unique_ptr<ConfigBuilder> builder;
ConfigPtr given;

// ---- schema --------------------------------------------------------------------------------------------------------
struct Provider : public SimpleSchemaProvider {
  using SimpleSchemaProvider::SimpleSchemaProvider;
  void table(int db, int t, const std::string& name, const Val& cols, bool rowid, int rowid_col, bool view, int frags, int rows) {
    addTableInfo(db, t, name, view, (size_t)frags, (size_t)rows);
    for (auto& c : cols.GetArray()) {
      addColumnInfo(db, t, (int)geti(c, "id"), gets(c, "name"), ctx_.typeFromString(gets(c, "type")), false);
    }
    if (rowid) {
      addRowidColumn(db, t, rowid_col);
    }
  }
  void drop(int db, int t) { dropTable(db, t); }
};
hdk::ir::Context& ctx = hdk::ir::Context::defaultCtx();
std::vector<std::shared_ptr<Provider>> provs;
SchemaProviderPtr merged;

const SchemaProvider* target(const Val& c) {
  auto p = geti(c, "p", -1);
  return p < 0 ? merged.get() : provs.at(p).get();
}
std::string tinfo(const TableInfoPtr& t) {
  if (!t) {
    return "[]";
  }
  return "[{\"db\":[" + std::to_string(getSchemaId(t->db_id)) + "," + std::to_string(t->db_id & MAX_DB_ID) + "],\"t\":" + std::to_string(t->table_id) +
         ",\"name\":" + jstr(t->name) + ",\"view\":" + text(t->is_view) + ",\"frags\":" + std::to_string(t->fragments) + ",\"rows\":" + std::to_string(t->row_count) + "}]";
}
std::string cinfo1(const ColumnInfoPtr& c) {
  return "{\"db\":[" + std::to_string(getSchemaId(c->db_id)) + "," + std::to_string(c->db_id & MAX_DB_ID) + "],\"t\":" + std::to_string(c->table_id) +
         ",\"id\":" + std::to_string(c->column_id) + ",\"name\":" + jstr(c->name) + ",\"type\":" + jstr(c->type->toString()) + ",\"rowid\":" + text(c->is_rowid) + "}";
}
std::string cinfo(const ColumnInfoPtr& c) { return c ? "[" + cinfo1(c) + "]" : "[]"; }

std::string run(const Val& c) {
  auto op = gets(c, "op");
  if (op == "cfg_new") {
    given = geti(c, "own") ? std::make_shared<Config>() : nullptr;
    if (given) {
      for (auto& s : c["set"].GetArray()) {
        setting(*given, gets(s, "f"), gets(s, "v"));
      }
      builder = std::make_unique<ConfigBuilder>(given);
    } else {
      builder = std::make_unique<ConfigBuilder>();
    }
    return "\"cfg\":" + settings(*builder->config()) + ",\"base\":" + settings(Config()) + ",\"same\":" + text(!given || given == builder->config());
  }
  if (op == "cfg_parse") {
    bool help = false, ok = true;
    auto before = settings(*builder->config());
    try {
      if (geti(c, "line")) {
        help = builder->parseCommandLineArgs("app", gets(c, "text"), geti(c, "gtest"));
      } else {
        std::vector<std::string> args{"app"};
        for (auto& a : c["argv"].GetArray()) {
          args.push_back(a.GetString());
        }
        std::vector<const char*> argv;
        for (auto& a : args) {
          argv.push_back(a.c_str());
        }
        std::stringstream sink;
        auto old = std::cout.rdbuf(sink.rdbuf());
        try {
          help = builder->parseCommandLineArgs(argv.size(), argv.data(), geti(c, "gtest"));
        } catch (...) {
          std::cout.rdbuf(old);
          throw;
        }
        std::cout.rdbuf(old);
      }
    } catch (const std::exception&) {
      ok = false;
    }
    return "\"ok\":" + text(ok) + ",\"help\":" + text(help) + ",\"cfg\":" + settings(*builder->config());
  }
  if (op == "sch_new") {
    provs.clear();
    merged.reset();
    for (int i = 0; i < geti(c, "n"); ++i) {
      provs.push_back(std::make_shared<Provider>(ctx, i, "p" + std::to_string(i)));
    }
    return "\"x\":0";
  }
  if (op == "sch_merge") {
    std::vector<SchemaProviderPtr> v;
    for (auto& p : c["ps"].GetArray()) {
      v.push_back(provs.at(p.GetInt()));
    }
    try {
      auto m = mergeProviders(v);
      merged = m;
      return "\"ok\":1";
    } catch (const std::exception&) {
      return "\"ok\":0";
    }
  }
  auto db = addSchemaIdChecked(c["db"][1].GetInt(), c["db"][0].GetInt());
  if (op == "sch_add") {
    provs.at(geti(c, "p"))->table(db, geti(c, "t"), gets(c, "name"), c["cols"], geti(c, "rowid"), geti(c, "rowid_col"), geti(c, "view"), geti(c, "frags"), geti(c, "rows"));
    return "\"x\":0";
  }
  if (op == "sch_drop") {
    provs.at(geti(c, "p"))->drop(db, geti(c, "t"));
    return "\"x\":0";
  }
  auto m = target(c);
  if (op == "sch_dbs") {
    std::string r;
    for (auto d : m->listDatabases()) {
      r += (r.empty() ? "[" : ",[") + std::to_string(getSchemaId(d)) + "," + std::to_string(d & MAX_DB_ID) + "]";
    }
    return "\"r\":[" + r + "]";
  }
  if (op == "sch_tables") {
    std::string r;
    for (auto& t : m->listTables(db)) {
      r += (r.empty() ? "" : ",") + std::to_string(t->table_id);
    }
    return "\"r\":[" + r + "]";
  }
  auto t = (int)geti(c, "t");
  if (op == "sch_cols") {
    std::string r;
    for (auto& x : geti(c, "ref") ? m->listColumns(TableRef(db, t)) : m->listColumns(db, t)) {
      r += (r.empty() ? "" : ",") + cinfo1(x);
    }
    return "\"r\":[" + r + "]";
  }
  if (op == "sch_table") {
    return "\"r\":" + tinfo(geti(c, "ref") ? m->getTableInfo(TableRef(db, t)) : m->getTableInfo(db, t));
  }
  if (op == "sch_table_n") {
    return "\"r\":" + tinfo(m->getTableInfo(db, gets(c, "name")));
  }
  if (op == "sch_col") {
    auto id = (int)geti(c, "id");
    auto ref = geti(c, "ref");
    return "\"r\":" + cinfo(ref == 0 ? m->getColumnInfo(db, t, id) : ref == 1 ? m->getColumnInfo(TableRef(db, t), id) : m->getColumnInfo(ColumnRef(db, t, id)));
  }
  if (op == "sch_col_n") {
    return "\"r\":" + cinfo(geti(c, "ref") ? m->getColumnInfo(TableRef(db, t), gets(c, "name")) : m->getColumnInfo(db, t, gets(c, "name")));
  }
  fprintf(stderr, "unknown op %s\n", op.c_str());
  exit(91);
}

int main(int argc, char** argv) {
  logger::LogOptions opts(argv[0]);
  opts.max_files_ = 0;
  opts.severity_ = logger::Severity::FATAL;
  logger::init(opts);
  std::string line;
  while (std::getline(std::cin, line)) {
    auto c = parse(line);
    try {
      emit("{\"k\":\"ok\"," + run(c) + "}");
    } catch (const std::exception& x) {
      emit("{\"k\":\"throw\",\"m\":" + jstr(x.what()) + "}");
    }
  }
  return 0;
}
