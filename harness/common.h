// Shared helpers of the conformance drivers: JSON in, JSON lines out.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <iostream>
#include <map>
#include <memory>
#include <random>
#include <sstream>
#include <string>
#include <vector>

#include "rapidjson/document.h"
#include "rapidjson/stringbuffer.h"
#include "rapidjson/writer.h"

namespace vf {

using Json = rapidjson::Document;
using Val = rapidjson::Value;
using Writer = rapidjson::Writer<rapidjson::StringBuffer>;

inline std::string dump(const Val& v) {
  rapidjson::StringBuffer sb;
  Writer w(sb);
  v.Accept(w);
  return std::string(sb.GetString(), sb.GetSize());
}

inline int64_t geti(const Val& v, const char* k, int64_t dflt = 0) {
  auto it = v.FindMember(k);
  if (it == v.MemberEnd() || it->value.IsNull()) {
    return dflt;
  }
  if (it->value.IsBool()) {
    return it->value.GetBool();
  }
  return it->value.GetInt64();
}

inline std::string gets(const Val& v, const char* k, const std::string& dflt = "") {
  auto it = v.FindMember(k);
  return it == v.MemberEnd() ? dflt : std::string(it->value.GetString(), it->value.GetStringLength());
}

inline std::string jstr(const std::string& s) {
  rapidjson::StringBuffer sb;
  Writer w(sb);
  w.String(s.data(), s.size());
  return std::string(sb.GetString(), sb.GetSize());
}

inline Json parse(const std::string& s) {
  Json d;
  d.Parse<rapidjson::kParseFullPrecisionFlag>(s.data(), s.size());
  if (d.HasParseError()) {
    fprintf(stderr, "driver: bad json: %s\n", s.substr(0, 200).c_str());
    exit(90);
  }
  return d;
}

// Emits one event line and flushes it, so that a crash leaves the events before it.
inline void emit(const std::string& line) {
  fwrite(line.data(), 1, line.size(), stdout);
  fputc('\n', stdout);
  fflush(stdout);
}

}  // namespace vf
