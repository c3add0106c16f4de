#pragma once
#include <stdexcept>
#include <string>
#include <vector>
#include "DataMgr/DataMgr.h"
#include "IR/TargetMetaInfo.h"
#include "ResultSet/ResultSet.h"
#include "arrow/api.h"
class ArrowResultSetConverter {
 public:
  template <typename... A>
  ArrowResultSetConverter(A&&...) {}
  std::shared_ptr<arrow::Table> convertToArrowTable() const {
    throw std::runtime_error("no Arrow in this build");
  }
};
