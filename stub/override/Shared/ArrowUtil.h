#pragma once
#include <stdexcept>
#include <vector>
#include "arrow/api.h"
namespace arrow {
inline std::shared_ptr<Table> ConcatenateTables(const std::vector<std::shared_ptr<Table>>&) {
  throw std::runtime_error("no Arrow in this build");
}
}  // namespace arrow
#define ARROW_ASSIGN_OR_THROW(lhs, rexpr) lhs = rexpr;
