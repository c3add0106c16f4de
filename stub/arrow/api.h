// Stand-in for Arrow C++, which this sandbox does not have: enough to compile the parts of the engine that name
// arrow::Table in a signature.  No conversion to Arrow is ever run by the checks.
#pragma once
#include <memory>
namespace arrow {
class Table {};
}  // namespace arrow
