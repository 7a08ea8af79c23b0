// Reference definitions: never built or run, only parsed and compared with the
// repository's code in value-flow normal form (sa/refine.py).
#pragma once
#include <array>
#include <cstdint>
#include <future>
#include <map>
#include <memory>
#include <optional>
#include <stdexcept>
#include <string>
#include <tuple>
#include <unordered_map>
#include <utility>
#include <vector>
namespace spec {
void specAssume(bool); // precondition of the property (not a requirement on the code)
[[noreturn]] inline void refuse() { throw std::runtime_error("refused"); }
}
