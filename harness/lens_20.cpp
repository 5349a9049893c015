#include "lens.hpp"
namespace lw {
ROOT(130, std::unordered_map<int, X>)
ROOT(170, std::pair<L, L>)
}
