#include "lens.hpp"
namespace lw {
ROOT(50, std::map<int, S>)
}
