#include "lens.hpp"
namespace lw {
ROOT(151, opt<immer::vector<std::map<int, L>>>, 3, 6)
}
