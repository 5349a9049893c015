#include "lens.hpp"
namespace lw {
ROOT(150, opt<immer::vector<std::map<int, L>>>, 0, 3)
}
