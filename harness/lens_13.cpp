#include "lens.hpp"
namespace lw {
ROOT(152, opt<immer::vector<std::map<int, L>>>, 6, 9)
}
