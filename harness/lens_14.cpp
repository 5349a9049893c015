#include "lens.hpp"
namespace lw {
ROOT(153, opt<immer::vector<std::map<int, L>>>, 9, 1000)
}
