#include "lens.hpp"
namespace lw {
ROOT(60, immer::map<int, std::vector<L>>)
}
