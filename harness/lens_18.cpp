#include "lens.hpp"
namespace lw {
ROOT(40, immer::flex_vector<opt<L>>)
ROOT(100, std::array<L, 2>)
ROOT(110, tab)
}
