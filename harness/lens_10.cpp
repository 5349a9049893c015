#include "lens.hpp"
namespace lw {
ROOT(140, std::tuple<X, std::vector<L>>)
}
