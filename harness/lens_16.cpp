#include "lens.hpp"
namespace lw {
ROOT(161, std::array<S, 2>, 3, 1000)
}
