#include "lens.hpp"
namespace lw {
ROOT(160, std::array<S, 2>, 0, 3)
}
