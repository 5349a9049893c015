#include "lens.hpp"
namespace lw {
ROOT(30, std::vector<S>)
}
