#include "lens.hpp"
namespace lw {
ROOT(90, std::pair<S, opt<L>>)
}
