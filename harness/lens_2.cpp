#include "lens.hpp"
namespace lw {
ROOT(20, opt<S>, 0, 3)
}
