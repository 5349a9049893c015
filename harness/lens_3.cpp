#include "lens.hpp"
namespace lw {
ROOT(21, opt<S>, 3, 7)
}
