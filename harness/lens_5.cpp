#include "lens.hpp"
namespace lw {
ROOT(23, opt<S>, 11, 1000)
}
