#include "lens.hpp"
namespace lw {
ROOT(22, opt<S>, 7, 11)
}
