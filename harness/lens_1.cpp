#include "lens.hpp"
namespace lw {
ROOT(10, S)
}
