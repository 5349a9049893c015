#include "lens.hpp"
namespace lw {
ROOT(70, X)
ROOT(80, immer::box<S>)
ROOT(120, immer::vector<immer::box<X>>)
}
