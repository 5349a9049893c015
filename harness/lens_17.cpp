#include "lens.hpp"
namespace lw {
ROOT(180, immer::map<int, immer::map<int, L>>)
}
