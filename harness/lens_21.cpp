#include "lens.hpp"
namespace lw {
ROOT(190, Quad)
ROOT(200, Four)
ROOT(210, std::map<int, Quad>)
ROOT(220, std::tuple<Four, L>)
}
