#include "context.hpp"
namespace cw {
CTX_DERIVE(8)
CTX_DERIVE(9)
}
