#include "context.hpp"
namespace cw {
CTX_DERIVE(6)
CTX_DERIVE(7)
}
