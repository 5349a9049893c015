#include "context.hpp"
namespace cw {
CTX_DERIVE(2)
CTX_DERIVE(3)
}
