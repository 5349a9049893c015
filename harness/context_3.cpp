#include "context.hpp"
namespace cw {
CTX_DERIVE(4)
CTX_DERIVE(5)
}
