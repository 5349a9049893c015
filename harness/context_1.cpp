#include "context.hpp"
namespace cw {
CTX_DERIVE(1)
CTX_DERIVE(13)
}
