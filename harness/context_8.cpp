#include "context.hpp"
namespace cw {
CTX_DERIVE(12)
}
