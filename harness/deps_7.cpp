#include "deps.hpp"
namespace dw {
std::unique_ptr<bag> make_bag_13(int a, int b, bool p, bool q)
{
    return make<13>(a, b, p, q);
}
} // namespace dw
