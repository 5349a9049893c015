#include "deps.hpp"
namespace dw {
std::unique_ptr<bag> make_bag_4(int a, int b, bool p, bool q)
{
    return make<4>(a, b, p, q);
}
std::unique_ptr<bag> make_bag_11(int a, int b, bool p, bool q)
{
    return make<11>(a, b, p, q);
}
} // namespace dw
