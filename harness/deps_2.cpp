#include "deps.hpp"
namespace dw {
std::unique_ptr<bag> make_bag_2(int a, int b, bool p, bool q)
{
    return make<2>(a, b, p, q);
}
std::unique_ptr<bag> make_bag_3(int a, int b, bool p, bool q)
{
    return make<3>(a, b, p, q);
}
std::unique_ptr<bag> make_bag_8(int a, int b, bool p, bool q)
{
    return make<8>(a, b, p, q);
}
} // namespace dw
