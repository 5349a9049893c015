#include "deps.hpp"
namespace dw {
std::unique_ptr<bag> make_bag_1(int a, int b, bool p, bool q)
{
    return make<1>(a, b, p, q);
}
std::unique_ptr<bag> make_bag_9(int a, int b, bool p, bool q)
{
    return make<9>(a, b, p, q);
}
std::unique_ptr<bag> make_bag_15(int a, int b, bool p, bool q)
{
    return make<15>(a, b, p, q);
}
} // namespace dw
