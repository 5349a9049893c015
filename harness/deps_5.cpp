#include "deps.hpp"
namespace dw {
std::unique_ptr<bag> make_bag_6(int a, int b, bool p, bool q)
{
    return make<6>(a, b, p, q);
}
std::unique_ptr<bag> make_bag_7(int a, int b, bool p, bool q)
{
    return make<7>(a, b, p, q);
}
} // namespace dw
