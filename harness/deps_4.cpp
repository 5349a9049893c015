#include "deps.hpp"
namespace dw {
std::unique_ptr<bag> make_bag_5(int a, int b, bool p, bool q)
{
    return make<5>(a, b, p, q);
}
std::unique_ptr<bag> make_bag_14(int a, int b, bool p, bool q)
{
    return make<14>(a, b, p, q);
}
} // namespace dw
