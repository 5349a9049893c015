#include "deps.hpp"
namespace dw {
std::unique_ptr<bag> make_bag_10(int a, int b, bool p, bool q)
{
    return make<10>(a, b, p, q);
}
std::unique_ptr<bag> make_bag_12(int a, int b, bool p, bool q)
{
    return make<12>(a, b, p, q);
}
} // namespace dw
