#include "serial.hpp"
namespace sw {
using type_5 = immer::set<str>;
template <>
std::unique_ptr<cell> cell_of<5>()
{
    return std::make_unique<cell_t<type_5>>();
}
using type_13 = rec;
template <>
std::unique_ptr<cell> cell_of<13>()
{
    return std::make_unique<cell_t<type_13>>();
}
using type_21 = std::variant<der, der_nothing, immer::box<rec>>;
template <>
std::unique_ptr<cell> cell_of<21>()
{
    return std::make_unique<cell_t<type_21>>();
}
} // namespace sw
