#include "serial.hpp"
namespace sw {
using type_6 = immer::set<int>;
template <>
std::unique_ptr<cell> cell_of<6>()
{
    return std::make_unique<cell_t<type_6>>();
}
using type_14 = tpl<immer::box<int>, immer::set<str>>;
template <>
std::unique_ptr<cell> cell_of<14>()
{
    return std::make_unique<cell_t<type_14>>();
}
using type_22 = immer::vector<tpl<immer::box<int>, immer::set<str>>>;
template <>
std::unique_ptr<cell> cell_of<22>()
{
    return std::make_unique<cell_t<type_22>>();
}
} // namespace sw
