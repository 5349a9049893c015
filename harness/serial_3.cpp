#include "serial.hpp"
namespace sw {
using type_2 = immer::flex_vector<str>;
template <>
std::unique_ptr<cell> cell_of<2>()
{
    return std::make_unique<cell_t<type_2>>();
}
using type_10 = std::tuple<int, strs, kind>;
template <>
std::unique_ptr<cell> cell_of<10>()
{
    return std::make_unique<cell_t<type_10>>();
}
using type_18 = der_nothing;
template <>
std::unique_ptr<cell> cell_of<18>()
{
    return std::make_unique<cell_t<type_18>>();
}
using type_26 = tder<int, strs>;
template <>
std::unique_ptr<cell> cell_of<26>()
{
    return std::make_unique<cell_t<type_26>>();
}
} // namespace sw
