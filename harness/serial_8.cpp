#include "serial.hpp"
namespace sw {
using type_7 = immer::map<int, ints>;
template <>
std::unique_ptr<cell> cell_of<7>()
{
    return std::make_unique<cell_t<type_7>>();
}
using type_15 = nest;
template <>
std::unique_ptr<cell> cell_of<15>()
{
    return std::make_unique<cell_t<type_15>>();
}
using type_23 = std::tuple<immer::map<int, int>, camel>;
template <>
std::unique_ptr<cell> cell_of<23>()
{
    return std::make_unique<cell_t<type_23>>();
}
} // namespace sw
