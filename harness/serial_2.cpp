#include "serial.hpp"
namespace sw {
using type_1 = ints;
template <>
std::unique_ptr<cell> cell_of<1>()
{
    return std::make_unique<cell_t<type_1>>();
}
using type_9 = immer::map<int, item>;
template <>
std::unique_ptr<cell> cell_of<9>()
{
    return std::make_unique<cell_t<type_9>>();
}
using type_17 = camel;
template <>
std::unique_ptr<cell> cell_of<17>()
{
    return std::make_unique<cell_t<type_17>>();
}
using type_25 = immer::flex_vector<ints>;
template <>
std::unique_ptr<cell> cell_of<25>()
{
    return std::make_unique<cell_t<type_25>>();
}
} // namespace sw
