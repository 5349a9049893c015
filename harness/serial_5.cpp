#include "serial.hpp"
namespace sw {
using type_4 = immer::box<ints>;
template <>
std::unique_ptr<cell> cell_of<4>()
{
    return std::make_unique<cell_t<type_4>>();
}
using type_12 = kind;
template <>
std::unique_ptr<cell> cell_of<12>()
{
    return std::make_unique<cell_t<type_12>>();
}
using type_20 = immer::map<int, std::variant<rec, str>>;
template <>
std::unique_ptr<cell> cell_of<20>()
{
    return std::make_unique<cell_t<type_20>>();
}
using type_28 = onvp;
template <>
std::unique_ptr<cell> cell_of<28>()
{
    return std::make_unique<cell_t<type_28>>();
}
} // namespace sw
