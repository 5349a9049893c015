#include "serial.hpp"
namespace sw {
using type_8 = immer::map<str, int>;
template <>
std::unique_ptr<cell> cell_of<8>()
{
    return std::make_unique<cell_t<type_8>>();
}
using type_16 = der;
template <>
std::unique_ptr<cell> cell_of<16>()
{
    return std::make_unique<cell_t<type_16>>();
}
using type_24 = immer::box<std::variant<ints, std::monostate>>;
template <>
std::unique_ptr<cell> cell_of<24>()
{
    return std::make_unique<cell_t<type_24>>();
}
} // namespace sw
