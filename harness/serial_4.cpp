#include "serial.hpp"
namespace sw {
using type_3 = immer::array<int>;
template <>
std::unique_ptr<cell> cell_of<3>()
{
    return std::make_unique<cell_t<type_3>>();
}
using type_11 = std::variant<int, str, ints, std::monostate>;
template <>
std::unique_ptr<cell> cell_of<11>()
{
    return std::make_unique<cell_t<type_11>>();
}
using type_19 = immer::vector<immer::box<rec>>;
template <>
std::unique_ptr<cell> cell_of<19>()
{
    return std::make_unique<cell_t<type_19>>();
}
using type_27 = nder;
template <>
std::unique_ptr<cell> cell_of<27>()
{
    return std::make_unique<cell_t<type_27>>();
}
} // namespace sw
