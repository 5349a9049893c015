#include "store.hpp"
void sw::run_10(const json& j, const options& o, bool eff)
{
    eff ? replay<plain<1, 0, true>>(j, o) : replay<plain<1, 0, false>>(j, o);
}
