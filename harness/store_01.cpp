#include "store.hpp"
void sw::run_01(const json& j, const options& o, bool eff)
{
    eff ? replay<plain<0, 1, true>>(j, o) : replay<plain<0, 1, false>>(j, o);
}
