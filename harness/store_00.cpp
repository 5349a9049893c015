#include "store.hpp"
void sw::run_00(const json& j, const options& o, bool eff)
{
    eff ? replay<plain<0, 0, true>>(j, o) : replay<plain<0, 0, false>>(j, o);
}
