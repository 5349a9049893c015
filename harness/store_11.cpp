#include "store.hpp"
void sw::run_11(const json& j, const options& o, bool eff)
{
    eff ? replay<plain<1, 1, true>>(j, o) : replay<plain<1, 1, false>>(j, o);
}
