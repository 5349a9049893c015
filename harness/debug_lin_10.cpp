#include "debug.hpp"
void sw::run_lin_10(const json& j, const options& o, bool eff)
{
    eff ? replay<lin_t<1, 0, true>>(j, o) : replay<lin_t<1, 0, false>>(j, o);
}
