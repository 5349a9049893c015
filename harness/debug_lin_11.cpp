#include "debug.hpp"
void sw::run_lin_11(const json& j, const options& o, bool eff)
{
    eff ? replay<lin_t<1, 1, true>>(j, o) : replay<lin_t<1, 1, false>>(j, o);
}
