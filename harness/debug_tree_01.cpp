#include "debug.hpp"
void sw::run_tree_01(const json& j, const options& o, bool eff)
{
    eff ? replay<tree_t<0, 1, true>>(j, o) : replay<tree_t<0, 1, false>>(j, o);
}
