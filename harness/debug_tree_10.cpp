#include "debug.hpp"
void sw::run_tree_10(const json& j, const options& o, bool eff)
{
    eff ? replay<tree_t<1, 0, true>>(j, o) : replay<tree_t<1, 0, false>>(j, o);
}
