#include "debug.hpp"
void sw::run_tree_11(const json& j, const options& o, bool eff)
{
    eff ? replay<tree_t<1, 1, true>>(j, o) : replay<tree_t<1, 1, false>>(j, o);
}
