#include "enh.hpp"
bool sw::run_enh_3(const std::string& e, const json& j, const options& o)
{
    if (e == "plain tree thunk d1")
        return replay<ecfg<e_plain, e_tree, e_thunk, e_d1>>(j, o), true;
    if (e == "d1 d2 thunk fut")
        return replay<ecfg<e_d1, e_d2, e_thunk, e_fut>>(j, o), true;
    if (e == "d1 red fut thunk d2")
        return replay<ecfg<e_d1, e_red, e_fut, e_thunk, e_d2>>(j, o), true;
    if (e == "d2 d1 fut")
        return replay<ecfg<e_d2, e_d1, e_fut>>(j, o), true;
    return false;
}
