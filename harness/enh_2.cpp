#include "enh.hpp"
bool sw::run_enh_2(const std::string& e, const json& j, const options& o)
{
    if (e == "d2 d1 tree thunk")
        return replay<ecfg<e_d2, e_d1, e_tree, e_thunk>>(j, o), true;
    if (e == "fut d1 thunk")
        return replay<ecfg<e_fut, e_d1, e_thunk>>(j, o), true;
    if (e == "red d1 thunk")
        return replay<ecfg<e_red, e_d1, e_thunk>>(j, o), true;
    if (e == "")
        return replay<ecfg<>>(j, o), true;
    return false;
}
