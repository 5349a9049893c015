#include "enh.hpp"
bool sw::run_enh_4(const std::string& e, const json& j, const options& o)
{
    if (e == "red tree d1 thunk fut d2")
        return replay<ecfg<e_red, e_tree, e_d1, e_thunk, e_fut, e_d2>>(j, o), true;
    if (e == "thunk fut")
        return replay<ecfg<e_thunk, e_fut>>(j, o), true;
    if (e == "tx thunk fut")
        return replay<ecfg<e_tx, e_thunk, e_fut>>(j, o), true;
    if (e == "plain red d2 fut")
        return replay<ecfg<e_plain, e_red, e_d2, e_fut>>(j, o), true;
    return false;
}
