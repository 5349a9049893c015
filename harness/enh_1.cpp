#include "enh.hpp"
bool sw::run_enh_1(const std::string& e, const json& j, const options& o)
{
    if (e == "d1 lin thunk fut")
        return replay<ecfg<e_d1, e_lin, e_thunk, e_fut>>(j, o), true;
    if (e == "lin tx fut")
        return replay<ecfg<e_lin, e_tx, e_fut>>(j, o), true;
    if (e == "plain red d1 thunk fut")
        return replay<ecfg<e_plain, e_red, e_d1, e_thunk, e_fut>>(j, o), true;
    return false;
}
