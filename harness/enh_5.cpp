#include "enh.hpp"
bool sw::run_enh_5(const std::string& e, const json& j, const options& o)
{
    if (e == "d2 fut lin d1 thunk tx")
        return replay<ecfg<e_d2, e_fut, e_lin, e_d1, e_thunk, e_tx>>(j, o), true;
    if (e == "thunk d1 d2")
        return replay<ecfg<e_thunk, e_d1, e_d2>>(j, o), true;
    if (e == "d1 thunk tx d2")
        return replay<ecfg<e_d1, e_thunk, e_tx, e_d2>>(j, o), true;
    return false;
}
