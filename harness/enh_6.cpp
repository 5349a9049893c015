#include "enh.hpp"
bool sw::run_enh_6(const std::string& e, const json& j, const options& o)
{
    if (e == "fut lin d2")
        return replay<ecfg<e_fut, e_lin, e_d2>>(j, o), true;
    if (e == "red lin fut d1")
        return replay<ecfg<e_red, e_lin, e_fut, e_d1>>(j, o), true;
    if (e == "plain thunk")
        return replay<ecfg<e_plain, e_thunk>>(j, o), true;
    return false;
}
