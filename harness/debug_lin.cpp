#include "debug.hpp"
int main(int argc, char** argv)
{
    return mbt::run(argc, argv, [](const mbt::json& j, const mbt::options& o) {
        auto& p  = j["p"];
        bool t   = p["trans"].truth();
        bool eff = p["eff"].truth();
        if (p["fut"].truth())
            t ? sw::run_lin_11(j, o, eff) : sw::run_lin_01(j, o, eff);
        else
            t ? sw::run_lin_10(j, o, eff) : sw::run_lin_00(j, o, eff);
    });
}
