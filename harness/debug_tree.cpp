#include "debug.hpp"
int main(int argc, char** argv)
{
    return mbt::run(argc, argv, [](const mbt::json& j, const mbt::options& o) {
        auto& p  = j["p"];
        bool t   = p["trans"].truth();
        bool eff = p["eff"].truth();
        if (p["fut"].truth())
            t ? sw::run_tree_11(j, o, eff) : sw::run_tree_01(j, o, eff);
        else
            t ? sw::run_tree_10(j, o, eff) : sw::run_tree_00(j, o, eff);
    });
}
