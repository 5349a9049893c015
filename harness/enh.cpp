#include "enh.hpp"
int main(int argc, char** argv)
{
    return mbt::run(argc, argv, [](const mbt::json& j, const mbt::options& o) {
        std::string e;
        for (auto& x : j["p"]["enh"].a)
            e += (e.empty() ? "" : " ") + x.s;
        if (!(sw::run_enh_1(e, j, o) || sw::run_enh_2(e, j, o) || sw::run_enh_3(e, j, o) || sw::run_enh_4(e, j, o) || sw::run_enh_5(e, j, o) || sw::run_enh_6(e, j, o)))
            throw mbt::usage("enhancers " + e);
    });
}
