#include "http.hpp"
int main(int argc, char** argv)
{
    sw::files fs;
    return mbt::run(argc, argv, [](const mbt::json& j, const mbt::options& o) {
        auto& p = j["p"];
        int k   = (p["trans"].truth() ? 4 : 0) + (p["fut"].truth() ? 2 : 0) +
                (p["eff"].truth() ? 1 : 0);
        if (k == 0)
            sw::run_http_0(j, o);
        else if (k == 3)
            sw::run_http_3(j, o);
        else if (k == 5)
            sw::run_http_5(j, o);
        else
            throw mbt::usage("kind");
    });
}
