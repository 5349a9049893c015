#include "lens.hpp"

namespace lw {
// (in programs without exceptions absent elements are found in another way)
#ifdef LAGER_NO_EXCEPTIONS
#define ROOTS(X_) X_(40) X_(50) X_(60) X_(100) X_(110) X_(130) X_(170)
#else
#define ROOTS(X_) X_(10) X_(20) X_(21) X_(22) X_(23) X_(30) X_(40) X_(50) X_(60) X_(70) X_(80) X_(90) X_(100) X_(110) X_(120) X_(130) X_(140) X_(150) X_(151) X_(152) X_(153) X_(160) X_(161) X_(170) X_(180) X_(190) X_(200) X_(210) X_(220)
#endif
#define DECL(n) template <> void run_root<n>(job&);
ROOTS(DECL)
void replay(const json& j, const options& opt)
{
    job jb{j, opt, j["path"].ints(), {}};
    int r = j["root"].i, first = jb.path[0] - 1;
    // some are compiled in parts
    int part = r == 2 ? (first < 3 ? 0 : first < 7 ? 1 : first < 11 ? 2 : 3)
               : r == 15 ? std::min(first / 3, 3)
               : r == 16 ? std::min(first / 3, 1)
                         : 0;
    switch (r * 10 + part) {
#define CASE(n)                                                                          \
    case n: return run_root<n>(jb);
        ROOTS(CASE)
    }
    throw usage("root");
}
} // namespace lw

int main(int argc, char** argv)
{
    return mbt::run(argc, argv, [](const mbt::json& j, const mbt::options& o) {
        lw::replay(j, o);
    });
}
