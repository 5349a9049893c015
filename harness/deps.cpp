#include "deps.hpp"

namespace dw {

#define MAKES(X) X(1) X(2) X(3) X(4) X(5) X(6) X(7) X(8) X(9) X(10) X(11) X(12) X(13) X(14) X(15)
#define DECL(n) std::unique_ptr<bag> make_bag_##n(int, int, bool, bool);
MAKES(DECL)
std::unique_ptr<bag> make_bag(int t, int n1, int n2, bool p1, bool p2)
{
    switch (t) {
#define CASE(n)                                                                          \
    case n: return make_bag_##n(n1, n2, p1, p2);
        MAKES(CASE)
    }
    throw usage("type " + std::to_string(t));
}

void replay(const json& j, const options& opt)
{
    env w;
    w.hash = opt.hash;
    world  = &w;
    for (int i = 1; i < 5; ++i)
        w.obj[i].v = 10 * i;
    std::map<int, std::unique_ptr<bag>> slot;
    auto& h = j["h"];
    for (std::size_t n = 0; n < h.size(); ++n) {
        auto& a  = h[n]["a"];
        auto& o  = h[n]["o"];
        auto& op = a["op"].s;
        int i = a["i"].i, to = i;
        ++st().steps;
        ++st().ops[op];
        auto where = [&] {
            return "step " + std::to_string(n + 1) + " " + a.dump() + ": ";
        };
        if (op == "make") {
            int s   = 2 * ((i - 1) % 2);
            slot[i] = make_bag(a["t"].i, s + 1, s + 2, a["p"][0].truth(), a["p"][1].truth());
            auto bad = slot[i]->convertible();
            MBT_CHECK(bad.empty(), where() << "the bag is" << bad);
        } else if (op == "conv") {
            to       = a["j"].i;
            slot[to] = slot[i]->conv_to(a["t"].i);
        } else if (op == "merge") {
            to       = a["k"].i;
            slot[to] = slot[i]->merge(*slot[a["j"].i]);
        } else if (op == "both") {
            to       = a["k"].i;
            slot[to] = slot[i]->both(*slot[a["j"].i], a["t"].i);
        } else if (op == "copy") {
            to       = a["j"].i;
            slot[to] = slot[i]->clone();
        } else if (op == "mut")
            ++w.obj[a["o"].i].v;
        else if (op != "look")
            throw usage("action " + op);
        for (int k = 1; k <= 2; ++k) {
            int val  = 0;
            auto got = slot[to]->get(k, val);
            auto& e  = o["g"][k - 1];
            auto exp = e[0].s + (e.size() > 1 ? std::to_string(e[1].i) : "");
            MBT_CHECK(got == exp,
                      where() << "dependency " << k << " is " << got << " instead of "
                              << exp);
            MBT_CHECK(val == o["vals"][k - 1].i,
                      where() << "dependency " << k << " has value " << val
                              << " instead of " << o["vals"][k - 1].i);
            st().compared += 2;
        }
        for (int f = 1; f < 5; ++f) {
            MBT_CHECK(w.calls[f] == o["calls"][f - 1].i,
                      where() << "function " << f << " was called " << w.calls[f]
                              << " times instead of " << o["calls"][f - 1].i);
            MBT_CHECK(w.obj[f].v == o["obj"][f - 1].i,
                      where() << "object " << f << " was changed");
            st().compared += 2;
        }
    }
}
} // namespace dw

int main(int argc, char** argv)
{
    return mbt::run(argc, argv, [](const mbt::json& j, const mbt::options& o) {
        dw::replay(j, o);
    });
}
