// Replays behaviours of spec/Serial.tla with cereal's archives (C31).
#include "serial.hpp"

namespace sw {

#define CELLS(X) X(1) X(2) X(3) X(4) X(5) X(6) X(7) X(8) X(9) X(10) X(11) X(12) X(13) X(14) X(15) X(16) X(17) X(18) X(19) X(20) X(21) X(22) X(23) X(24) X(25) X(26) X(27) X(28)
#define DECL(n) template <> std::unique_ptr<cell> cell_of<n>();
CELLS(DECL)
std::unique_ptr<cell> make_cell(int t)
{
    switch (t) {
#define CASE(n)                                                                          \
    case n: return cell_of<n>();
        CELLS(CASE)
    }
    throw usage("type " + std::to_string(t));
}

void replay(const json& j, const options& opt)
{
    chooser ch{opt.hash};
    auto& h = j["h"];
    std::unique_ptr<cell> c[5];
    std::unique_ptr<writer> w;
    std::unique_ptr<reader> r;
    std::string saved;
    int kind = ch(kinds_n);
    // many items, so that containers have a structure
    int many = ch(200);
    blow()   = blow_t{};
    if (many < 20)
        blow().n = 2 + many % 3;
    else if (many < 24)
        blow() = {70, false, 0};
    else if (many < 25)
        blow() = {300, false, 0};
    auto types = h[0]["o"]["t"].ints();
    for (int i = 1; i < 5; ++i)
        c[i] = make_cell(types[i > 2]);
    for (std::size_t n = 0; n < h.size(); ++n) {
        auto& a  = h[n]["a"];
        auto& o  = h[n]["o"];
        auto& op = a["op"].s;
        int i    = a["i"].i;
        ++st().steps;
        ++st().ops[op];
        auto where = [&] {
            return "step " + std::to_string(n + 1) + " " + a.dump() + " of types " +
                   std::to_string(types[0]) + " and " + std::to_string(types[1]) +
                   " in archive " + std::to_string(kind) + ": ";
        };
        try {
            if (op == "set")
                c[i]->set(a["x"]);
            else if (op == "copy")
                c[a["j"].i]->copy(*c[i]);
            else if (op == "save") {
                if (!w)
                    w = std::make_unique<writer>(kind);
                c[i]->save(*w);
            } else if (op == "load") {
                if (!r) {
                    if (w)
                        saved = w->finish();
                    w.reset();
                    r = std::make_unique<reader>(kind, saved);
                }
                c[i]->load(*r);
            } else if (op == "rewind")
                r.reset();
            else if (op == "clear") {
                r.reset();
                w.reset();
                kind = ch(kinds_n);
            } else if (op == "json")
                c[a["j"].i]->through(*c[i]);
            else if (op != "begin")
                throw usage("action " + op);
        } catch (const usage&) {
            throw;
        } catch (const std::exception& e) {
            MBT_FAIL(where() << "throws " << e.what()
                             << (saved.empty() || kind != json_k ? "" : " with " + saved));
        }
        for (int k = 1; k < 5; ++k) {
            auto& e = o["v"][k - 1];
            MBT_CHECK(c[k]->is(e), where() << "place " << k << " holds " << c[k]->show()
                                           << " instead of " << text(e));
            ++st().compared;
        }
        for (int k = 0; k < 2; ++k) {
            int s = c[1 + 2 * k]->same(*c[2 + 2 * k]);
            MBT_CHECK(s == o["eq"][k].i,
                      where() << "places " << 1 + 2 * k << " and " << 2 + 2 * k
                              << (s == 2 ? " have inconsistent comparisons"
                                  : s    ? " compare equal"
                                         : " do not compare equal"));
            ++st().compared;
        }
    }
}
} // namespace sw

int main(int argc, char** argv)
{
    return mbt::run(argc, argv, [](const mbt::json& j, const mbt::options& o) {
        sw::replay(j, o);
    });
}
