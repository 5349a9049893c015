#include "context.hpp"

namespace cw {

struct base_root
{
    virtual ~base_root() = default;
    std::unique_ptr<ictx> ctx_;
};
template <int L>
struct fn_root : base_root
{
    loop_t loop;
    fn_root(dep_t& d)
    {
        auto fn = [](auto&& a) -> lager::future {
            log("fn", dump(a));
            return {};
        };
        ctx_ = std::make_unique<ctx<L>>(
            context_t<L>{fn, loop, lager::make_deps(std::ref(d))});
    }
};
template <int L, class Act, bool Fut>
struct store_root : base_root
{
    static auto make(dep_t& d)
    {
        auto red = [](int m, Act a) {
            log("red", dump(a));
            return m + 1;
        };
        if constexpr (Fut)
            return lager::make_store<Act>(0,
                                          loop_t{},
                                          lager::with_reducer(red),
                                          lager::with_deps(std::ref(d)),
                                          lager::with_futures);
        else
            return lager::make_store<Act>(
                0, loop_t{}, lager::with_reducer(red), lager::with_deps(std::ref(d)));
    }
    decltype(make(std::declval<dep_t&>())) store;
    store_root(dep_t& d)
        : store{make(d)}
    {
        ctx_ = std::make_unique<ctx<L>>(store);
    }
};

void replay(const json& j, const options& opt)
{
    env w;
    w.hash = opt.hash;
    world  = &w;
    chooser pick{opt.hash};
    dep_t dep;
    auto& r = j["root"];
    std::unique_ptr<base_root> root;
    auto l = r["list"].i;
    if (r["store"].truth()) {
        bool fut = r["fut"].truth();
        if (l == 1 && fut)
            root = std::make_unique<store_root<1, W, true>>(dep);
        else if (l == 1)
            root = std::make_unique<store_root<1, W, false>>(dep);
        else if (l == 2)
            root = std::make_unique<store_root<2, V, false>>(dep);
    } else if (l == 9)
        root = std::make_unique<fn_root<9>>(dep);
    else if (l == 8)
        root = std::make_unique<fn_root<8>>(dep);
    if (!root)
        throw usage("root");
    std::vector<std::unique_ptr<ictx>> ctxs;
    ctxs.push_back(std::move(root->ctx_));
    auto& h = j["h"];
    for (std::size_t n = 0; n < h.size(); ++n) {
        auto& a  = h[n]["a"];
        auto& o  = h[n]["o"];
        auto& op = a["op"].s;
        ++st().steps;
        ++st().ops[op];
        auto where = [&] {
            return "step " + std::to_string(n + 1) + " " + a.dump() + ": ";
        };
        w.convs = 0;
        w.log.clear();
        auto at = [&]() -> ictx& { return *ctxs.at(a["i"].i - 1); };
        if (op == "derive") {
            ctxs.push_back(ctxs.at(a["p"].i - 1)->derive(a["l"].i, a["conv"].s, pick));
            MBT_CHECK(ctxs.back()->dep() == &dep, where() << "the dependency is lost");
        } else if (op == "d") {
            int num = a["n"].i;
            auto f  = at().dispatch(a["t"].s, num, pick);
            MBT_CHECK(bool(f) == r["fut"].truth(),
                      where() << "the future that was returned is "
                              << (f ? "valid" : "not valid"));
            if (f)
                std::move(f).then([num] { log("done", std::to_string(num)); });
        } else if (op == "post") {
            int num = a["n"].i;
            auto f  = a["f"].s;
            auto fn = [num, f] { log(f, std::to_string(num)); };
            if (f == "post")
                at().loop().post(fn);
            else
                at().loop().async(fn);
            MBT_CHECK(!w.q.empty() && w.q.back().first == f,
                      where() << "the loop did not get what was posted");
        } else if (op == "call") {
            auto& f = a["f"].s;
            if (f == "finish")
                at().loop().finish();
            else if (f == "pause")
                at().loop().pause();
            else
                at().loop().resume();
        } else if (op == "drain") {
            while (!w.q.empty()) {
                auto f = std::move(w.q.front().second);
                w.q.pop_front();
                f();
            }
        } else
            throw usage("action " + op);
        std::string got = "[", exp = o["log"].dump();
        for (auto& x : w.log)
            got += (got.size() > 1 ? "," : "") + x;
        got += "]";
        MBT_CHECK(got == exp, where() << "happened: " << got << " instead of " << exp);
        MBT_CHECK(w.convs == o["convs"].i,
                  where() << "converters were called " << w.convs << " times instead of "
                          << o["convs"].i);
        st().compared += 2;
    }
    w.q.clear();
}
} // namespace cw

int main(int argc, char** argv)
{
    return mbt::run(argc, argv, [](const mbt::json& j, const mbt::options& o) {
        cw::replay(j, o);
    });
}
