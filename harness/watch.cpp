// Replays behaviours of spec/Watch.tla into reader objects.
#include "mbt.hpp"

#include <lager/commit.hpp>
#include <lager/cursor.hpp>
#include <lager/reader.hpp>
#include <lager/lenses.hpp>
#include <lager/state.hpp>
#include <lager/watch.hpp>

#include <memory>
#include <optional>
#include <set>

using namespace mbt;

namespace {

using St = lager::state<int, lager::transactional_tag>;
using Sa = lager::state<int, lager::automatic_tag>;
using R  = lager::reader<int>;
using C  = lager::cursor<int>;

struct call
{
    int o, w, v;
};

struct world
{
    const options& opt;
    chooser ch;
    St a{0};
    Sa b{0};
    std::unique_ptr<R> r[2];
    std::unique_ptr<C> c;
    bool exists[6] = {};
    std::vector<call> log;
    std::map<int, int> owner; // callback -> object, while it is registered
    std::set<int> used;
    int ncb = 0;
    std::string dead;

    world(const options& o)
        : opt{o}
        , ch{o.hash}
    {
        for (auto& x : r)
            x = std::make_unique<R>();
        c = std::make_unique<C>();
        for (auto& x : exists)
            x = true;
    }

    template <class F>
    void on(int i, F f)
    {
        if (i == 1)
            f(a);
        else if (i == 2)
            f(b);
        else if (i == 5)
            f(*c);
        else
            f(*r[i - 3]);
    }
    static auto inc()
    {
        return lager::lenses::getset([](int x) { return (x + 1) % 3; },
                                     [](int, int x) { return (x + 2) % 3; });
    }
    template <class F>
    void expr(const json& nd, F f)
    {
        auto go = [&](auto& s) {
            auto& k = nd[1].s;
            if (k == "self") {
                if (ch(2))
                    f(s);
                else
                    f(C{s});
            } else if (k == "inc") {
                switch (ch(3)) {
                case 0:
                    f(s.zoom(inc()));
                    break;
                case 1:
                    f(s.zoom(inc()).make());
                    break;
                default:
                    f(C{s}[inc()]);
                }
            }
        };
        nd[0].i == 1 ? go(a) : go(b);
    }
    template <class F>
    void par(const json& nd, F f)
    {
        auto g = [](int x) { return x % 2; };
        if (nd[0].i == 1)
            ch(2) ? f(R{a.map(g)}) : f(R{R{a}.map(g).make()});
        else
            ch(2) ? f(R{b.map(g)}) : f(R{R{b}.map(g).make()});
    }

    void exec(int id, const json& pg)
    {
        if (pg[0].is("no") || used.count(id))
            return;
        used.insert(id);
        int i = pg[1].i;
        auto op = pg[0].s;
        if (op == "unb")
            unbind(i);
        else if (op == "des")
            destroy(i);
        else if (op == "wat")
            watch(i, none());
        else if (op == "nud")
            on(i, [](auto& x) { x.nudge(); });
        else if (op == "asg")
            assign(i, pg[2].i);
        else
            throw usage("program " + op);
    }
    static const json& none()
    {
        static json n = parse("[\"no\"]");
        return n;
    }
    auto callback(int i, const json& pg)
    {
        int id    = ++ncb;
        owner[id] = i;
        return [this, i, id, pg](int v) {
            log.push_back({i, id, v});
            if (!owner.count(id))
                dead = "callback " + std::to_string(id) + " of object " +
                       std::to_string(i) + " is called after it was removed";
            auto p = pg; // the closure may go away
            exec(id, p);
        };
    }
    void forget(int i)
    {
        for (auto it = owner.begin(); it != owner.end();)
            it = it->second == i ? owner.erase(it) : std::next(it);
    }
    void watch(int i, const json& pg)
    {
        auto cb = mbt::lend(callback(i, pg));
        on(i, [&](auto& x) { x.watch(*cb); });
    }
    void unbind(int i)
    {
        on(i, [](auto& x) { x.unbind(); });
        forget(i);
    }
    void destroy(int i)
    {
        if (i == 5)
            c.reset();
        else
            r[i - 3].reset();
        exists[i] = false;
        forget(i);
    }
    void assign(int i, int j)
    {
        if (i == 5 && j != 5)
            cursor_inc = false;
        if (i == 5) {
            if (j == 1)
                *c = a;
            else if (j == 2)
                *c = b;
            else
                *c = *c;
        } else
            on(j, [&](auto& x) { *r[i - 3] = x; });
    }

    std::set<int> moved;
    template <class F>
    static bool throws(F f)
    {
        try {
            f();
        } catch (const std::exception&) {
            return true;
        }
        return false;
    }
    void compare(std::size_t no, const json& act, const json& o)
    {
        auto where = [&] {
            return "step " + std::to_string(no + 1) + " " + act.dump() + ": ";
        };
        MBT_CHECK(dead.empty(), where() << dead);
        for (int i = 1; i <= 5; ++i) {
            auto x = o["v"][i - 1].i;
            if (!exists[i])
                continue;
            on(i, [&](auto& s) {
                ++st().compared;
                if (x == 9) {
                    // (what is left of an object that was moved is not said)
                    MBT_CHECK(i < 3 || moved.count(i) || throws([&] { s.get(); }),
                              where() << "object " << i << " is empty and can be read");
                    MBT_CHECK(i != 5 || moved.count(i) || (throws([&] { c->set(1); }) &&
                                         throws([&] { c->update([](int x) { return x; }); })),
                              where() << "object 5 is empty and can be written");
                    return;
                }
                MBT_CHECK(s.get() == x,
                          where() << "object " << i << " shows " << s.get()
                                  << " instead of " << x);
            });
        }
        std::set<int> skip;
        for (auto& x : o["g"].a)
            skip.insert(static_cast<int>(x.i));
        for (int i = 1; i <= 5; ++i) {
            if (skip.count(i))
                continue;
            std::vector<const json*> m;
            std::vector<call> g;
            for (auto& x : o["c"].a)
                if (x["o"].i == i)
                    m.push_back(&x);
            for (auto& x : log)
                if (x.o == i)
                    g.push_back(x);
            ++st().compared;
            if (!align(m, 0, g, 0)) {
                std::string s, t;
                for (auto x : m)
                    s += " " + (*x)["w"].dump() + ":" + (*x)["v"].dump() +
                         ((*x)["may"].truth() ? "?" : "");
                for (auto& x : g)
                    t += " " + show(x.w) + ":" + show(x.v);
                MBT_FAIL(where() << "object " << i << " had the calls" << t
                                 << " instead of" << s);
            }
        }
    }
    bool align(const std::vector<const json*>& m, std::size_t i,
               const std::vector<call>& g, std::size_t k)
    {
        if (i == m.size())
            return k == g.size();
        if (k < g.size() && (*m[i])["v"].i == g[k].v && (*m[i])["w"].i == g[k].w &&
            align(m, i + 1, g, k + 1))
            return true;
        return (*m[i])["may"].truth() && align(m, i + 1, g, k);
    }

    void run(const json& j)
    {
        auto& hist = j["h"];
        for (std::size_t n = 0; n < hist.size(); ++n) {
            auto& x  = hist[n]["a"];
            auto& op = x["op"].s;
            int i = x["i"].i, k = x["j"].i;
            log.clear();
            ++st().steps;
            ++st().ops[op];
            if (op == "watch") {
                if (ch(2))
                    watch(i, x["pg"]);
                else {
                    auto cb = mbt::lend(callback(i, x["pg"]));
                    on(i, [&](auto& v) { lager::watch(v, *cb); });
                }
            } else if (op == "bind") {
                auto cb = mbt::lend(callback(i, none()));
                on(i, [&](auto& v) { v.bind(*cb); });
            } else if (op == "nudge")
                on(i, [](auto& v) { v.nudge(); });
            else if (op == "unbind")
                unbind(i);
            else if (op == "assign")
                assign(i, k);
            else if (op == "move") {
                if (i == 5)
                    throw usage("move");
                *r[i - 3] = std::move(*r[k - 3]);
            } else if (op == "expr" || op == "mkexpr") {
                auto& nd = x["nd"];
                if (op == "mkexpr")
                    exists[i] = true;
                auto put = [&](auto&& e) {
                    using e_t = std::decay_t<decltype(e)>;
                    if (i == 5) {
                        if constexpr (!std::is_same_v<e_t, R>) {
                            if (op == "expr")
                                *c = std::forward<decltype(e)>(e);
                            else
                                c = std::make_unique<C>(std::forward<decltype(e)>(e));
                        }
                    } else if (op == "expr")
                        *r[i - 3] = R(std::forward<decltype(e)>(e));
                    else
                        r[i - 3] = std::make_unique<R>(std::forward<decltype(e)>(e));
                };
                if (nd[1].is("par"))
                    par(nd, put);
                else
                    expr(nd, put);
            } else if (op == "empty") {
                if (i == 5)
                    *c = C{};
                else
                    *r[i - 3] = R{};
            } else if (op == "destroy")
                destroy(i);
            else if (op == "mkcopy") {
                exists[i] = true;
                if (i == 5) {
                    if (k == 1)
                        c = std::make_unique<C>(a);
                    else
                        c = std::make_unique<C>(b);
                } else
                    on(k, [&](auto& v) { r[i - 3] = std::make_unique<R>(v); });
            } else if (op == "mkmove") {
                exists[i] = true;
                r[i - 3]  = std::make_unique<R>(std::move(*r[k - 3]));
            } else if (op == "set") {
                int v = x["x"].i;
                if (x["by"].is("c")) {
                    if (c->get() >= 0) {
                        // the cursor is on the source or on its successor
                        auto other = (v + 1) % 3;
                        c->set(cursor_inc ? other : v);
                    }
                } else if (x["s"].i == 1)
                    a.set(v);
                else
                    b.set(v);
            } else if (op == "commit")
                lager::commit(a);
            else
                throw usage("action " + op);
            track(x);
            if (op == "assign" || op == "move" || op == "expr" || op == "empty" ||
                op == "mkcopy" || op == "mkmove" || op == "mkexpr")
                moved.erase(i);
            if (op == "move" || op == "mkmove")
                moved.insert(k);
            compare(n, x, hist[n]["o"]);
        }
        log.clear();
    }
    // which lens the cursor object has, to write a given value of the source
    bool cursor_inc = false;
    void track(const json& x)
    {
        auto& op = x["op"].s;
        if (x["i"].i != 5)
            return;
        if (op == "expr" || op == "mkexpr")
            cursor_inc = x["nd"][1].is("inc");
        else if (op == "mkcopy" && x["j"].i != 5)
            cursor_inc = false;
    }
};

} // namespace

int main(int argc, char** argv)
{
    return mbt::run(argc, argv, [](const json& j, const options& o) {
        world w{o};
        w.run(j);
    });
}
