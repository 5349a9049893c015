// Replays behaviours of spec/Store.tla into stores.
#pragma once

#include "mbt.hpp"

#include <lager/commit.hpp>
#include <lager/event_loop/boost_asio.hpp>
#include <lager/event_loop/manual.hpp>
#include <lager/event_loop/queue.hpp>
#include <lager/event_loop/safe_queue.hpp>
#include <lager/store.hpp>
#include <lager/watch.hpp>

#include <boost/asio/io_context.hpp>

#ifdef STORE_SERIALISE
#include <cereal/cereal.hpp>
#endif

#include <deque>
#include <optional>
#include <set>

namespace sw {

using namespace mbt;
using ivec = std::vector<int>;

struct model
{
    ivec v;
    int init = 0; // copied from the first model
    friend bool operator==(const model& a, const model& b)
    {
        return a.v == b.v && a.init == b.init;
    }
    friend bool operator!=(const model& a, const model& b) { return !(a == b); }
#ifdef STORE_SERIALISE
    template <class A>
    void serialize(A& a)
    {
        a(cereal::make_nvp("v", v), cereal::make_nvp("init", init));
    }
#endif
};

// actions of reducers with (Eff) and without effects
template <bool Eff>
struct act
{
    int k = 0;
    friend bool operator==(act a, act b) { return a.k == b.k; }
#ifdef STORE_SERIALISE
    template <class A>
    void serialize(A& a)
    {
        a(cereal::make_nvp("k", k));
    }
#endif
};

// what some effects dispatch instead, so that they are converted (along with
// the context that they are given)
template <class Action>
struct part
{
    int k = 0;
    operator Action() const { return {k}; }
};
template <class T>
struct is_part : std::false_type
{};
template <class T>
struct is_part<part<T>> : std::true_type
{};

// ------------------------------------------------------------- event loops
struct loops
{
    std::string kind;
    std::deque<std::function<void()>> own;
    lager::with_manual_event_loop manual;
    lager::queue_event_loop queue;
    lager::safe_queue_event_loop safe;
    boost::asio::io_context io;

    template <class F>
    void post(F f)
    {
        auto g = mbt::lend(std::function<void()>{std::move(f)});
        if (++posts % 2)
            put(*g);
        else
            put(std::function<void()>{*g});
    }
    int posts = 0;
    template <class F>
    void put(F&& f)
    {
        if (kind == "one")
            own.push_back(std::forward<F>(f));
        else if (kind == "manual")
            manual.post(std::forward<F>(f));
        else if (kind == "queue")
            lager::with_queue_event_loop{queue}.post(std::forward<F>(f));
        else if (kind == "safe")
            lager::with_safe_queue_event_loop{safe}.post(std::forward<F>(f));
        else if (kind == "asio")
            lager::with_boost_asio_event_loop{io.get_executor()}.post(std::forward<F>(f));
        else
            throw usage("loop " + kind);
    }
    // runs one function, if there is one
    bool one()
    {
        if (kind == "one") {
            if (own.empty())
                return false;
            auto f = std::move(own.front());
            own.pop_front();
            f();
            return true;
        }
        io.restart();
        return io.poll_one() > 0;
    }
    void drain()
    {
        if (kind == "queue")
            queue.step();
        else if (kind == "safe")
            safe.step();
        else if (kind != "manual")
            while (one())
                ;
    }
};

inline void note_loop(const char*); // the loop is paused or resumed

struct any_loop
{
    loops* l;
    template <typename Fn>
    void post(Fn&& fn)
    {
        l->post(std::forward<Fn>(fn));
    }
    template <typename Fn>
    void async(Fn&&)
    {
        throw std::logic_error{"async"};
    }
    void finish() {}
    void pause() { note_loop("pz"); }
    void resume() { note_loop("rs"); }
};

struct event
{
    std::string t;
    int k;
    ivec m, g;
    int d;
};

// what effects and continuations can do
struct ctxi
{
    std::function<lager::future(int)> dispatch;
    std::function<void(std::function<void()>)> post;
};

struct iworld
{
    json p; // program
    std::vector<event> log;
    loops lp;
    std::string fault;
    virtual ~iworld()         = default;
    virtual void commit()     = 0;
    virtual ivec get()        = 0;
    virtual int derived()     = 0;
    virtual bool check_deps() { return true; }
    std::vector<std::string> active; // user functions being run
    int committing = 0;

    bool fut() const { return p["fut"].truth(); }
    bool manual() const { return p["loop"].is("manual"); }

    void record(const char* t, int k, ivec m = {})
    {
        log.push_back({t, k, std::move(m), get(), derived()});
    }
    struct scope
    {
        iworld& w;
        scope(iworld& x, const std::string& what)
            : w{x}
        {
            if (!w.active.empty() && !w.committing && w.fault.empty())
                w.fault = what + " runs inside of " + w.active.back();
            w.active.push_back(what);
        }
        ~scope() { w.active.pop_back(); }
    };
    // while a commit is made from outside of a manual loop, dispatch() runs the
    // loop: what happens then is not nested in the watchers
    int idle_commit = 0;
    // (in a continuation of a store without futures that was attached outside)
    bool outside = false;
    void do_commit()
    {
        auto idle = manual() && (active.empty() || (outside && active.size() == 1));
        if (idle)
            idle_commit = 1;
        ++committing;
        commit();
        --committing;
        if (idle)
            idle_commit = 0;
    }

    void ops(const ctxi& c, const json& os)
    {
        for (auto& o : os.a) {
            auto& k = o[0].s;
            if (k == "d")
                (void) c.dispatch(o[1].i);
            else if (k == "dt")
                then(c, c.dispatch(o[1].i), o[2].i);
            else if (k == "also") {
                auto a = c.dispatch(o[1].i);
                auto b = c.dispatch(o[2].i);
                then(c, std::move(a).also(std::move(b)), o[3].i);
            } else if (k == "com") {
                if (p["trans"].truth())
                    do_commit();
            } else if (k == "post") {
                int id = o[1].i;
                c.post([this, id] {
                    scope s{*this, "function"};
                    record("fn", id);
                });
            } else
                throw usage("op " + k);
        }
    }
    lager::future then(const ctxi& c, lager::future f, int id)
    {
        // without futures the callbacks are called at once
        bool valid  = bool(f);
        auto& cont  = p["cont"][id - 1];
        int ret     = cont["ret"].i;
        auto common = [this, c, id, &cont, valid] {
            if (!valid)
                ++committing; // not a fault
            auto was = outside;
            outside  = !valid && active.empty();
            {
                scope s{*this, "continuation " + std::to_string(id)};
                record("cont", id);
                ops(c, cont["ops"]);
            }
            outside = was;
            if (!valid)
                --committing;
        };
        if (ret) {
            auto g = mbt::lend([common, c, ret]() -> lager::future {
                common();
                return c.dispatch(ret);
            });
            return std::move(f).then(*g);
        } else {
            auto g = mbt::lend([common] { common(); });
            return std::move(f).then(*g);
        }
    }

    unsigned nulls_ = 0, narrow_ = 0;
    template <class Effect>
    Effect build(const json& e)
    {
        auto& k = e[0].s;
        if constexpr (!is_part<typename Effect::action_t>::value) {
            using narrow = part<typename Effect::action_t>;
            if (++narrow_ % 3 == 0)
                return build<lager::effect<narrow, typename Effect::deps_t>>(e);
            if (narrow_ % 3 == 1)
                return build<lager::effect<narrow>>(e);
        }
        if (k == "seq") {
            if (e[1][0].is("seq"))
                return lager::sequence(build<Effect>(e[1][1]),
                                       build<Effect>(e[1][2]),
                                       build<Effect>(e[2]));
            return lager::sequence(build<Effect>(e[1]), build<Effect>(e[2]));
        }
        if (k == "noop" || k == "none")
            return lager::noop;
        if (k == "null") {
            // an empty effect, of this type or of another one
            if (++nulls_ % 2)
                return Effect{nullptr};
            return lager::effect<lager::actions<typename Effect::action_t>>{nullptr};
        }
        int id  = e[1].i;
        auto os = e[2];
        auto go = [this, id, os](const auto& c) {
            if (!check_deps_in(c))
                fault = "wrong dependencies in the effect";
            ctxi x{[c](int n) { return c.dispatch(typename Effect::action_t{n}); },
                   [c](auto f) { c.loop().post(std::move(f)); }};
            scope s{*this, "effect " + std::to_string(id)};
            record("eff", id);
            ops(x, os);
            return x;
        };
        if (k == "do")
            return [go](auto&& c) { go(c); };
        int n = e[3].i;
        if (k == "fut")
            return [go, n](auto&& c) -> lager::future { return go(c).dispatch(n); };
        if (k == "then") {
            int cont = e[4].i;
            return [this, go, n, cont](auto&& c) -> lager::future {
                auto x = go(c);
                return then(x, x.dispatch(n), cont);
            };
        }
        throw usage("effect " + k);
    }
    template <class Ctx>
    bool check_deps_in(const Ctx& c);

    const json& action(int k) { return p["act"][k - 1]; }
    int init_ = 0;
    model reduce(model m, int k)
    {
        scope s{*this, "reducer"};
        record("red", k, m.v);
        if (m.init != init_ && fault.empty())
            fault = "the first model was lost";
        if (!action(k)["id"].truth())
            m.v.push_back(k);
        return m;
    }
};
inline iworld* cur = nullptr;
inline void note_loop(const char* t)
{
    if (cur)
        cur->record(t, 0);
}

// a dependency that some stores have
struct depA
{
    int x = 7;
};
struct depB
{
    int x = 8;
};
inline depA the_a;
inline depB the_b;
inline depA the_a2;
// whether a context has the dependencies that the program says
template <class Ctx>
bool iworld::check_deps_in(const Ctx& c)
{
    using deps_t = typename Ctx::deps_t;
    (void) c;
    if constexpr (std::is_convertible_v<deps_t, lager::deps<depA&>>) {
        ++st().compared;
        if (&lager::get<depA>(c) != (p["depA"].i == 1 ? &the_a : &the_a2))
            return false;
    }
    if constexpr (std::is_convertible_v<deps_t, lager::deps<depB&>>) {
        ++st().compared;
        if (&lager::get<depB>(c) != &the_b)
            return false;
    }
    return true;
}

inline model update(model m, act<false> a) { return cur->reduce(std::move(m), a.k); }

template <class Deps>
struct reducer
{
    using effect_t = lager::effect<act<true>, Deps>;
    lager::result<model, act<true>, Deps> operator()(model m, act<true> a) const
    {
        auto r  = cur->reduce(std::move(m), a.k);
        auto& e = cur->action(a.k)["e"];
        if (e[0].is("none"))
            return r;
        return {r, cur->build<effect_t>(e)};
    }
};
inline lager::result<model, act<true>> update(model m, act<true> a)
{
    return reducer<lager::deps<>>{}(std::move(m), a);
}

template <class Cfg, class = void>
struct has_requests : std::false_type
{};
template <class Cfg>
struct has_requests<Cfg, std::void_t<decltype(&Cfg::request)>> : std::true_type
{};

template <class Cfg, class = void>
struct has_checks : std::false_type
{};
template <class Cfg>
struct has_checks<Cfg, std::enable_if_t<Cfg::checks>> : std::true_type
{};

// Cfg::make(any_loop) makes the store, Cfg::effect_t is the type of thunks
template <class Cfg>
struct world : iworld
{
    using store_t = decltype(Cfg::make(std::declval<any_loop>()));
    const options& opt;
    std::optional<store_t> store;
    lager::reader<int> dr;
    std::set<int> used;
    std::vector<lager::future> held;

    world(const json& prog, const options& o)
        : opt{o}
    {
        p       = prog;
        lp.kind = p["loop"].s;
        cur     = this;
        init_   = Cfg::init;
        store.emplace(Cfg::make(any_loop{&lp}));
        dr = (*store).xform(zug::map(
            [](const auto& m) { return int(Cfg::value(m).v.size()) % 2; }));
        store->watch([this](const auto&) { watcher(1, "w1"); });
        dr.watch([this](int) { watcher(2, "w2"); });
    }
    ~world()
    {
        held.clear();
        if constexpr (Cfg::debugger)
            Cfg::end();
        cur = nullptr;
    }
    ctxi ext()
    {
        return {[this](int k) { return dispatch(k); },
                [this](auto f) { lp.post(std::move(f)); }};
    }
    lager::future dispatch(int k)
    {
        auto& a = action(k);
        if (a["th"].truth()) {
            if constexpr (Cfg::thunk)
                return Cfg::dispatch_thunk(
                    *this, build<typename Cfg::effect_t>(a["e"]));
            else
                throw usage("thunk");
        }
        return store->dispatch(typename Cfg::action_t{k});
    }
    void watcher(int i, const char* t)
    {
        scope s{*this, t};
        record(t, 0);
        if (!used.count(i)) {
            used.insert(i);
            auto save  = committing;
            committing = idle_commit;
            ops(ext(), p["w"][i - 1]);
            committing = save;
        }
    }
    void commit() override { lager::commit(*store); }
    ivec get() override
    {
        auto full = store->get();
        auto& m   = Cfg::value(full);
        if (m.init != Cfg::init && fault.empty())
            fault = "the first model was lost";
        return m.v;
    }
    int derived() override { return dr.get(); }

    static std::string str(const event& e, bool g)
    {
        return " " + e.t + std::to_string(e.k) +
               (e.t == "red" ? show(e.m) : std::string{}) +
               (g ? "@" + show(e.g) : std::string{});
    }
    void compare(std::size_t no, const json& a, const json& o)
    {
        auto where = [&] {
            return "step " + std::to_string(no + 1) + " " + a.dump() + ": ";
        };
        if (opt.cmp('r') || opt.cmp('n'))
            MBT_CHECK(fault.empty(), where() << fault);
        auto in = [&](const std::string& t) {
            return t == "pz" || t == "rs" ? opt.cmp('p')
                   : t == "red"  ? opt.cmp('r')
                   : t == "cont" ? opt.cmp('c')
                   : t[0] == 'w' ? opt.cmp('w')
                                 : opt.cmp('e');
        };
        std::string x, y;
        for (auto& e : o["c"].a)
            if (in(e["t"].s)) {
                x += str({e["t"].s,
                          int(e["k"].i),
                          e["m"].ints(),
                          e["g"].ints(),
                          int(e["d"].i)},
                         opt.cmp('g'));
                ++st().compared;
            }
        for (auto& e : log)
            if (in(e.t))
                y += str(e, opt.cmp('g'));
        MBT_CHECK(x == y, where() << "happens:" << y << " instead of:" << x);
        if (opt.cmp('g') || (opt.cmp('r') && o["idle"].truth() && !p["trans"].truth())) {
            MBT_CHECK(get() == o["g"].ints(),
                      where() << "the store shows " << show(get()) << " instead of "
                              << show(o["g"].ints()));
            MBT_CHECK(derived() == o["d"].i,
                      where() << "the derived reader shows " << derived()
                              << " instead of " << o["d"].i);
            st().compared += 2;
        }
    }
    void run(const json& hist)
    {
        for (std::size_t i = 0; i < hist.size(); ++i) {
            auto& a  = hist[i]["a"];
            auto& op = a["op"].s;
            log.clear();
            ++st().steps;
            ++st().ops[op];
            if (op == "d")
                (void) dispatch(a["k"].i);
            else if (op == "dt")
                (void) then(ext(), dispatch(a["k"].i), a["c"].i);
            else if (op == "also") {
                auto x = dispatch(a["k"].i);
                auto y = dispatch(a["l"].i);
                (void) then(ext(), std::move(x).also(std::move(y)), a["c"].i);
            } else if (op == "hold")
                held.push_back(dispatch(a["k"].i));
            else if (op == "attach") {
                auto f = std::move(held.front());
                held.erase(held.begin());
                (void) then(ext(), std::move(f), a["c"].i);
            } else if (op == "attachalso") {
                auto x = std::move(held[0]);
                auto y = std::move(held[1]);
                held.clear();
                (void) then(ext(), std::move(x).also(std::move(y)), a["c"].i);
            } else if (op == "step")
                while (log.empty() && lp.one())
                    ;
            else if (op == "dbg") {
                if constexpr (Cfg::debugger)
                    Cfg::dispatch(*this, a["x"]);
            } else if (op == "req") {
                if constexpr (has_requests<Cfg>::value)
                    Cfg::request(a["x"]);
            } else if (op == "drain")
                lp.drain();
            else if (op == "commit")
                do_commit();
            else
                throw usage("action " + op);
            compare(i, a, hist[i]["o"]);
            if constexpr (Cfg::debugger || has_checks<Cfg>::value)
                Cfg::compare(*this, i, a, hist[i]["o"]);
        }
    }
};

template <class Cfg>
void replay(const json& j, const options& o)
{
    world<Cfg> w{j["p"], o};
    w.run(j["h"]);
}

} // namespace sw
