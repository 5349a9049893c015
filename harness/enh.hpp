// Stores made with lists of enhancers (EnhMC.tla).
#pragma once
#include "debug.hpp"

#include <lager/extra/thunk.hpp>

namespace sw {

// actions whose default reducer needs dependencies, has no effects, or is not
// to be used because the store has another one
template <class Deps, bool Eff, bool Replaced>
struct eact
{
    int k = 0;
    friend bool operator==(eact a, eact b) { return a.k == b.k; }
};
template <class Deps, bool Eff>
struct ereducer
{
    template <class A>
    auto operator()(model m, A a) const
    {
        auto r = cur->reduce(std::move(m), a.k);
        if constexpr (Eff) {
            using effect_t = lager::effect<A, Deps>;
            using result_t = lager::result<model, A, Deps>;
            auto& e        = cur->action(a.k)["e"];
            return e[0].is("none") ? result_t{r}
                                   : result_t{r, cur->build<effect_t>(e)};
        } else
            return r;
    }
};
template <class Deps, bool Eff, bool Replaced>
auto update(model m, eact<Deps, Eff, Replaced> a)
{
    if (Replaced)
        cur->fault = "the reducer that was replaced runs";
    return ereducer<Deps, Eff>{}(std::move(m), a);
}

enum en
{
    e_fut,
    e_d1,
    e_d2,
    e_red,
    e_thunk,
    e_lin,
    e_tree,
    e_tx,
    e_plain,
};

template <en... Es>
struct ecfg
{
    static constexpr bool has(en e) { return ((Es == e) || ...); }
    // whether e comes before anything that looks at the effects of the reducer
    static constexpr bool early(en e)
    {
        for (auto x : {Es..., e_plain}) {
            if (x == e)
                return true;
            if (x == e_thunk || x == e_lin || x == e_tree)
                return false;
        }
        return false;
    }
    static constexpr bool fits(en e)
    {
        return has(e) && (early(e) || (!has(e_thunk) && !has(e_lin) && !has(e_tree)));
    }
    static constexpr int init    = 5;
    static constexpr bool checks = true;
    static constexpr bool thunk = has(e_thunk), debugger = has(e_lin) || has(e_tree);
    using deps_t =
        std::conditional_t<fits(e_d1),
                           lager::deps<depA&, depB&>,
                           std::conditional_t<fits(e_d2), lager::deps<depA&>, lager::deps<>>>;
    using action_t = eact<deps_t, !has(e_plain), has(e_red)>;
    using effect_t = lager::effect<action_t, deps_t>;

    template <class A, class M, class D>
    using dbg_tt = std::conditional_t<has(e_lin),
                                      lager::debugger<A, M, D>,
                                      lager::tree_debugger<A, M, D>>;
    static inline dbg_server server;

    template <en E>
    static auto enhancer()
    {
        if constexpr (E == e_fut)
            return lager::with_futures;
        else if constexpr (E == e_d1)
            return lager::with_deps(std::ref(the_a), std::ref(the_b));
        else if constexpr (E == e_d2)
            return lager::with_deps(std::ref(the_a2));
        else if constexpr (E == e_red) {
            auto r = mbt::lend(ereducer<deps_t, !has(e_plain)>{});
            return lager::with_reducer(*r);
        }
        else if constexpr (E == e_thunk)
            return lager::with_thunk();
        else if constexpr (E == e_lin)
            return lager::with_debugger<lager::debugger>(server);
        else if constexpr (E == e_tree)
            return lager::with_debugger<lager::tree_debugger>(server);
        else if constexpr (E == e_tx)
            return lager::with_tags<lager::transactional_tag>;
        else
            return [](auto next) { return next; };
    }
    template <class F, class... E>
    static auto with_each(F f, E... e)
    {
        return f(e...);
    }
    static auto make(any_loop l)
    {
        if constexpr (sizeof...(Es) == 0)
            return lager::make_store<action_t>(model{{}, init}, l);
        else
            return with_each(
                [&](auto&... e) {
                    return lager::make_store<action_t>(model{{}, init}, l, e...);
                },
                enhancer<Es>()...);
    }
    template <class M>
    static const model& value(const M& m)
    {
        return m;
    }
    template <class W>
    static lager::future dispatch_thunk(W& w, effect_t e)
    {
        if (w.opt.hash % 2)
            return w.store->dispatch(std::move(e));
        return w.store->dispatch([e](auto&& c) { return e(c); });
    }

    // the debugger that the store has: it decorates the actions and the model of
    // the plain store, with the dependencies that come before it
    struct order
    {
        // the dependencies merged when the debugger is reached
        template <en E, en... Rest, class D>
        static auto deps(D d)
        {
            if constexpr (E == e_lin || E == e_tree)
                return d;
            else if constexpr (E == e_d1)
                return deps<Rest...>(
                    d.merge(lager::make_deps(std::ref(the_a), std::ref(the_b))));
            else if constexpr (E == e_d2)
                return deps<Rest...>(d.merge(lager::make_deps(std::ref(the_a2))));
            else
                return deps<Rest...>(d);
        }
    };
    static auto dbg_deps()
    {
        return order::template deps<Es..., e_lin>(lager::deps<>{});
    }
    using dbg_deps_t = decltype(dbg_deps());
    using dbg_t      = dbg_tt<action_t, model, dbg_deps_t>;
    template <class W>
    static auto& handle(W&)
    {
        return *static_cast<dbg_server::handle<dbg_t>*>(server.last.get());
    }

    template <class W>
    static void dispatch(W& w, const json& x)
    {
        auto& k = x[0].s;
        auto go = [&](auto a) {
            if (w.opt.hash % 2)
                (void) w.store->dispatch(typename dbg_t::action{a});
            else
                (void) handle(w).ctx.dispatch(a);
        };
        using view = std::conditional_t<has(e_lin),
                                        linear<typename dbg_t::model>,
                                        tree<typename dbg_t::model>>;
        if (k == "goto")
            go(typename dbg_t::goto_action{view::cursor(x[1])});
        else if (k == "undo")
            go(typename dbg_t::undo_action{});
        else if (k == "pause")
            go(typename dbg_t::pause_action{});
        else if (k == "resume")
            go(typename dbg_t::resume_action{});
        else
            throw usage("debugger " + k);
    }
    static void end()
    {
        auto& h = *static_cast<dbg_server::handle<dbg_t>*>(server.last.get());
        h.ctx   = {};
        h.data  = {};
        server.last.reset();
    }
    // what the store says apart from the events
    template <class W>
    static void compare(W& w, std::size_t no, const json& a, const json& o)
    {
        std::ostringstream err;
        if (!w.check_deps_in(*w.store))
            err << "the store has the wrong dependencies";
        if constexpr (debugger) {
            using view = std::conditional_t<has(e_lin),
                                            linear<typename dbg_t::model>,
                                            tree<typename dbg_t::model>>;
            auto& d    = o["D"];
            auto m     = w.store->get();
            if (m.paused != d["paused"].truth())
                err << (m.paused ? "it is paused" : "it is not paused");
            else if (m.pending.size() != d["pend"].size())
                err << m.pending.size() << " actions are pending instead of "
                    << d["pend"].size();
            else
                view::compare(m, d, err);
            if (err.str().empty() && !(handle(w).data.get() == m))
                err << "the debugging server sees another state";
            if (err.str().empty() && handle(w).inits != 1)
                err << "the server is initialised " << handle(w).inits << " times";
            st().compared += 4;
        }
        MBT_CHECK(err.str().empty(),
                  "step " << no + 1 << " " << a.dump() << ": " << err.str());
    }
};

bool run_enh_1(const std::string&, const json&, const options&);
bool run_enh_2(const std::string&, const json&, const options&);
bool run_enh_3(const std::string&, const json&, const options&);
bool run_enh_4(const std::string&, const json&, const options&);
bool run_enh_5(const std::string&, const json&, const options&);
bool run_enh_6(const std::string&, const json&, const options&);

} // namespace sw
