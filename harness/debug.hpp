// Stores with debuggers.
#pragma once
#include "store_world.hpp"

#include <lager/effect.hpp>

#include <lager/debug/debugger.hpp>
#include <lager/debug/tree_debugger.hpp>

namespace sw {

// what the debuggers look like from outside
template <class M>
struct linear
{
    using cursor_t = std::size_t;
    static cursor_t cursor(const json& j) { return j.i; }
    static void compare(const M& m, const json& d, std::ostream& err)
    {
        auto& h = d["h"];
        if (m.history.size() != h.size())
            err << "the history has " << m.history.size() << " steps instead of "
                << h.size();
        else if (m.summary() != h.size())
            err << "the summary is " << m.summary();
        else if (long(m.cursor) != d["c"].i)
            err << "the cursor is at " << m.cursor << " instead of " << d["c"].i;
        else
            for (std::size_t i = 0; i <= h.size(); ++i) {
                auto r = m.lookup(i);
                if (bool(r.first) != (i > 0))
                    err << "step " << i << " has the wrong kind of action";
                else if (i > 0 && r.first->k != h[i - 1]["k"].i)
                    err << "step " << i << " has the action " << r.first->k;
                else if (r.second.v != (i ? h[i - 1]["m"].ints() : ivec{}))
                    err << "step " << i << " has the model " << show(r.second.v);
                st().compared += 2;
            }
    }
};

template <class M>
struct tree
{
    using cursor_t = decltype(M::cursor);
    static cursor_t cursor(const json& j)
    {
        cursor_t c;
        for (auto& x : j.a)
            c = c.push_back({std::size_t(x[0].i), std::size_t(x[1].i)});
        return c;
    }
    template <class Branches>
    static std::size_t count(const Branches& bs)
    {
        std::size_t n = 0;
        for (auto& b : bs)
            for (auto& s : b)
                n += 1 + count(s->branches);
        return n;
    }
    template <class Branches>
    static bool summary(const Branches& bs, const json& d)
    {
        if (bs.size() != d.size())
            return false;
        for (std::size_t i = 0; i < bs.size(); ++i) {
            if (bs[i].size() != d[i].size())
                return false;
            for (std::size_t k = 0; k < bs[i].size(); ++k) {
                auto& s = *bs[i][k];
                if (s.steps != std::size_t(d[i][k]["n"].i) ||
                    !summary(s.branches, d[i][k]["b"]))
                    return false;
            }
        }
        ++st().compared;
        return true;
    }
    static void compare(const M& m, const json& d, std::ostream& err)
    {
        auto& t = d["t"];
        if (count(m.branches) != t.size())
            err << "there are " << count(m.branches) << " steps instead of "
                << t.size();
        else if (!(m.cursor == cursor(d["a"])))
            err << "the cursor is not at " << d["a"].dump();
        else if (!summary(m.summary(), d["s"]))
            err << "the summary is not " << d["s"].dump();
        else if (!m.check(cursor_t{}) || m.lookup(cursor_t{}).first ||
                 !m.lookup(cursor_t{}).second.v.empty())
            err << "the initial step is wrong";
        else
            for (auto& n : t.a) {
                auto c = cursor(n["a"]);
                if (!m.check(c)) {
                    err << "the step " << n["a"].dump() << " is gone";
                    return;
                }
                auto r = m.lookup(c);
                if (!r.first || r.first->k != n["k"].i)
                    err << "the step " << n["a"].dump() << " has another action";
                else if (r.second.v != n["m"].ints())
                    err << "the step " << n["a"].dump() << " has the model "
                        << show(r.second.v);
                st().compared += 2;
            }
    }
};

// a server that only keeps what it is given
struct dbg_server
{
    template <class D>
    struct handle
    {
        lager::context<typename D::action> ctx;
        lager::reader<typename D::model> data;
        int inits = 0;
        void init(lager::context<typename D::action> c,
                  lager::reader<typename D::model> r)
        {
            ctx  = std::move(c);
            data = std::move(r);
            ++inits;
        }
    };
    std::shared_ptr<void> last;
    template <class D>
    auto make(D)
    {
        auto h = std::make_shared<handle<D>>();
        last   = h;
        return h;
    }
};

template <template <class, class, class> class Dbg,
          template <class> class View,
          bool Trans,
          bool Fut,
          bool Eff>
struct debugged
{
    static constexpr int init   = 0;
    static constexpr bool thunk = false, debugger = true;
    using action_t = act<Eff>;
    using effect_t = void;
    using tag_t    = std::conditional_t<Trans,
                                     lager::transactional_tag,
                                     lager::automatic_tag>;
    using dbg_t    = Dbg<action_t, model, lager::deps<>>;
    using model_t  = typename dbg_t::model;
    using handle_t = dbg_server::handle<dbg_t>;
    static inline dbg_server server;
    static handle_t& handle() { return *static_cast<handle_t*>(server.last.get()); }

    static const model& value(const model_t& m) { return m; }
    static auto make(any_loop l)
    {
        if constexpr (Fut)
            return lager::make_store<action_t, tag_t>(
                model{},
                l,
                lager::with_futures,
                lager::with_debugger<Dbg>(server));
        else
            return lager::make_store<action_t, tag_t>(
                model{}, l, lager::with_debugger<Dbg>(server));
    }
    // the handle is a dependency of the store that it refers to
    static void end()
    {
        handle().ctx  = {};
        handle().data = {};
        server.last.reset();
    }
    template <class W>
    static void dispatch(W& w, const json& x)
    {
        auto& k = x[0].s;
        auto go = [&](auto a) {
            if (w.opt.hash % 2)
                (void) w.store->dispatch(a);
            else
                (void) handle().ctx.dispatch(a);
        };
        if (k == "goto")
            go(typename dbg_t::goto_action{View<model_t>::cursor(x[1])});
        else if (k == "undo")
            go(typename dbg_t::undo_action{});
        else if (k == "redo")
            go(typename dbg_t::redo_action{});
        else if (k == "pause")
            go(typename dbg_t::pause_action{});
        else if (k == "resume")
            go(typename dbg_t::resume_action{});
        else
            throw usage("debugger " + k);
    }
    template <class W>
    static void compare(W& w, std::size_t no, const json& a, const json& o)
    {
        if (!w.opt.cmp('D'))
            return;
        auto& d = o["D"];
        std::ostringstream err;
        auto m = w.store->get();
        if (m.paused != d["paused"].truth())
            err << (m.paused ? "it is paused" : "it is not paused");
        else if (m.pending.size() != d["pend"].size())
            err << m.pending.size() << " actions are pending instead of "
                << d["pend"].size();
        else
            View<model_t>::compare(m, d, err);
        if (err.str().empty() && value(m).v != o["g"].ints())
            err << "the store shows " << show(value(m).v) << " instead of "
                << show(o["g"].ints());
        if (err.str().empty() && !(handle().data.get() == m))
            err << "the debugging server sees another state";
        if (err.str().empty() && handle().inits != 1)
            err << "the debugging server is initialised " << handle().inits << " times";
        st().compared += 4;
        MBT_CHECK(err.str().empty(),
                  "step " << no + 1 << " " << a.dump() << ": " << err.str());
    }
};

template <bool Trans, bool Fut, bool Eff>
using lin_t = debugged<lager::debugger, linear, Trans, Fut, Eff>;
template <bool Trans, bool Fut, bool Eff>
using tree_t = debugged<lager::tree_debugger, tree, Trans, Fut, Eff>;

void run_lin(const json&, const options&, int kind);
void run_tree(const json&, const options&, int kind);
#define DEBUG_DECL(n) void run_##n(const json&, const options&, bool eff);
DEBUG_DECL(lin_00)
DEBUG_DECL(lin_01)
DEBUG_DECL(lin_10)
DEBUG_DECL(lin_11)
DEBUG_DECL(tree_00)
DEBUG_DECL(tree_01)
DEBUG_DECL(tree_10)
DEBUG_DECL(tree_11)

} // namespace sw
