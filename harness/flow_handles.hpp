// The kinds of objects through which the harness holds the nodes of a graph.
#pragma once

#include "flow_value.hpp"

#include <lager/commit.hpp>
#include <lager/constant.hpp>
#include <lager/cursor.hpp>
#include <lager/lenses.hpp>
#include <lager/reader.hpp>
#include <lager/sensor.hpp>
#include <lager/setter.hpp>
#include <lager/state.hpp>
#include <lager/watch.hpp>
#include <lager/with.hpp>
#include <lager/writer.hpp>

#include <variant>

using StT = lager::state<V, lager::transactional_tag>;
using StA = lager::state<V, lager::automatic_tag>;
using Se  = lager::sensor<V>;
using Co  = lager::constant<V>;
using Cur = lager::cursor<V>;
using Rea = lager::reader<V>;
using Cu2 = lager::cursor<T2>;
using Re2 = lager::reader<T2>;
using Any = std::variant<StT, StA, Se, Co, Cur, Rea, Cu2, Re2>;
using Box = std::unique_ptr<Any>;

template <class H>
constexpr bool is_tuple_handle =
    std::is_same_v<std::decay_t<H>, Cu2> || std::is_same_v<std::decay_t<H>, Re2>;
template <class H>
constexpr bool is_writable =
    std::is_same_v<std::decay_t<H>, StT> || std::is_same_v<std::decay_t<H>, StA> ||
    std::is_same_v<std::decay_t<H>, Cur> || std::is_same_v<std::decay_t<H>, Cu2>;

// the result of an expression, with its type erased
template <bool W, class E>
Box hold(E&& e)
{
    using val_t = std::decay_t<decltype(std::forward<E>(e).make().get())>;
    if constexpr (std::is_same_v<val_t, T2>) {
        if constexpr (W)
            return std::make_unique<Any>(
                std::in_place_type<Cu2>, Cu2{std::forward<E>(e).make()});
        else
            return std::make_unique<Any>(
                std::in_place_type<Re2>, Re2{std::forward<E>(e).make()});
    } else {
        static_assert(std::is_same_v<val_t, V>);
        if constexpr (W)
            return std::make_unique<Any>(
                std::in_place_type<Cur>, Cur{std::forward<E>(e).make()});
        else
            return std::make_unique<Any>(
                std::in_place_type<Rea>, Rea{std::forward<E>(e).make()});
    }
}

// lens `l` over V or over a tuple
inline auto mk_lens(std::string l)
{
    return lager::lenses::getset(
        [l](auto&& w) { return V{view_fn(l, flat(w))}; },
        [l](auto w, const V& x) {
            return unflat(w, put_fn(l, flat(w), x.d));
        });
}
inline auto mk_lens2(std::string l)
{
    return lager::lenses::getset(
        [l](const T2& w) { return V{view2_fn(l, std::get<0>(w), std::get<1>(w))}; },
        [l](const T2& w, const V& x) {
            return put2_fn(l, std::get<0>(w), std::get<1>(w), x.d);
        });
}
inline auto mk_lens3()
{
    return lager::lenses::getset(
        [](const T3& w) { return V{flat(w)}; },
        [](const T3& w, const V& x) {
            auto n = std::get<0>(w).d.size();
            auto m = n + std::get<1>(w).d.size();
            auto b = x.d.begin();
            return T3{V{ivec(b, b + n)}, V{ivec(b + n, b + m)}, V{ivec(b + m, x.d.end())}};
        });
}
inline auto mk_fn(std::string f)
{
    return [f](auto&&... xs) { return V{fn(f, flat(xs...))}; };
}
inline auto mk_pred(std::string p)
{
    return [p](auto&&... xs) { return pred(p, flat(xs...)); };
}

struct step
{
    char k;
    std::string f;
};
// mode: bit i set means that the expression after step i is made into an
// actual cursor or reader.  The lengths of the bases are needed to split.
Box chain1(const Cur& a, const std::vector<step>& st, unsigned mode, bool w);
Box chain1(const Rea& a, const std::vector<step>& st, unsigned mode, bool w);
Box chain2(const Cur& a, const Cur& b, const std::vector<step>&, unsigned mode, bool w);
Box chain2(const Rea& a, const Rea& b, const std::vector<step>&, unsigned mode, bool w);
// over a reader of tuples, at most 2 steps
Box chain_t(const Re2& a, const std::vector<step>&, unsigned mode, bool w);
