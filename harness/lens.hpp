// Replays behaviours of spec/Lens.tla into lager's lenses.
#pragma once
#include "mbt.hpp"

#include <lager/cursor.hpp>
#include <lager/lens.hpp>
#include <lager/lenses.hpp>
#include <lager/lenses/at.hpp>
#include <lager/lenses/at_or.hpp>
#include <lager/lenses/attr.hpp>
#include <lager/lenses/optional.hpp>
#include <lager/lenses/tuple.hpp>
#include <lager/lenses/unbox.hpp>
#include <lager/lenses/variant.hpp>
#include <lager/state.hpp>
#include <lager/util.hpp>

#include <immer/box.hpp>
#include <immer/flex_vector.hpp>
#include <immer/map.hpp>
#include <immer/table.hpp>
#include <immer/vector.hpp>

#include <array>
#include <optional>
#include <tuple>
#include <unordered_map>
#include <variant>

namespace lw {

using namespace mbt;
// not found for compositions of element and alternative only
using zug::operator|;

// -------------------------------------------------------------------- values
inline std::string text(int n)
{
    return "the text of the leaf with number " + std::to_string(n);
}
// knows when it was moved from
struct L
{
    int n = 0;
    std::string s;
    L(int x = 0)
        : n{x}
        , s{text(x)}
    {}
    friend bool operator==(const L& a, const L& b) { return a.n == b.n && a.s == b.s; }
    friend bool operator!=(const L& a, const L& b) { return !(a == b); }
};
struct S
{
    L a;
    std::optional<L> o;
    L c;
    friend bool operator==(const S& x, const S& y)
    {
        return x.a == y.a && x.o == y.o && x.c == y.c;
    }
    friend bool operator!=(const S& a, const S& b) { return !(a == b); }
};
using X = std::variant<L, S>;
struct I
{
    std::string id;
    L v;
    friend bool operator==(const I& a, const I& b) { return a.id == b.id && a.v == b.v; }
    friend bool operator!=(const I& a, const I& b) { return !(a == b); }
};
using Quad = std::tuple<L, L, L, L>;
struct Four
{
    L a, b, c, d;
    auto all() const { return std::tie(a, b, c, d); }
    friend bool operator==(const Four& x, const Four& y) { return x.all() == y.all(); }
    friend bool operator!=(const Four& x, const Four& y) { return !(x == y); }
};
inline std::string id(int k) { return "the id of the item " + std::to_string(k); }
template <class T>
using opt = std::optional<T>;
using tab = immer::table<I>;

// reading, writing and changing values of a type
template <class T>
struct val;
template <>
struct val<L>
{
    static std::string dump(const L& x)
    {
        return std::to_string(x.n) + (x.s == text(x.n) ? "" : "(moved from)");
    }
    static L read(const json& j) { return L{static_cast<int>(j.i)}; }
    static L bump(L x) { return L{x.n + 10}; }
};
template <class T>
std::string dump(const T& x)
{
    return val<T>::dump(x);
}
template <class T>
T read(const json& j)
{
    return val<T>::read(j);
}
template <class T>
T bump(T x)
{
    // what is not there any more stays so
    return val<T>::bump(std::move(x));
}
template <class T>
struct val<opt<T>>
{
    static std::string dump(const opt<T>& x)
    {
        return x ? "[" + lw::dump(*x) + "]" : "[]";
    }
    static opt<T> read(const json& j)
    {
        return j.size() ? opt<T>{lw::read<T>(j[0])} : opt<T>{};
    }
    static opt<T> bump(opt<T> x)
    {
        return x ? opt<T>{lw::bump(*std::move(x))} : opt<T>{};
    }
};
template <>
struct val<S>
{
    static std::string dump(const S& x)
    {
        return "[" + lw::dump(x.a) + "," + lw::dump(x.o) + "," + lw::dump(x.c) + "]";
    }
    static S read(const json& j)
    {
        return {lw::read<L>(j[0]), lw::read<opt<L>>(j[1]), lw::read<L>(j[2])};
    }
    static S bump(S x) { return {lw::bump(x.a), lw::bump(x.o), lw::bump(x.c)}; }
};
template <>
struct val<X>
{
    static std::string dump(const X& x)
    {
        if (auto p = std::get_if<L>(&x))
            return "[\"L\"," + lw::dump(*p) + "]";
        return "[\"S\"," + lw::dump(std::get<S>(x)) + "]";
    }
    static X read(const json& j)
    {
        if (j[0].s == "L")
            return lw::read<L>(j[1]);
        return lw::read<S>(j[1]);
    }
    static X bump(X x)
    {
        if (auto p = std::get_if<L>(&x))
            return lw::bump(*p);
        return lw::bump(std::get<S>(x));
    }
};
template <>
struct val<I>
{
    static std::string dump(const I& x)
    {
        // defaults have no id
        int k = x.id.empty() ? 0 : x.id == id(1) ? 1 : x.id == id(2) ? 2 : 9;
        return "[" + std::to_string(k) + "," + lw::dump(x.v) + "]";
    }
    static I read(const json& j)
    {
        return {id(static_cast<int>(j[0].i)), lw::read<L>(j[1])};
    }
    static I bump(I x) { return {x.id, lw::bump(x.v)}; }
};
template <class T>
struct four_val
{
    template <class A, class B, class C, class D>
    static std::string four(const A& a, const B& b, const C& c, const D& d)
    {
        return "[" + lw::dump<L>(a) + "," + lw::dump<L>(b) + "," + lw::dump<L>(c) + "," +
               lw::dump<L>(d) + "]";
    }
    static std::string dump(const T& x)
    {
        auto& [a, b, c, d] = x;
        return four(a, b, c, d);
    }
    static T read(const json& j)
    {
        return {lw::read<L>(j[0]), lw::read<L>(j[1]), lw::read<L>(j[2]), lw::read<L>(j[3])};
    }
    static T bump(T x)
    {
        auto& [a, b, c, d] = x;
        return {lw::bump<L>(a), lw::bump<L>(b), lw::bump<L>(c), lw::bump<L>(d)};
    }
};
template <>
struct val<Quad> : four_val<Quad>
{};
template <>
struct val<Four> : four_val<Four>
{};
template <class V, class T>
struct vec_val
{
    static std::string dump(const V& v)
    {
        std::string r = "[";
        for (auto& x : v)
            r += (r.size() > 1 ? "," : "") + lw::dump<T>(x);
        return r + "]";
    }
    static V read(const json& j)
    {
        std::vector<T> r;
        for (auto& x : j.a)
            r.push_back(lw::read<T>(x));
        return V(r.begin(), r.end());
    }
    static V bump(V v)
    {
        std::vector<T> r;
        for (auto& x : v)
            r.push_back(lw::bump<T>(x));
        return V(r.begin(), r.end());
    }
};
template <class T>
struct val<std::vector<T>> : vec_val<std::vector<T>, T>
{};
template <class T>
struct val<immer::vector<T>> : vec_val<immer::vector<T>, T>
{};
template <class T>
struct val<immer::flex_vector<T>> : vec_val<immer::flex_vector<T>, T>
{};
template <class T>
struct val<std::array<T, 2>>
{
    using A = std::array<T, 2>;
    static std::string dump(const A& x)
    {
        return "[" + lw::dump(x[0]) + "," + lw::dump(x[1]) + "]";
    }
    static A read(const json& j) { return {lw::read<T>(j[0]), lw::read<T>(j[1])}; }
    static A bump(A x) { return {lw::bump(x[0]), lw::bump(x[1])}; }
};
template <class K, class T>
void add(std::map<K, T>& m, int k, T x)
{
    m.emplace(k, std::move(x));
}
template <class K, class T>
void add(std::unordered_map<K, T>& m, int k, T x)
{
    m.emplace(k, std::move(x));
}
template <class K, class T>
void add(immer::map<K, T>& m, int k, T x)
{
    m = m.set(k, std::move(x));
}
template <class M, class T>
struct map_val
{
    static std::string dump(const M& m)
    {
        std::string r = "[", e;
        for (int k : {1, 2})
            r += (k == 1 ? "[" : ",[") + (m.count(k) ? lw::dump<T>(m.at(k)) : "") + "]";
        if (m.size() != m.count(1) + m.count(2))
            e = " and something else";
        return r + "]" + e;
    }
    static M read(const json& j)
    {
        M r;
        for (int k : {1, 2})
            if (j[k - 1].size())
                add(r, k, lw::read<T>(j[k - 1][0]));
        return r;
    }
    static M bump(M m)
    {
        M r;
        for (int k : {1, 2})
            if (m.count(k))
                add(r, k, lw::bump<T>(m.at(k)));
        return r;
    }
};
template <class T>
struct val<std::map<int, T>> : map_val<std::map<int, T>, T>
{};
template <class T>
struct val<std::unordered_map<int, T>> : map_val<std::unordered_map<int, T>, T>
{};
template <class T>
struct val<immer::map<int, T>> : map_val<immer::map<int, T>, T>
{};
template <>
struct val<tab>
{
    static std::string dump(const tab& m)
    {
        std::string r = "[", e;
        std::size_t n = 0;
        for (int k : {1, 2}) {
            auto p = m.find(id(k));
            n += p != nullptr;
            r += (k == 1 ? "[" : ",[") + (p ? lw::dump(*p) : "") + "]";
        }
        if (m.size() != n)
            e = " and something else";
        return r + "]" + e;
    }
    static tab read(const json& j)
    {
        tab r;
        for (int k : {1, 2})
            if (j[k - 1].size())
                r = r.insert(lw::read<I>(j[k - 1][0]));
        return r;
    }
    static tab bump(tab m)
    {
        tab r;
        for (auto& x : m)
            r = r.insert(lw::bump(x));
        return r;
    }
};
template <class T>
struct val<immer::box<T>>
{
    using B = immer::box<T>;
    static std::string dump(const B& x) { return lw::dump(x.get()); }
    static B read(const json& j) { return B{lw::read<T>(j)}; }
    static B bump(B x) { return B{lw::bump(x.get())}; }
};
template <class T, class A, class B>
struct tup_val
{
    static std::string dump(const T& x)
    {
        return "[" + lw::dump<A>(std::get<0>(x)) + "," + lw::dump<B>(std::get<1>(x)) + "]";
    }
    static T read(const json& j) { return {lw::read<A>(j[0]), lw::read<B>(j[1])}; }
    static T bump(T x)
    {
        return {lw::bump<A>(std::get<0>(x)), lw::bump<B>(std::get<1>(x))};
    }
};
template <class A, class B>
struct val<std::pair<A, B>> : tup_val<std::pair<A, B>, A, B>
{};
template <class A, class B>
struct val<std::tuple<A, B>> : tup_val<std::tuple<A, B>, A, B>
{};

// -------------------------------------------------------------------- lenses
namespace ll = lager::lenses;

struct no_key
{};
// (key: what selects the same part between the brackets of cursor[key])
template <class P, class Lens, class Key>
struct prim
{
    using part = P;
    std::string name;
    Lens lens;
    Key key;
};
template <class P, class Lens>
prim<P, std::decay_t<Lens>, no_key> mk(std::string n, Lens&& l)
{
    return {std::move(n), std::forward<Lens>(l), {}};
}
template <class P, class Lens, class Key>
prim<P, std::decay_t<Lens>, std::decay_t<Key>> mk(std::string n, Lens&& l, Key&& k)
{
    return {std::move(n), std::forward<Lens>(l), std::forward<Key>(k)};
}
// what defaults are used, Def() in Lens.tla
template <class T>
struct tag
{};
inline std::string def_(tag<L>) { return "11"; }
inline std::string def_(tag<S>) { return "[11,[],12]"; }
inline std::string def_(tag<X>) { return "[\"L\",11]"; }
inline std::string def_(tag<I>) { return "[1,11]"; }
inline std::string def_(tag<Quad>) { return "[11,12,13,14]"; }
inline std::string def_(tag<Four>) { return "[11,12,13,14]"; }
inline std::string def_(tag<tab>) { return "[[[1,11]],[]]"; }
template <class T>
std::string def_(tag<std::optional<T>>);
template <class T>
std::string def_(tag<std::vector<T>>);
template <class T>
std::string def_(tag<immer::vector<T>>);
template <class T>
std::string def_(tag<immer::flex_vector<T>>);
template <class T>
std::string def_(tag<std::array<T, 2>>);
template <class T>
std::string def_(tag<std::map<int, T>>);
template <class T>
std::string def_(tag<std::unordered_map<int, T>>);
template <class T>
std::string def_(tag<immer::map<int, T>>);
template <class T>
std::string def_(tag<immer::box<T>>);
template <class A, class B>
std::string def_(tag<std::pair<A, B>>);
template <class A, class B>
std::string def_(tag<std::tuple<A, B>>);
template <class T>
std::string def1_()
{
    return "[" + def_(tag<T>{}) + "]";
}
template <class A, class B>
std::string def2_()
{
    return "[" + def_(tag<A>{}) + "," + def_(tag<B>{}) + "]";
}
template <class T>
std::string def_(tag<std::optional<T>>) { return def1_<T>(); }
template <class T>
std::string def_(tag<std::vector<T>>) { return def1_<T>(); }
template <class T>
std::string def_(tag<immer::vector<T>>) { return def1_<T>(); }
template <class T>
std::string def_(tag<immer::flex_vector<T>>) { return def1_<T>(); }
template <class T>
std::string def_(tag<std::array<T, 2>>) { return def2_<T, T>(); }
template <class T>
std::string def_(tag<std::map<int, T>>) { return "[" + def1_<T>() + ",[]]"; }
template <class T>
std::string def_(tag<std::unordered_map<int, T>>) { return "[" + def1_<T>() + ",[]]"; }
template <class T>
std::string def_(tag<immer::map<int, T>>) { return "[" + def1_<T>() + ",[]]"; }
template <class T>
std::string def_(tag<immer::box<T>>) { return def_(tag<T>{}); }
template <class A, class B>
std::string def_(tag<std::pair<A, B>>) { return def2_<A, B>(); }
template <class A, class B>
std::string def_(tag<std::tuple<A, B>>) { return def2_<A, B>(); }
template <class T>
json def()
{
    return parse(def_(tag<T>{}));
}
// the lenses that apply to a type, like Prims in Lens.tla: with lift() those
// that can be made to apply to optionals
template <class T>
struct prims;
template <class T>
constexpr bool is_opt = false;
template <class T>
constexpr bool is_opt<opt<T>> = true;

inline auto shift = ll::getset([](L x) { return L{x.n + 100}; },
                               [](L, L x) { return L{x.n - 100}; });
template <>
struct prims<L>
{
    static auto lift() { return std::make_tuple(mk<L>("shift", shift)); }
    static auto get()
    {
        return std::tuple_cat(lift(), std::make_tuple(mk<opt<L>>("force_opt", ll::force_opt)));
    }
};
template <>
struct prims<S>
{
    static auto lift()
    {
        return std::make_tuple(
            mk<L>("attr a", ll::attr(&S::a), &S::a),
            mk<opt<L>>("attr o", ll::attr(&S::o), &S::o),
            mk<std::tuple<L, L>>("attr a c", ll::attr(&S::a, &S::c)),
            // as in the documentation
            mk<L>("getset a",
                  ll::getset([](S s) { return s.a; },
                             [](S s, L x) {
                                 s.a = x;
                                 return s;
                             })),
            // as in the tests
            mk<L>("getset c",
                  ll::getset(
                      [](auto&& x) -> decltype(auto) {
                          return std::forward<decltype(x)>(x).c;
                      },
                      [](auto x, auto&& v) {
                          x.c = std::forward<decltype(v)>(v);
                          return x;
                      })),
            mk<opt<L>>("getset o",
                       ll::getset([](const S& s) -> const opt<L>& { return s.o; },
                                  [](S s, const opt<L>& x) {
                                      return S{std::move(s.a), x, std::move(s.c)};
                                  })),
            mk<std::tuple<opt<L>, L>>("fan o a", ll::fan(ll::attr(&S::o), ll::attr(&S::a))));
    }
    static auto get()
    {
        return std::tuple_cat(lift(), std::make_tuple(mk<opt<S>>("force_opt", ll::force_opt)));
    }
};
template <>
struct prims<X>
{
    static auto get()
    {
        return std::make_tuple(mk<opt<L>>("alternative L", ll::alternative<L>),
                               mk<opt<S>>("alternative S", ll::alternative<S>));
    }
    static auto lift() { return get(); }
};
template <>
struct prims<I>
{
    static auto get() { return std::make_tuple(mk<L>("attr v", ll::attr(&I::v), &I::v)); }
    static auto lift() { return get(); }
};
template <class T>
struct prims<opt<T>>
{
    template <class P>
    static auto lifted(const P& p)
    {
        using Q = typename P::part;
        if constexpr (is_opt<Q>)
            return std::make_tuple(mk<opt<Q>>("map_opt " + p.name, ll::map_opt(p.lens)),
                                   mk<Q>("with_opt " + p.name, ll::with_opt(p.lens), p.key),
                                   mk<Q>("bind_opt " + p.name, ll::bind_opt(p.lens)));
        else
            return std::make_tuple(mk<opt<Q>>("map_opt " + p.name, ll::map_opt(p.lens)),
                                   mk<opt<Q>>("with_opt " + p.name, ll::with_opt(p.lens), p.key));
    }
    static auto get()
    {
        auto own = std::make_tuple(mk<T>("value_or", ll::value_or()),
                                   mk<T>("value_or def", ll::value_or(read<T>(def<T>()))));
        if constexpr (is_opt<T>)
            return own;
        else
            return std::tuple_cat(
                own,
                std::apply([](auto&... p) { return std::tuple_cat(lifted(p)...); },
                           const_cast<const decltype(prims<T>::lift())&>(
                               static_cast<const decltype(prims<T>::lift())&>(prims<T>::lift()))));
    }
    static auto lift() { return get(); }
};
template <class T>
struct vec_prims
{
    static auto get()
    {
        return std::make_tuple(mk<opt<T>>("at 0", ll::at(0), 0),
                               mk<opt<T>>("at 1", ll::at(std::size_t{1}), std::size_t{1}),
                               mk<T>("at_or 1", ll::at_or(1)),
                               mk<T>("at_or 0 def", ll::at_or(0, read<T>(def<T>()))));
    }
    static auto lift() { return get(); }
};
template <class T>
struct prims<std::vector<T>> : vec_prims<T>
{};
template <class T>
struct prims<immer::vector<T>> : vec_prims<T>
{};
template <class T>
struct prims<immer::flex_vector<T>> : vec_prims<T>
{};
template <class T>
struct prims<std::array<T, 2>>
{
    static auto get()
    {
        return std::make_tuple(mk<T>("element 0", ll::element<0>),
                               mk<T>("element 1", ll::element<1>),
                               mk<opt<T>>("at 1", ll::at(1), 1),
                               mk<opt<T>>("at 2", ll::at(2), 2),
                               mk<T>("at_or 0 def", ll::at_or(0, read<T>(def<T>()))),
                               mk<T>("at_or 7", ll::at_or(7)));
    }
    static auto lift() { return get(); }
};
template <class T>
struct map_prims
{
    static auto get()
    {
        return std::make_tuple(mk<opt<T>>("key 1", ll::at(1), 1),
                               mk<opt<T>>("key 3", ll::at(3), 3),
                               mk<T>("key_or 2", ll::at_or(2)),
                               mk<T>("key_or 1 def", ll::at_or(1, read<T>(def<T>()))));
    }
    static auto lift() { return get(); }
};
template <class T>
struct prims<std::map<int, T>> : map_prims<T>
{};
template <class T>
struct prims<std::unordered_map<int, T>> : map_prims<T>
{};
template <class T>
struct prims<immer::map<int, T>> : map_prims<T>
{};
template <>
struct prims<tab>
{
    static auto get()
    {
        return std::make_tuple(mk<opt<I>>("key 1", ll::at(id(1)), id(1)),
                               mk<opt<I>>("key 2", ll::at(id(2)), id(2)));
    }
    static auto lift() { return get(); }
};
template <class T>
struct prims<immer::box<T>>
{
    static auto get() { return std::make_tuple(mk<T>("unbox", ll::unbox)); }
    static auto lift() { return get(); }
};
template <class A, class B, template <class...> class Tup>
struct tup_prims
{
    static auto get()
    {
        auto a        = prims<A>::get();
        auto b        = prims<B>::get();
        auto& a1      = std::get<0>(a);
        auto& b1      = std::get<0>(b);
        auto& a9      = std::get<std::tuple_size_v<decltype(a)> - 1>(a);
        auto& b9      = std::get<std::tuple_size_v<decltype(b)> - 1>(b);
        using a1_part = typename std::decay_t<decltype(a1)>::part;
        using b1_part = typename std::decay_t<decltype(b1)>::part;
        using a9_part = typename std::decay_t<decltype(a9)>::part;
        using b9_part = typename std::decay_t<decltype(b9)>::part;
        return std::make_tuple(
            mk<A>("first", ll::first),
            mk<B>("second", ll::second),
            mk<Tup<A, opt<B>>>("zip id force", ll::zip(lager::identity, ll::force_opt)),
            mk<Tup<a1_part, b1_part>>("zip first first", ll::zip(a1.lens, b1.lens)),
            mk<Tup<a9_part, b9_part>>("zip last last", ll::zip(a9.lens, b9.lens)),
            mk<std::tuple<a1_part, B>>("fan first.first second",
                                       ll::fan(ll::first | a1.lens, ll::second)));
    }
    static auto lift() { return get(); }
};
template <class A, class B>
struct prims<std::pair<A, B>> : tup_prims<A, B, std::pair>
{};
template <class A, class B>
struct prims<std::tuple<A, B>> : tup_prims<A, B, std::tuple>
{};

template <>
struct prims<Quad>
{
    static auto get()
    {
        return std::make_tuple(
            mk<L>("element 3", ll::element<3>),
            mk<L>("element 2", ll::element<2>),
            mk<Quad>("zip four",
                     ll::zip(lager::identity, shift, lager::identity, shift)),
            mk<Quad>("fan four",
                     ll::fan(ll::element<3>, ll::first, ll::element<2>, ll::second)));
    }
    static auto lift() { return get(); }
};
template <>
struct prims<Four>
{
    static auto get()
    {
        return std::make_tuple(
            mk<L>("attr d", ll::attr(&Four::d), &Four::d),
            mk<Quad>("attr b a d c", ll::attr(&Four::b, &Four::a, &Four::d, &Four::c)),
            mk<Quad>("fan c d.shift a b",
                     ll::fan(ll::attr(&Four::c),
                             ll::attr(&Four::d) | shift,
                             ll::attr(&Four::a),
                             ll::attr(&Four::b))));
    }
    static auto lift() { return get(); }
};

// ------------------------------------------------------------------ behaviours
struct job
{
    const json& j;
    const options& opt;
    std::vector<int> path;
    std::vector<std::string> names;
};
template <class W, class P, int Depth, class Lens, class Key>
void exec(const Lens& lens, const Key& key, const job& jb)
{
    auto& h     = jb.j["h"];
    auto erased = lager::lens<W, P>{lens};
    auto st     = lager::make_state(read<W>(h[0]["o"]["w"]), lager::automatic_tag{});
    auto cur    = [&]() -> lager::cursor<P> {
        if constexpr (Depth <= 1) {
            if constexpr (!std::is_same_v<Key, no_key>) {
                if (jb.opt.hash % 2) {
                    // the variable with the key gets another value afterwards
                    auto k                = key;
                    lager::cursor<P> made = st[k];
                    if constexpr (std::is_same_v<Key, int>)
                        k = 7;
                    else
                        k = Key{};
                    return made;
                }
            } else if constexpr (!is_opt<W>) {
                if (jb.opt.hash % 2)
                    return st[lens];
            }
            return st.zoom(lens);
        } else
            return st.zoom(erased);
    }();
    W now = read<W>(h[0]["o"]["w"]);
    for (std::size_t n = 0; n < h.size(); ++n) {
        auto& a  = h[n]["a"];
        auto& o  = h[n]["o"];
        auto& op = a["op"].s;
        ++mbt::st().steps;
        ++mbt::st().ops[op];
        auto exp     = o["w"].dump();
        auto ew      = read<W>(o["w"]);
        auto vexp    = o["v"].dump();
        const W& cst = now;
        auto is      = [&](const char* how, const std::string& got, const std::string& x) {
            ++mbt::st().compared;
            std::string p;
            for (auto& s : jb.names)
                p += (p.empty() ? "" : " | ") + s;
            MBT_CHECK(got == x,
                      "step " << n << " " << a.dump() << " on " << dump(now) << " with "
                              << p << ": " << how << " gives " << got << " instead of "
                              << x);
        };
        if (op != "look") {
            auto before  = dump(now);
            const auto p = op == "set" ? read<P>(a["p"]) : P{};
            auto fn      = [](auto&& v) {
                P x = std::forward<decltype(v)>(v);
                return bump<P>(std::move(x));
            };
            auto check = [&](const char* how, auto f) {
                W w = now;
                W r = f(w);
                is(how, dump(r), exp);
                return dump(w);
            };
            if (op == "set") {
                auto pd = dump(p);
                check("set(const&)", [&](W&) -> W { return lager::set(lens, cst, p); });
                is("the whole after set(const&)", dump(now), before);
                // longer compositions: not in all ways, to save time
                if constexpr (Depth <= 1) {
                    auto l =
                        check("set(&)", [&](W& w) -> W { return lager::set(lens, w, p); });
                    is("the whole after set(&)", l, before);
                    check("set(&&, &&)", [&](W& w) -> W {
                        P q = p;
                        return lager::set(lens, std::move(w), std::move(q));
                    });
                    check("set(const&&)", [&](W&) -> W {
                        return lager::set(lens, std::move(cst), p);
                    });
                    is("the whole after set(const&&)", dump(now), before);
                }
                check("set(&&)",
                      [&](W& w) -> W { return lager::set(lens, std::move(w), p); });
                auto l = check("set(&) of the erased lens",
                          [&](W& w) -> W { return lager::set(erased, w, p); });
                is("the whole after set(&) of the erased lens", l, before);
                check("set(&&) of the erased lens",
                      [&](W& w) -> W { return lager::set(erased, std::move(w), p); });
                is("the part after set()", dump(p), pd);
                // over() with a function that consumes the part and gives p
                auto put = [&](auto&& v) {
                    P x = std::forward<decltype(v)>(v);
                    (void) x;
                    return p;
                };
                check("over(&&) consuming the part", [&](W& w) -> W {
                    return lager::over(lens, std::move(w), put);
                });
                if constexpr (Depth <= 1) {
                    auto l = check("over(&) consuming the part", [&](W& w) -> W {
                        return lager::over(lens, w, put);
                    });
                    (void) l;
                    check("over(const&) consuming the part",
                          [&](W&) -> W { return lager::over(lens, cst, put); });
                    is("the whole after over(const&)", dump(now), before);
                    check("over(&&) of the erased lens consuming the part",
                          [&](W& w) -> W {
                              return lager::over(erased, std::move(w), put);
                          });
                }
                if (jb.opt.hash % 3)
                    cur.set(p);
                else
                    cur.update(put);
            } else {
                if constexpr (Depth <= 1) {
                    check("over(const&)",
                          [&](W&) -> W { return lager::over(lens, cst, fn); });
                    is("the whole after over(const&)", dump(now), before);
                }
                check("over(&)", [&](W& w) -> W { return lager::over(lens, w, fn); });
                check("over(&&)",
                      [&](W& w) -> W { return lager::over(lens, std::move(w), fn); });
                check("over(&&) of the erased lens", [&](W& w) -> W {
                    return lager::over(erased, std::move(w), fn);
                });
                cur.update(fn);
            }
            now = ew;
            is("the state", dump(st.get()), exp);
        }
        auto check = [&](const char* how, auto f) {
            W w = now;
            P r = f(w);
            is(how, dump(r), vexp);
            return dump(w);
        };
        check("view(const&)", [&](W&) -> P { return lager::view(lens, cst); });
        if constexpr (Depth <= 1) {
            auto l = check("view(&)", [&](W& w) -> P { return lager::view(lens, w); });
            is("the whole after view(&)", l, exp);
        }
        check("view(&&)", [&](W& w) -> P { return lager::view(lens, std::move(w)); });
        check("view(&) of the erased lens",
              [&](W& w) -> P { return lager::view(erased, w); });
        check("view(&&) of the erased lens",
              [&](W& w) -> P { return lager::view(erased, std::move(w)); });
        is("the whole after view(const&)", dump(now), exp);
        is("the cursor", dump(cur.get()), vexp);
    }
}

#ifndef MAX_DEPTH
#define MAX_DEPTH 2
#endif

// the composition of the lenses of the path
template <class W, class P, int Depth, class Lens, class Key>
void walk(const Lens& lens, const Key& key, job& jb);
template <class W, int Depth, class Lens, class Prim>
void step(const Lens& lens, const Prim& p, job& jb)
{
    using P = typename Prim::part;
    jb.names.push_back(p.name);
    if constexpr (Depth == 0)
        walk<W, P, 1>(p.lens, p.key, jb);
    else if constexpr (Depth % 2 == 1)
        walk<W, P, Depth + 1>(lens | p.lens, no_key{}, jb);
    else
        walk<W, P, Depth + 1>(zug::comp(lens, p.lens), no_key{}, jb);
}
template <class W, class P, int Depth, class Lens, class Key>
void walk(const Lens& lens, const Key& key, job& jb)
{
    if (static_cast<int>(jb.path.size()) == Depth) {
        if constexpr (Depth > 0) {
            auto& e = jb.j["names"];
            for (std::size_t i = 0; i < e.size(); ++i)
                if (e[i].s != jb.names[i])
                    throw usage("lens " + jb.names[i] + " instead of " + e[i].s);
            exec<W, P, Depth>(lens, key, jb);
        }
    } else if constexpr (Depth < MAX_DEPTH) {
        auto ps = prims<P>::get();
        int i   = jb.path[Depth] - 1;
        int n   = 0;
        bool ok = false;
        std::apply(
            [&](auto&... p) {
                ((n++ == i ? (step<W, Depth>(lens, p, jb), ok = true) : false), ...);
            },
            ps);
        if (!ok)
            throw usage("no such lens");
    } else
        throw usage("depth");
}
// all that start with a lens between the two (so that it can be compiled in parts)
template <class W, int Lo, int Hi, std::size_t... Is>
void run_whole(job& jb, std::index_sequence<Is...>)
{
    auto ps   = prims<W>::get();
    int first = jb.path[0] - 1;
    bool ok   = false;
    auto try_ = [&](auto i) {
        constexpr int n = decltype(i)::value;
        if constexpr (n >= Lo && n < Hi)
            if (n == first) {
                step<W, 0>(lager::identity, std::get<n>(ps), jb);
                ok = true;
            }
    };
    (try_(std::integral_constant<int, Is>{}), ...);
    if (!ok)
        throw usage("no such lens");
}
template <class W, int Lo = 0, int Hi = 1000>
void run_whole(job& jb)
{
    constexpr auto n = std::tuple_size_v<decltype(prims<W>::get())>;
    run_whole<W, Lo, Hi>(jb, std::make_index_sequence<n>{});
}

template <int N>
void run_root(job& jb);
#define ROOT(n, ...)                                                                     \
    template <>                                                                          \
    void run_root<n>(job & jb)                                                           \
    {                                                                                    \
        run_whole<__VA_ARGS__>(jb);                                                      \
    }

} // namespace lw
