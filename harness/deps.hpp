// Replays behaviours of spec/Deps.tla into lager::deps.
#pragma once
#include "mbt.hpp"

#include <lager/context.hpp>
#include <lager/deps.hpp>
#include <lager/event_loop/manual.hpp>

#include <optional>

namespace dw {

using namespace mbt;

// what bags hold: it notices that it was moved from
struct X
{
    int v = -1;
    X()   = default;
    X(int x)
        : v{x}
    {}
    X(const X& o) = default;
    X(X&& o)
        : v{o.v}
    {
        o.v = -2;
    }
    X& operator=(const X& o) = default;
    X& operator=(X&& o)
    {
        v   = o.v;
        o.v = -2;
        return *this;
    }
};
struct K2
{};

// ----------------------------------------------------------- specifications
enum kind
{
    NO,
    V,
    R,
    FV,
    FR,
    OV,
    OR,
    OFV,
    OFR
};
namespace ld = lager::dep;
template <kind K>
struct spec1;
template <>
struct spec1<V>
{
    using type = X;
};
template <>
struct spec1<R>
{
    using type = X&;
};
template <>
struct spec1<FV>
{
    using type = ld::fn<X>;
};
template <>
struct spec1<FR>
{
    using type = ld::fn<X&>;
};
template <>
struct spec1<OV>
{
    using type = ld::opt<X>;
};
template <>
struct spec1<OR>
{
    using type = ld::opt<X&>;
};
template <>
struct spec1<OFV>
{
    using type = ld::opt<ld::fn<X>>;
};
template <>
struct spec1<OFR>
{
    using type = ld::opt<ld::fn<X&>>;
};
// the same with a key, which can come at any level
template <kind K>
struct spec2
{
    using type = ld::key<K2, typename spec1<K>::type>;
};
template <>
struct spec2<OV>
{
    using type = ld::opt<ld::key<K2, X>>;
};
template <>
struct spec2<OFR>
{
    using type = ld::opt<ld::key<K2, ld::fn<X&>>>;
};
template <kind A, kind B, bool Swap>
struct deps_of
{
    using type = std::conditional_t<
        Swap,
        lager::deps<typename spec2<B>::type, typename spec1<A>::type>,
        lager::deps<typename spec1<A>::type, typename spec2<B>::type>>;
};
template <kind A, bool Swap>
struct deps_of<A, NO, Swap>
{
    using type = lager::deps<typename spec1<A>::type>;
};
template <kind B, bool Swap>
struct deps_of<NO, B, Swap>
{
    using type = lager::deps<typename spec2<B>::type>;
};
template <bool Swap>
struct deps_of<NO, NO, Swap>
{
    using type = lager::deps<>;
};

// the types of Deps.tla
constexpr int n_types           = 15;
constexpr kind types[n_types][2] = {{V, V},
                                    {R, NO},
                                    {V, R},
                                    {OV, FR},
                                    {FV, OV},
                                    {FR, NO},
                                    {OR, FV},
                                    {OFV, NO},
                                    {NO, NO},
                                    {R, OFR},
                                    {NO, R},
                                    {V, NO},
                                    {OV, OV},
                                    {OR, V},
                                    {OFR, OR}};
template <int T>
using type_t =
    typename deps_of<types[T - 1][0], types[T - 1][1], T % 2 == 1>::type;
constexpr bool in(int t, std::initializer_list<int> l)
{
    for (auto x : l)
        if (x == t)
            return true;
    return false;
}
constexpr bool merges(int t) { return in(t, {1, 2, 4, 5, 6, 7, 10, 12, 13}); }
constexpr bool both_dest(int t) { return in(t, {1, 2, 4, 6, 12, 13, 14}); }

constexpr bool optional(kind k) { return k >= OV; }
constexpr bool conv1(kind s, kind d)
{
    return d == NO || s == d || (optional(d) && s == NO) || (s == V && d == OV) ||
           (s == R && d == OR) || (s == FV && d == V) || (s == FR && d == R) ||
           (s == FR && d == V) || (s == FV && d == OFV) || (s == FR && d == OFR);
}
constexpr bool conv(kind a, kind b, kind c, kind d)
{
    return conv1(a, c) && conv1(b, d);
}
constexpr kind over(kind a, kind b) { return b == NO ? a : b; }
// whether all the required dependencies are there
constexpr bool allowed(kind a, kind b, kind c, kind d)
{
    auto ok = [](kind s, kind d) {
        return d == NO || optional(d) || (s != NO && !optional(s));
    };
    return ok(a, c) && ok(b, d);
}

// -------------------------------------------------------------------- bags
struct env
{
    X obj[5];
    int calls[5] = {};
    std::uint64_t hash;
    lager::with_manual_event_loop loop;
    std::function<X()> fv(int f)
    {
        return [this, f] { return X{100 * f + ++calls[f]}; };
    }
    std::function<X&()> fr(int f)
    {
        return [this, f]() -> X& {
            ++calls[f];
            return obj[f];
        };
    }
    int id(const X& x) const
    {
        for (int i = 1; i < 5; ++i)
            if (&x == &obj[i])
                return i;
        return 0;
    }
};
inline env* world = nullptr;
inline unsigned path(unsigned n)
{
    world->hash = world->hash * 6364136223846793005ull + 1442695040888963407ull;
    return (world->hash >> 33) % n;
}

struct bag
{
    virtual ~bag() {}
    virtual std::string get(int key, int& val)          = 0;
    virtual std::unique_ptr<bag> clone()                = 0;
    virtual std::unique_ptr<bag> conv_to(int t)         = 0;
    virtual std::unique_ptr<bag> merge(bag&)            = 0;
    virtual std::unique_ptr<bag> both(bag&, int t)      = 0;
    virtual int type()                                  = 0; // or 0
    virtual std::string convertible()                   = 0;
};

template <class D, kind A, kind B, int T>
struct bag_of;
template <int T>
using listed_bag = bag_of<type_t<T>, types[T - 1][0], types[T - 1][1], T>;

// calls f with the listed type t
template <int T = 1, class F>
auto with_type(int t, F&& f)
{
    if (t == T)
        return f(std::integral_constant<int, T>{});
    if constexpr (T < n_types)
        return with_type<T + 1>(t, f);
    else
        throw usage("type " + std::to_string(t));
}

template <class To, class From>
To convert(const From& d)
{
    switch (path(4)) {
    case 0: {
        auto copy = d;
        return To(std::move(copy));
    }
    case 1: {
        // like effects, that get the dependencies in their context
        auto f = [](auto) { return lager::future{}; };
        lager::context<int, From> c{f, world->loop, d};
        lager::context<void, To> e{c};
        return To{static_cast<const To&>(e)};
    }
    case 2: return To{d};
    default: {
        To x = d;
        return x;
    }
    }
}

template <kind K, class Key, class D>
std::string get_as(const D& d, int& val)
{
    // references are told from values
    auto go = [&](const auto& from) -> std::string {
        using type = decltype(lager::get<Key>(from));
        bool p     = path(2);
        if constexpr (K == R || K == FR || K == OR || K == OFR) {
            static_assert(std::is_same_v<type, X&>, "");
            X& x = p ? from.template get<Key>() : lager::get<Key>(from);
            val  = x.v;
            return "r" + std::to_string(world->id(x));
        } else {
            X x = p ? from.template get<Key>() : lager::get<Key>(from);
            return "v" + std::to_string(x.v);
        }
    };
    try {
        bool has = path(2) ? d.template has<Key>() : lager::has<Key>(d);
        if (!has) {
            auto y = go(d);
            return "a missing dependency gives " + y;
        }
        return go(d);
    } catch (lager::missing_dependency_error&) {
        return d.template has<Key>() ? "throws although it is there" : "missing";
    }
}

template <class D, kind A, kind B, int T>
struct bag_of : bag
{
    static constexpr kind a = A, b = B;
    using deps_t            = D;
    D d;
    explicit bag_of(D x)
        : d{std::move(x)}
    {}
    int type() override { return T; }
    std::string get(int key, int& val) override
    {
        if (key == 1) {
            if constexpr (A != NO)
                return get_as<A, X>(d, val);
        } else if constexpr (B != NO)
            return get_as<B, K2>(d, val);
        return "no";
    }
    std::unique_ptr<bag> clone() override
    {
        if (path(2)) {
            D x{d};
            D y{std::move(x)};
            return std::make_unique<bag_of>(y);
        }
        return std::make_unique<bag_of>(*this);
    }
    std::unique_ptr<bag> conv_to(int t) override
    {
        return with_type(t, [&](auto u) -> std::unique_ptr<bag> {
            constexpr int U = decltype(u)::value;
            using to        = listed_bag<U>;
            if constexpr (conv(A, B, to::a, to::b))
                return std::make_unique<to>(convert<type_t<U>>(d));
            else
                throw usage("conversion");
        });
    }
    std::unique_ptr<bag> merge(bag& o) override
    {
        if constexpr (T > 0 && merges(T)) {
            return with_type(o.type(), [&](auto u) -> std::unique_ptr<bag> {
                constexpr int U = decltype(u)::value;
                using other     = listed_bag<U>;
                if constexpr (merges(U)) {
                    auto r = d.merge(static_cast<other&>(o).d);
                    return std::make_unique<
                        bag_of<decltype(r), over(A, other::a), over(B, other::b), 0>>(r);
                } else
                    throw usage("merge");
            });
        } else
            throw usage("merge");
    }
    std::unique_ptr<bag> both(bag& o, int t) override;
    std::string convertible() override
    {
        std::string r;
        for (int t = 1; t <= n_types; ++t)
            with_type(t, [&](auto u) {
                constexpr int U = decltype(u)::value;
                constexpr bool c =
                    allowed(A, B, types[U - 1][0], types[U - 1][1]);
                if (c != std::is_convertible_v<D, type_t<U>>)
                    r += (c ? " not convertible to " : " convertible to ") +
                         std::to_string(U);
            });
        return r;
    }
};
template <class D, kind A, kind B, int T>
std::unique_ptr<bag> bag_of<D, A, B, T>::both(bag& o, int t)
{
    if constexpr (T > 0 && merges(T)) {
        return with_type(o.type(), [&](auto u) -> std::unique_ptr<bag> {
            constexpr int U = decltype(u)::value;
            using other     = listed_bag<U>;
            if constexpr (merges(U))
                return with_type(t, [&](auto w) -> std::unique_ptr<bag> {
                    constexpr int W = decltype(w)::value;
                    using to        = listed_bag<W>;
                    if constexpr (both_dest(W) &&
                                  conv(over(A, other::a), over(B, other::b), to::a, to::b))
                        return std::make_unique<to>(
                            typename to::deps_t{d, static_cast<other&>(o).d});
                    else
                        throw usage("both");
                });
            else
                throw usage("both");
        });
    } else
        throw usage("both");
}

// ------------------------------------------------------------------- making
// what is stored for a specification: source n, or nothing
template <kind K>
auto source(int n, bool p)
{
    if constexpr (K == V)
        return X{n};
    else if constexpr (K == R)
        return std::ref(world->obj[n]);
    else if constexpr (K == FV)
        return world->fv(n);
    else if constexpr (K == FR)
        return world->fr(n);
    else if constexpr (K == OV)
        return p ? std::optional<ld::val<X>::storage>{X{n}}
                 : std::optional<ld::val<X>::storage>{};
    else if constexpr (K == OR)
        return p ? std::optional<std::reference_wrapper<X>>{world->obj[n]}
                 : std::optional<std::reference_wrapper<X>>{};
    else if constexpr (K == OFV)
        return p ? std::optional<typename ld::fn<X>::storage>{world->fv(n)}
                 : std::optional<typename ld::fn<X>::storage>{};
    else
        return p ? std::optional<typename ld::fn<X&>::storage>{world->fr(n)}
                 : std::optional<typename ld::fn<X&>::storage>{};
}
template <int T>
std::unique_ptr<bag> make(int n1, int n2, bool p1, bool p2)
{
    using to         = listed_bag<T>;
    constexpr kind a = to::a, b = to::b;
    using D          = typename to::deps_t;
    auto done        = [](D d) { return std::make_unique<to>(std::move(d)); };
    if constexpr (a == NO && b == NO)
        return done(D::with());
    else if constexpr (b == NO) {
        // as in with_deps()
        if (path(2))
            return done(
                lager::make_deps(ld::as<ld::to_spec<typename spec1<a>::type>>(source<a>(n1, p1))));
        return done(D::with(source<a>(n1, p1)));
    } else if constexpr (a == NO)
        return done(D::with(source<b>(n2, p2)));
    else if constexpr (T % 2 == 1)
        return done(D::with(source<b>(n2, p2), source<a>(n1, p1)));
    else
        return done(D::with(source<a>(n1, p1), source<b>(n2, p2)));
}
std::unique_ptr<bag> make_bag(int t, int n1, int n2, bool p1, bool p2);

} // namespace dw
