// Replays behaviours of spec/Context.tla into lager::context.
#pragma once
#include "mbt.hpp"

#include <lager/context.hpp>
#include <lager/effect.hpp>
#include <lager/store.hpp>

#include <deque>
#include <variant>

namespace cw {

using namespace mbt;

inline std::string text(int n)
{
    return "the contents of action number " + std::to_string(n);
}

#define ACTION(T)                                                                        \
    struct T                                                                             \
    {                                                                                    \
        int n;                                                                           \
        std::string s;                                                                   \
        T(int n_, std::string s_)                                                        \
            : n{n_}                                                                      \
            , s{std::move(s_)}                                                           \
        {}                                                                               \
    };
ACTION(A)
ACTION(B)
ACTION(C)
#undef ACTION
using V = std::variant<A, B>;
using W = std::variant<V, C>;

// the way actions look in the model
template <class T>
std::string leaf(const char* t, const T& a)
{
    return std::string{"[\""} + t + "\"," + std::to_string(a.n) + "]" +
           (a.s == text(a.n % 1000) ? "" : " with wrong contents '" + a.s + "'");
}
inline std::string dump(const A& a) { return leaf("A", a); }
inline std::string dump(const B& a) { return leaf("B", a); }
inline std::string dump(const C& a) { return leaf("C", a); }
inline std::string dump(const V& v)
{
    return "[\"V\"," + std::visit([](auto& x) { return dump(x); }, v) + "]";
}
inline std::string dump(const W& v)
{
    return "[\"W\"," + std::visit([](auto& x) { return dump(x); }, v) + "]";
}

struct env
{
    std::deque<std::pair<std::string, std::function<void()>>> q;
    std::vector<std::string> log;
    int convs = 0;
    std::uint64_t hash = 0;
};
inline env* world = nullptr;
inline void log(const std::string& what, const std::string& arg)
{
    world->log.push_back("[\"" + what + "\"," + arg + "]");
}

// the event loop: what is posted runs when the behaviour says so
struct loop_t
{
    template <class F>
    void post(F&& f)
    {
        auto p = std::make_shared<std::decay_t<F>>(std::forward<F>(f));
        world->q.emplace_back("post", [p] { (*p)(); });
    }
    template <class F>
    void async(F&& f)
    {
        world->q.emplace_back("async", std::forward<F>(f));
    }
    void finish() { log("finish", "0"); }
    void pause() { log("pause", "0"); }
    void resume() { log("resume", "0"); }
};

struct dep_t
{
    int v = 0;
};
using deps_t = lager::deps<dep_t&>;

// -------------------------------------------------------------- converters
struct conv_no
{};
// converters have contents, that copies of them share
struct contents
{
    std::vector<int> table = std::vector<int>(3, 1);
    int used() const
    {
        MBT_CHECK(table.size() == 3, "a converter without its contents is used");
        return ++world->convs;
    }
};
struct conv_inc : contents
{
    template <class T>
    T leaf_(T x) const
    {
        x.n += 1000;
        return x;
    }
    A operator()(A x) const { return used(), leaf_(std::move(x)); }
    B operator()(B x) const { return used(), leaf_(std::move(x)); }
    C operator()(C x) const { return used(), leaf_(std::move(x)); }
    V in(V x) const
    {
        return std::visit([&](auto y) { return V{leaf_(std::move(y))}; }, std::move(x));
    }
    V operator()(V x) const { return used(), in(std::move(x)); }
    W operator()(W x) const
    {
        used();
        if (auto p = std::get_if<V>(&x))
            return in(std::move(*p));
        return leaf_(std::get<C>(std::move(x)));
    }
};
struct conv_swap : contents
{
    B operator()(A x) const { return used(), B{x.n, std::move(x.s)}; }
    A operator()(B x) const { return used(), A{x.n, std::move(x.s)}; }
    C operator()(C x) const { return used(), x; }
    V in(V x) const
    {
        if (auto p = std::get_if<A>(&x))
            return B{p->n, std::move(p->s)};
        auto& b = std::get<B>(x);
        return A{b.n, std::move(b.s)};
    }
    V operator()(V x) const { return used(), in(std::move(x)); }
    W operator()(W x) const
    {
        used();
        if (auto p = std::get_if<V>(&x))
            return in(std::move(*p));
        return x;
    }
};
struct conv_wrap : contents
{
    V operator()(A x) const { return used(), V{std::move(x)}; }
    V operator()(B x) const { return used(), V{std::move(x)}; }
    W operator()(C x) const { return used(), W{std::move(x)}; }
    V operator()(V x) const { return used(), x; }
    W operator()(W x) const { return used(), x; }
};

// ------------------------------------------------------------------- lists
template <class... T>
struct types
{
    static constexpr int size = sizeof...(T);
    template <class U>
    static constexpr bool has = (std::is_same_v<U, T> || ...);
    template <class U>
    static constexpr int takes = (0 + ... + std::is_convertible_v<U, T>);
};
template <int L>
struct list;
#define LIST(n, act, ...)                                                                \
    template <>                                                                          \
    struct list<n>                                                                       \
    {                                                                                    \
        using all     = types<__VA_ARGS__>;                                              \
        using actions = act;                                                             \
    };
LIST(1, W, W)
LIST(2, V, V)
LIST(3, A, A)
LIST(4, lager::actions<B>, B)
LIST(5, C, C)
#define COMMA ,
LIST(6, lager::actions<A COMMA B>, A, B)
LIST(7, lager::actions<B COMMA A>, B, A)
LIST(8, lager::actions<A COMMA B COMMA C>, A, B, C)
LIST(9, lager::actions<V COMMA C>, V, C)
LIST(10, lager::actions<C COMMA V>, C, V)
LIST(11, lager::actions<A COMMA V>, A, V)
LIST(12, lager::actions<V COMMA A>, V, A)
template <>
struct list<13>
{
    using all     = types<>;
    using actions = void;
};
template <int L>
using context_t = lager::context<typename list<L>::actions, deps_t>;

template <class Conv, class... S, class D>
constexpr bool compatible_(types<S...>, D)
{
    if constexpr (std::is_same_v<Conv, conv_no>)
        return ((D::template takes<S> > 0) && ...);
    else
        return ((D::template takes<std::invoke_result_t<Conv, S>> > 0) && ...);
}
// may a context for list L be made from one for list M?
template <int L, int M, class Conv>
constexpr bool compatible =
    compatible_<Conv>(typename list<L>::all{}, typename list<M>::all{});

// ---------------------------------------------------------------- contexts
struct ictx
{
    virtual ~ictx()                                                            = default;
    virtual lager::future dispatch(const std::string& t, int n, chooser& pick) = 0;
    virtual std::unique_ptr<ictx>
    derive(int l, const std::string& conv, chooser& pick)        = 0;
    virtual lager::detail::event_loop_iface& loop()              = 0;
    virtual dep_t* dep()                                         = 0;
};
template <int L>
struct ctx final : ictx
{
    context_t<L> c;
    ctx(context_t<L> x)
        : c{std::move(x)}
    {}
    template <class T>
    lager::future send(T x, unsigned how)
    {
        using all = typename list<L>::all;
        if constexpr (all::template has<T> || all::template takes<T> == 1) {
            const auto& cc = c;
            if (how == 0)
                return cc.dispatch(std::move(x));
            auto before = dump(x);
            auto r      = [&] {
                if (how == 1)
                    return cc.dispatch(x);
                const T& y = x;
                return context_t<L>{cc}.dispatch(y);
            }();
            MBT_CHECK(before == dump(x), "dispatch() changed its argument " << before);
            return r;
        } else
            throw usage("dispatch");
    }
    lager::future dispatch(const std::string& t, int n, chooser& pick) override
    {
        auto how = pick(3);
        auto a   = A{n, text(n)};
        auto b   = B{n, text(n)};
        auto c   = C{n, text(n)};
        if (t == "A")
            return send(a, how);
        if (t == "B")
            return send(b, how);
        if (t == "C")
            return send(c, how);
        if (t == "V")
            return send(n % 2 == 0 ? V{a} : V{b}, how);
        if (t == "W")
            return send(n % 3 == 0 ? W{c} : n % 3 == 1 ? W{V{a}} : W{V{b}}, how);
        throw usage("type");
    }
    lager::detail::event_loop_iface& loop() override { return c.loop(); }
    dep_t* dep() override { return &lager::get<dep_t>(c); }

    // the different ways to get a context
    template <int D>
    std::unique_ptr<ictx> plain(chooser& pick)
    {
        using dst = typename list<D>::actions;
        using src = typename list<L>::actions;
        std::unique_ptr<ictx> r;
        auto keep = [&r](const context_t<D>& x) { r = std::make_unique<ctx<D>>(x); };
        switch (pick(5)) {
        case 0: keep(c); break;
        case 1: {
            auto eff  = lager::effect<dst, deps_t>{keep};
            auto eff2 = lager::effect<src, deps_t>{eff};
            eff2(c);
            break;
        }
        case 2: {
            auto res  = lager::result<int, dst, deps_t>{1, keep};
            auto res2 = lager::result<int, src, deps_t>{res};
            res2.second(c);
            break;
        }
        case 3:
            // both effects are run, with what each of them needs
            if constexpr (list<D>::all::size > 0 && list<L>::all::size > 0) {
                int order = 0;
                auto a    = lager::effect<dst, deps_t>{[&](auto&& x) {
                    MBT_CHECK(order++ == 0, "effects out of order");
                    keep(x);
                }};
                auto b    = lager::effect<src, deps_t>{[&](auto&&) {
                    MBT_CHECK(order++ == 1, "effects out of order");
                }};
                // what they need together is not more than this context has
                auto all = lager::effect<src, deps_t>{lager::sequence(a, b)};
                all(c);
                MBT_CHECK(order == 2, "an effect was not run");
                break;
            }
            [[fallthrough]];
        case 4: {
            // without the dependencies, and with something in between
            auto mid = context_t<D>{context_t<L>{c}};
            keep(mid);
        }
        }
        MBT_CHECK(r, "the effect was not run");
        return r;
    }
    template <int D>
    std::unique_ptr<ictx> derive_to(const std::string& conv, chooser& pick)
    {
        if (conv == "no") {
            // there is only a conversion when actions can be converted
            static_assert(std::is_convertible_v<context_t<L>, context_t<D>> ==
                              compatible<D, L, conv_no>,
                          "conversion of contexts");
            static_assert(
                std::is_convertible_v<lager::effect<typename list<D>::actions, deps_t>,
                                      lager::effect<typename list<L>::actions, deps_t>> ==
                    compatible<D, L, conv_no>,
                "conversion of effects");
            if constexpr (compatible<D, L, conv_no>)
                return plain<D>(pick);
        }
        if (conv == "inc")
            if constexpr (compatible<D, L, conv_inc>)
                return std::make_unique<ctx<D>>(context_t<D>{c, conv_inc{}});
        if (conv == "swap")
            if constexpr (compatible<D, L, conv_swap>)
                return std::make_unique<ctx<D>>(context_t<D>{c, conv_swap{}});
        if (conv == "wrap")
            if constexpr (compatible<D, L, conv_wrap>)
                return std::make_unique<ctx<D>>(context_t<D>{c, conv_wrap{}});
        throw usage("derive " + std::to_string(L) + " " + std::to_string(D) + " " + conv);
    }
    std::unique_ptr<ictx>
    derive(int l, const std::string& conv, chooser& pick) override;
};
#define CTX_DERIVE(L)                                                                    \
    template <>                                                                          \
    std::unique_ptr<ictx> ctx<L>::derive(                                                \
        int l, const std::string& conv, chooser& pick)                                   \
    {                                                                                    \
        switch (l) {                                                                     \
        case 1: return derive_to<1>(conv, pick);                                         \
        case 2: return derive_to<2>(conv, pick);                                         \
        case 3: return derive_to<3>(conv, pick);                                         \
        case 4: return derive_to<4>(conv, pick);                                         \
        case 5: return derive_to<5>(conv, pick);                                         \
        case 6: return derive_to<6>(conv, pick);                                         \
        case 7: return derive_to<7>(conv, pick);                                         \
        case 8: return derive_to<8>(conv, pick);                                         \
        case 9: return derive_to<9>(conv, pick);                                         \
        case 10: return derive_to<10>(conv, pick);                                       \
        case 11: return derive_to<11>(conv, pick);                                       \
        case 12: return derive_to<12>(conv, pick);                                       \
        case 13: return derive_to<13>(conv, pick);                                       \
        }                                                                                \
        throw usage("list");                                                             \
    }
#define CTX_DECL(L)                                                                      \
    template <>                                                                          \
    std::unique_ptr<ictx> ctx<L>::derive(int, const std::string&, chooser&);
CTX_DECL(1)
CTX_DECL(2)
CTX_DECL(3)
CTX_DECL(4)
CTX_DECL(5)
CTX_DECL(6)
CTX_DECL(7)
CTX_DECL(8)
CTX_DECL(9)
CTX_DECL(10)
CTX_DECL(11)
CTX_DECL(12)
CTX_DECL(13)

} // namespace cw
