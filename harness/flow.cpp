// Replays behaviours of spec/Flow.tla into the cursors of lager.
#include "flow_handles.hpp"

#include <zug/transducer/map.hpp>

#include <set>

using namespace mbt;

namespace {

const ivec masked = {-1};

struct call
{
    int w;
    ivec v;
    std::vector<ivec> s;
};

struct nodei
{
    std::string k;
    std::vector<int> p;
    json f;
};

nodei to_node(const json& j)
{
    return {j["k"].s, j["p"].ints(), j["f"]};
}

// part of a function that is given to the library: tells whether its contents
// are kept from one call to the next
struct own_calls
{
    int mine = 0;
    std::shared_ptr<int> all = std::make_shared<int>(0);
    bool next() { return ++mine == ++*all; }
};

// operands of expressions over two readers
using Op  = std::variant<Cur, Rea>;
Op operand(const Any& h)
{
    return std::visit(
        [](auto& x) -> Op {
            using h_t = std::decay_t<decltype(x)>;
            if constexpr (is_tuple_handle<h_t>)
                throw mbt::usage("tuple operand");
            else if constexpr (std::is_same_v<h_t, Cur>)
                return Op{x};
            else if constexpr (is_writable<h_t>)
                return Op{Cur{x}};
            else
                return Op{Rea{x}};
        },
        h);
}

struct world
{
    const options& opt;
    chooser ch;
    std::vector<Box> h;       // handles, by node - 1
    std::vector<nodei> nodes; // structure, by node - 1
    std::vector<long> evals;
    std::set<int> used;
    int env = 0, watchers = 0;
    std::vector<call> log;
    int chain_mode; // which intermediate expressions of chains are made

    world(const options& o, int cmode = -1)
        : opt{o}
        , ch{o.hash}
        , chain_mode{cmode}
    {}
    ~world()
    {
        // in any order
        while (!h.empty()) {
            auto i = ch(h.size());
            std::swap(h[i], h.back());
            h.pop_back();
        }
    }

    ivec get(int n)
    {
        return std::visit(
            [&](auto& x) {
                auto v = flat(x.get());
                MBT_CHECK(flat(*x) == v && flat(*x.operator->()) == v,
                          "reader " << n << " shows " << show(v) << " with get(), "
                                    << show(flat(*x)) << " with * and "
                                    << show(flat(*x.operator->())) << " with ->");
                return v;
            },
            *h[n - 1]);
    }
    std::vector<ivec> visible()
    {
        std::vector<ivec> r;
        for (std::size_t i = 0; i < h.size(); ++i)
            r.push_back(h[i] ? get(i + 1) : masked);
        return r;
    }

    // ------------------------------------------------------------- writing
    void set(int n, const ivec& x)
    {
        std::visit(
            [&](auto& c) {
                using h_t = std::decay_t<decltype(c)>;
                if constexpr (is_writable<h_t>) {
                    auto val = unflat(c.get(), x);
                    using val_t = decltype(val);
                    switch (ch(4)) {
                    case 0:
                        c.set(val);
                        break;
                    case 1:
                        c.set(std::move(val));
                        break;
                    case 2: {
                        lager::writer<val_t> w = c;
                        w.set(std::move(val));
                        break;
                    }
                    default: {
                        const val_t cval = val;
                        c.set(cval);
                    }
                    }
                } else
                    throw mbt::usage("not writable");
            },
            *h[n - 1]);
    }
    void update(int n, const std::string& f)
    {
        std::visit(
            [&](auto& c) {
                using h_t = std::decay_t<decltype(c)>;
                if constexpr (is_writable<h_t>) {
                    using val_t = std::decay_t<decltype(c.get())>;
                    auto g      = mbt::lend([&](const val_t& v) {
                        return unflat(v, fn(f, flat(v)));
                    });
                    switch (ch(3)) {
                    case 0:
                        c.update(*g);
                        break;
                    case 1:
                        c.update([&](val_t v) { return (*g)(v); });
                        break;
                    default: {
                        lager::writer<val_t> w = c;
                        w.update(*g);
                    }
                    }
                } else
                    throw mbt::usage("not writable");
            },
            *h[n - 1]);
    }
    template <class F>
    static void with_root(Any& a, F f)
    {
        if (auto p = std::get_if<StT>(&a))
            f(*p);
        else if (auto p = std::get_if<StA>(&a))
            f(*p);
        else if (auto p = std::get_if<Se>(&a))
            f(*p);
        else if (auto p = std::get_if<Co>(&a))
            f(*p);
        else
            throw mbt::usage("not a root");
    }
    void commit(const std::vector<int>& r)
    {
        switch (r.size()) {
        case 0:
            lager::commit();
            break;
        case 1:
            with_root(*h[r[0] - 1], [&](auto& a) { lager::commit(a); });
            break;
        case 2:
            with_root(*h[r[0] - 1], [&](auto& a) {
                with_root(*h[r[1] - 1], [&](auto& b) { lager::commit(a, b); });
            });
            break;
        case 3:
            with_root(*h[r[0] - 1], [&](auto& a) {
                with_root(*h[r[1] - 1], [&](auto& b) {
                    with_root(*h[r[2] - 1],
                              [&](auto& c) { lager::commit(a, b, c); });
                });
            });
            break;
        case 4:
            with_root(*h[r[0] - 1], [&](auto& a) {
                with_root(*h[r[1] - 1], [&](auto& b) {
                    with_root(*h[r[2] - 1], [&](auto& c) {
                        with_root(*h[r[3] - 1],
                                  [&](auto& d) { lager::commit(a, b, c, d); });
                    });
                });
            });
            break;
        default:
            throw mbt::usage("too many roots");
        }
    }

    // ------------------------------------------------------------ building
    Box unary(const nodei& d)
    {
        auto& k = d.k;
        return std::visit(
            [&](auto& p) -> Box {
                using h_t        = std::decay_t<decltype(p)>;
                constexpr bool W = is_writable<h_t>;
                auto how         = ch(3);
                if (k == "lens") {
                    auto l = mbt::lend(mk_lens(d.f.s));
                    return how == 0   ? hold<W>(p.zoom(*l))
                           : how == 1 ? hold<W>(lager::with(p).zoom(*l))
                                      : hold<W>(p[*l]);
                }
                if (k == "map") {
                    auto f = mbt::lend(mk_fn(d.f.s));
                    return how == 0   ? hold<false>(p.map(*f))
                           : how == 1 ? hold<false>(p.xform(zug::map(*f)))
                                      : hold<false>(lager::with(p).map(*f));
                }
                if (k == "filt") {
                    auto f = mbt::lend(mk_pred(d.f.s));
                    return how == 0   ? hold<false>(p.filter(*f))
                           : how == 1 ? hold<false>(p.xform(zug::filter(*f)))
                                      : hold<false>(lager::with(p).filter(*f));
                }
                if constexpr (!is_tuple_handle<h_t>) {
                    if constexpr (W) {
                        if (k == "xinc")
                            return hold<true>(p.xform(zug::map(mk_fn("inc")),
                                                      zug::map(mk_fn("dec"))));
                        if (k == "xmod")
                            return d.f.s == "low"
                                       ? hold<true>(p.xform(zug::map(mk_fn("low")),
                                                            zug::map(mk_fn("id"))))
                                       : hold<true>(p.xform(zug::map(mk_fn("id")),
                                                            zug::filter(mk_pred("no2"))));
                        if (k == "xupd")
                            return hold<true>(p.xform(
                                zug::map(mk_fn("fst")),
                                lager::update([](const V& s, const V& x) {
                                    return V{upd(s.d, 1, at(x.d, 1))};
                                })));
                        if (k == "sut" || k == "sua") {
                            int n   = static_cast<int>(nodes.size()) + 1;
                            auto mode = d.f.s;
                            lager::writer<V> w = p;
                            Rea r = p;
                            auto g = mbt::lend([this, n, mode, w, own = own_calls{}](const V& x) mutable {
                                log.push_back({own.next() ? -n : -1000, x.d, {}});
                                if (mode == "store")
                                    w.set(x);
                                else if (mode == "clamp") {
                                    auto y = x;
                                    for (auto& e : y.d)
                                        if (e > 1)
                                            e = 1;
                                    w.set(y);
                                } else if (mode == "else")
                                    this->set(1, ivec{at(x.d, 1), at(x.d, 1)});
                            });
                            if (k == "sut")
                                return how ? hold<true>(r.setter(*g))
                                           : hold<true>(lager::with_setter(
                                                 r, *g, lager::transactional_tag{}));
                            return how ? hold<true>(
                                             r.setter<lager::automatic_tag>(*g))
                                       : hold<true>(lager::with_setter(
                                             r, *g, lager::automatic_tag{}));
                        }
                    }
                    if (k == "ch1") {
                        if constexpr (W)
                            return chain1(Cur{p}, steps(d.f), cm(), wr(d.f));
                        else
                            return chain1(Rea{p}, steps(d.f), cm(), false);
                    }
                }
                throw mbt::usage("unary " + k);
            },
            *h[d.p[0] - 1]);
    }
    unsigned cm() { return chain_mode >= 0 ? chain_mode : ch(8); }
    static std::vector<step> steps(const json& f)
    {
        std::vector<step> r;
        for (auto& s : f.a)
            r.push_back({s[0].s[0], s[1].s});
        return r;
    }
    static bool wr(const json& f)
    {
        for (auto& s : f.a)
            if (!s[0].is("z") && !s[0].is("x"))
                return false;
        return true;
    }

    Box binary(const nodei& d)
    {
        auto& k = d.k;
        return std::visit(
            [&](const auto& p, const auto& q) -> Box {
                constexpr bool W = is_writable<decltype(p)> &&
                                   is_writable<decltype(q)>;
                if (k == "lens2")
                    return hold<W>(lager::with(p, q).zoom(mk_lens2(d.f.s)));
                if (k == "map2")
                    return ch(2) ? hold<false>(lager::with(p, q).map(mk_fn(d.f.s)))
                                 : hold<false>(lager::with(p, q).xform(
                                       zug::map(mk_fn(d.f.s))));
                if (k == "merge")
                    return hold<W>(lager::with(p, q));
                if (k == "filt2")
                    return hold<false>(lager::with(p, q).filter(mk_pred(d.f.s)));
                if constexpr (W) {
                    if (k == "x2map") {
                        auto like = T2{p.get(), q.get()};
                        return hold<true>(lager::with(p, q).xform(
                            zug::map(mk_fn("id")),
                            zug::map([like](const V& x) {
                                return unflat(like, x.d);
                            })));
                    }
                    if (k == "x2upd")
                        return hold<true>(lager::with(p, q).xform(
                            zug::map([](const V&, const V& b) {
                                return V{ivec{at(b.d, 1)}};
                            }),
                            lager::update([](const T2& s, const V& x) {
                                return T2{std::get<0>(s),
                                          V{upd(std::get<1>(s).d,
                                                1,
                                                at(x.d, 1))}};
                            })));
                    if (k == "ch2")
                        return chain2(p, q, steps(d.f), cm(), wr(d.f));
                } else if (k == "ch2")
                    return chain2(Rea{p}, Rea{q}, steps(d.f), cm(), false);
                throw mbt::usage("binary " + k);
            },
            operand(*h[d.p[0] - 1]),
            operand(*h[d.p[1] - 1]));
    }

    Box ternary(const nodei& d)
    {
        auto& k = d.k;
        return std::visit(
            [&](const auto& p, const auto& q, const auto& r) -> Box {
                constexpr bool W = is_writable<decltype(p)> &&
                                   is_writable<decltype(q)> && is_writable<decltype(r)>;
                if (k == "lens3")
                    return ch(2) ? hold<W>(lager::with(p, q, r).zoom(mk_lens3()))
                                 : hold<W>(lager::with(p, q, r)[mk_lens3()]);
                if (k == "map3")
                    return ch(2) ? hold<false>(lager::with(p, q, r).map(mk_fn(d.f.s)))
                                 : hold<false>(lager::with(p, q, r).make().map(
                                       [f = d.f.s](const T3& x) { return V{fn(f, flat(x))}; }));
                if (k == "filt3")
                    return hold<false>(
                        lager::with(p, q, r).filter(mk_pred(d.f.s)).map(mk_fn("id")));
                throw mbt::usage("ternary " + k);
            },
            operand(*h[d.p[0] - 1]),
            operand(*h[d.p[1] - 1]),
            operand(*h[d.p[2] - 1]));
    }

    // four or five readers
    Box nary(const nodei& d)
    {
        std::vector<Rea> r;
        for (auto i : d.p)
            r.push_back(std::visit([](const auto& p) { return Rea{p}; },
                                   operand(*h[i - 1])));
        auto f = mk_fn(d.f.s);
        auto g = [f](const auto& t) { return std::apply(f, t); };
        if (r.size() == 4)
            return ch(2) ? hold<false>(lager::with(r[0], r[1], r[2], r[3]).map(f))
                         : hold<false>(lager::with(r[0], r[1], r[2], r[3]).make().map(g));
        if (r.size() == 5)
            return ch(2) ? hold<false>(lager::with(r[0], r[1], r[2], r[3], r[4]).map(f))
                         : hold<false>(
                               lager::with(r[0], r[1], r[2], r[3], r[4]).make().map(g));
        throw mbt::usage("too many");
    }

    void derive(const nodei& d)
    {
        Box b;
        int n = static_cast<int>(nodes.size());
        if (d.k == "st")
            b = ch(2) ? std::make_unique<Any>(std::in_place_type<StT>, V{d.f.ints()})
                      : std::make_unique<Any>(lager::make_state(V{d.f.ints()}));
        else if (d.k == "sa")
            b = ch(2) ? std::make_unique<Any>(std::in_place_type<StA>, V{d.f.ints()})
                      : std::make_unique<Any>(
                            lager::make_state(V{d.f.ints()}, lager::automatic_tag{}));
        else if (d.k == "co")
            b = std::make_unique<Any>(lager::make_constant(V{d.f.ints()}));
        else if (d.k == "se") {
            while (evals.size() <= std::size_t(n))
                evals.push_back(0);
            auto g = mbt::lend([this, n, own = own_calls{}]() mutable {
                evals[n] += own.next() ? 1 : 1000;
                return V{ivec{env}};
            });
            b = ch(2) ? std::make_unique<Any>(lager::make_sensor(*g))
                      : std::make_unique<Any>(lager::make_sensor(std::move(*g)));
            g.p->moved = false;
        } else if (d.p.size() == 1)
            b = unary(d);
        else if (d.p.size() == 2)
            b = binary(d);
        else if (d.p.size() == 3)
            b = ternary(d);
        else
            b = nary(d);
        nodes.push_back(d);
        h.push_back(std::move(b));
        while (evals.size() < nodes.size())
            evals.push_back(1);
    }

    void watch(int n, const json& pg)
    {
        int id = ++watchers;
        auto g = mbt::lend([this, id, n, pg, own = own_calls{}](auto&& v) mutable {
            auto x = flat(v);
            log.push_back({own.next() ? id : 1000, x, visible()});
            exec(id, pg, n);
        });
        std::visit(
            [&](auto& r) {
                if (ch(2))
                    r.watch(*g);
                else
                    lager::watch(r, *g);
            },
            *h[n - 1]);
    }

    bool held(const nodei& d)
    {
        for (auto p : d.p)
            if (!h[p - 1])
                return false;
        return true;
    }

    // what a watcher does when it is called
    void exec(int id, const json& pg, int)
    {
        auto& op = pg[0].s;
        if (op == "no")
            return;
        if (op == "set") {
            auto n = static_cast<int>(pg[1].i);
            if (h[n - 1])
                set(n, pg[2].ints());
        } else if (op == "clamp") {
            auto n = static_cast<int>(pg[1].i);
            if (h[n - 1] && at(get(n), 1) == 2)
                set(n, upd(get(n), 1, 0));
        } else if (op == "setc") {
            auto n = static_cast<int>(pg[1].i);
            if (h[n - 1]) {
                set(n, pg[2].ints());
                commit({n});
            }
        } else if (op == "com") {
            commit({static_cast<int>(pg[1].i)});
        } else if (op == "mk" || op == "mkdrop") {
            auto d = to_node(pg[1]);
            // the closure that holds pg may go away below
            auto drop = op == "mkdrop" ? static_cast<int>(pg[2].i) : 0;
            if (used.count(id) || !held(d))
                return;
            used.insert(id);
            derive(d);
            watch(static_cast<int>(nodes.size()), no());
            if (drop)
                h[drop - 1].reset();
        } else if (op == "drop") {
            h[static_cast<int>(pg[1].i) - 1].reset();
        } else
            throw mbt::usage("program " + op);
    }
    static const json& no()
    {
        static json n = parse("[\"no\"]");
        return n;
    }

    // ---------------------------------------------------------- comparison
    std::string calls_str(const std::vector<call>& c)
    {
        std::string r;
        for (auto& x : c)
            r += " w" + std::to_string(x.w) + show(x.v);
        return r;
    }
    bool same_snap(const json& m, const std::vector<ivec>& s, bool force = false)
    {
        if (!opt.cmp('s') && !force)
            return true;
        for (std::size_t i = 0; i < m.size(); ++i) {
            auto x = m[i].ints();
            if (x == masked)
                continue;
            ++st().compared;
            if (i >= s.size() || s[i] != x)
                return false;
        }
        return true;
    }
    bool align(const std::vector<const json*>& m, std::size_t i,
               const std::vector<const call*>& c, std::size_t k)
    {
        if (i == m.size())
            return k == c.size();
        if (k < c.size() && (*m[i])["v"].ints() == c[k]->v &&
            same_snap((*m[i])["s"], c[k]->s) && align(m, i + 1, c, k + 1))
            return true;
        return (*m[i])["may"].truth() && align(m, i + 1, c, k);
    }
    // ------------------------------------------------- transient changes
    // A reader whose value only changed transiently may be notified with its
    // unchanged value.  Whether it is depends on when values are recomputed,
    // which is not specified: so it is accepted from readers that were written
    // to more than once since they were committed, that get what was written in
    // several ways, or when what is called, or a setter, writes.
    std::map<int, int> written; // writes by root
    bool writers = false;
    std::set<int> roots_of(int n)
    {
        std::set<int> r;
        for (auto p : nodes[n - 1].p)
            for (auto x : roots_of(p))
                r.insert(x);
        if (nodes[n - 1].p.empty())
            r.insert(n);
        return r;
    }
    bool several_ways(int n)
    {
        auto& ps = nodes[n - 1].p;
        return ps.size() > 1 || (ps.size() == 1 && several_ways(ps[0]));
    }
    bool transient(int n)
    {
        auto count = 0;
        for (auto r : roots_of(n))
            count += written[r];
        return writers || count > 1 || (count > 0 && several_ways(n));
    }
    void wrote(int n)
    {
        for (auto r : roots_of(n))
            ++written[r];
    }
    void compare(std::size_t no, const json& act, const json& o)
    {
        auto where = [&] {
            return "step " + std::to_string(no + 1) + " " + act.dump() + ": ";
        };
        auto& v = o["v"];
        MBT_CHECK(v.size() == nodes.size(),
                  where() << "the model has " << v.size() << " nodes, the program "
                          << nodes.size());
        for (std::size_t i = 0; i < v.size() && opt.cmp('v'); ++i) {
            auto x = v[i].ints();
            if (x == masked)
                continue;
            MBT_CHECK(h[i], where() << "node " << i + 1 << " is gone");
            auto y = get(i + 1);
            ++st().compared;
            MBT_CHECK(x == y,
                      where() << "reader " << i + 1 << " shows " << show(y)
                              << " instead of " << show(x));
        }
        // readers affected by known findings show either of two values
        if (opt.cmp('v'))
            for (auto& u : o["u"].a) {
                auto n = static_cast<int>(u["n"].i);
                auto y = get(n);
                ++st().compared;
                MBT_CHECK(y == u["a"].ints() || y == u["b"].ints(),
                          where() << "reader " << n << " shows " << show(y)
                                  << " instead of " << show(u["b"].ints()));
            }
        if (opt.cmp('e'))
            for (std::size_t i = 0; i < nodes.size(); ++i)
                if (nodes[i].k == "se")
                    MBT_CHECK(o["e"][i].i == evals[i],
                              where() << "sensor " << i + 1 << " was evaluated "
                                      << evals[i] << " times instead of "
                                      << o["e"][i].i);
        // letter s alone: what callbacks see, no matter when they are called
        if (opt.cmp('s') && !opt.cmp('c'))
            for (auto& c : log) {
                bool known = false, good = false;
                for (auto& x : o["c"].a)
                    if (x["w"].i == c.w && c.w > 0 && x["v"].ints() == c.v) {
                        known = true;
                        good  = good || same_snap(x["s"], c.s, true);
                    }
                if (known && !good) {
                    std::string b;
                    for (auto& y : c.s)
                        b += show(y);
                    MBT_FAIL(where() << "watcher " << c.w << ", called with "
                                     << show(c.v) << ", sees " << b);
                }
            }
        // letter i: the calls made by anything but a commit
        bool calls = opt.cmp('c') || (opt.cmp('i') && !act["op"].is("commit"));
        if (calls || opt.cmp('w')) {
            std::set<int> ws;
            for (auto& c : o["c"].a)
                ws.insert(static_cast<int>(c["w"].i));
            for (auto& c : log)
                ws.insert(c.w);
            for (auto w : ws) {
                if (w < 0 ? !opt.cmp('w') : !calls)
                    continue;
                std::vector<const json*> m;
                std::vector<const call*> c;
                bool skip = false;
                for (auto& x : o["c"].a)
                    if (x["w"].i == w) {
                        m.push_back(&x);
                        if (w > 0 && o["g"][static_cast<int>(x["n"].i) - 1].truth())
                            skip = true;
                    }
                for (auto& x : log)
                    if (x.w == w)
                        c.push_back(&x);
                if (w > 0 && wnode.count(w) && o["g"][wnode[w] - 1].truth())
                    skip = true;
                if (skip)
                    continue;
                ++st().compared;
                if (!align(m, 0, c, 0)) {
                    auto n = w > 0 && wnode.count(w) ? wnode[w] : 0;
                    if (m.empty() && c.size() == 1 && n && h[n - 1] &&
                        c[0]->v == v[n - 1].ints() && transient(n))
                        continue;
                    std::string a, b;
                    for (auto x : m)
                        a += " " + show((*x)["v"].ints()) +
                             ((*x)["may"].truth() ? "?" : "") +
                             (opt.cmp('s') ? (*x)["s"].dump() : "");
                    for (auto x : c) {
                        b += " " + show(x->v);
                        if (opt.cmp('s'))
                            for (auto& y : x->s)
                                b += show(y);
                    }
                    MBT_FAIL(where()
                             << (w > 0 ? "watcher " : "setter ") << std::abs(w)
                             << " was called with:" << b
                             << " but should have been called with:" << a);
                }
            }
        }
    }
    std::map<int, int> wnode;

    void run(const json& j)
    {
        for (auto& d : j["b"]["nodes"].a)
            derive(to_node(d));
        int w = 0;
        for (auto& x : j["b"]["watch"].a) {
            watch(static_cast<int>(x[0].i), x[1]);
            wnode[++w] = static_cast<int>(x[0].i);
            auto& pg   = x[1][0].s;
            writers    = writers || pg == "set" || pg == "setc" || pg == "clamp";
        }
        for (auto& n : nodes)
            writers = writers || n.k == "sut" || n.k == "sua";
        auto& hist = j["h"];
        for (std::size_t i = 0; i < hist.size(); ++i) {
            auto& a  = hist[i]["a"];
            auto& op = a["op"].s;
            log.clear();
            ++st().steps;
            ++st().ops[op];
            if (op == "set")
                set(a["n"].i, a["x"].ints()), wrote(a["n"].i);
            else if (op == "upd")
                update(a["n"].i, a["f"].s), wrote(a["n"].i);
            else if (op == "commit")
                commit(a["r"].ints());
            else if (op == "env") {
                env = static_cast<int>(a["x"].i);
                for (std::size_t n = 0; n < nodes.size(); ++n)
                    if (nodes[n].k == "se")
                        wrote(n + 1);
            } else if (op == "drop")
                h[a["n"].i - 1].reset();
            else if (op == "derive") {
                bool threw = false;
                try {
                    derive(to_node(a["d"]));
                } catch (const lager::no_value_error&) {
                    threw = true;
                }
                MBT_CHECK(threw == (a.has("throws") && a["throws"].truth()),
                          "step " << i + 1 << " " << a.dump() << ": "
                                  << (threw ? "threw no_value_error"
                                            : "did not throw no_value_error"));
            }
            else if (op == "watch") {
                watch(a["n"].i, a["pg"]);
                wnode[watchers] = static_cast<int>(a["n"].i);
            } else
                throw mbt::usage("action " + op);
            compare(i, a, hist[i]["o"]);
            if (op == "commit")
                for (auto r : a["r"].ints())
                    written.erase(r);
            for (auto& [r, count] : written)
                if (nodes[r - 1].k == "sa")
                    count = 0;
        }
        log.clear();
    }
};

} // namespace

int main(int argc, char** argv)
{
    return mbt::run(argc, argv, [](const json& j, const options& o) {
        if (o.mask.find('m') != std::string::npos)
            for (int m = 0; m < 8; ++m) {
                world w{o, m};
                w.run(j);
            }
        else {
            world w{o};
            w.run(j);
        }
    });
}
