// Values, functions, lenses and predicates of spec/Flow.tla
#pragma once

#include "mbt.hpp"

#include <optional>
#include <string>
#include <tuple>
#include <vector>

using ivec = std::vector<int>;
constexpr int K = 3;

// The value type held in states and readers.  A moved-from value is poisoned
// so that reading it later is noticed.
struct V
{
    ivec d;
#ifndef NODEFAULT
    V() = default;
#endif
    V(ivec x)
        : d{std::move(x)}
    {}
    V(const V&) = default;
    V(V&& o) noexcept
        : d{std::move(o.d)}
    {
        o.d = {-9};
    }
    V& operator=(const V&) = default;
    V& operator=(V&& o) noexcept
    {
        if (this != &o) {
            d   = std::move(o.d);
            o.d = {-9};
        }
        return *this;
    }
    friend bool operator==(const V& a, const V& b) { return a.d == b.d; }
#ifndef ONLYEQ // == is all that is needed to tell whether a value changed
    friend bool operator!=(const V& a, const V& b) { return a.d != b.d; }
#endif
};
using T2 = std::tuple<V, V>;
using T3 = std::tuple<V, V, V>;

inline ivec flat(const V& v) { return v.d; }
inline ivec flat(const V& a, const V& b)
{
    ivec r = a.d;
    r.insert(r.end(), b.d.begin(), b.d.end());
    return r;
}
inline ivec flat(const V& a, const V& b, const V& c)
{
    ivec r = flat(a, b);
    r.insert(r.end(), c.d.begin(), c.d.end());
    return r;
}
template <class... Vs>
ivec flat(const V& a, const V& b, const V& c, const V& d, const Vs&... es)
{
    ivec r = flat(a, b, c);
    for (auto* v : {&d, &es...})
        r.insert(r.end(), v->d.begin(), v->d.end());
    return r;
}
inline ivec flat(const T3& t)
{
    return flat(std::get<0>(t), std::get<1>(t), std::get<2>(t));
}
inline ivec flat(const T2& t) { return flat(std::get<0>(t), std::get<1>(t)); }

inline V unflat(const V&, ivec x) { return V{std::move(x)}; }
inline T2 unflat(const T2& like, const ivec& x)
{
    auto n = std::min(std::get<0>(like).d.size(), x.size());
    return T2{V{ivec(x.begin(), x.begin() + n)}, V{ivec(x.begin() + n, x.end())}};
}

inline int at(const ivec& v, std::size_t i) { return i <= v.size() ? v[i - 1] : 0; }
inline int sum(const ivec& v)
{
    int r = 0;
    for (auto x : v)
        r += x;
    return r;
}
inline ivec upd(ivec v, std::size_t i, int x)
{
    if (i <= v.size())
        v[i - 1] = x;
    return v;
}
inline ivec shift(ivec v, int d)
{
    for (auto& x : v)
        x = (x + d) % K;
    return v;
}
inline ivec fn(const std::string& f, const ivec& v)
{
    if (f == "id")
        return v;
    if (f == "inc")
        return shift(v, 1);
    if (f == "dec")
        return shift(v, K - 1);
    if (f == "sum")
        return {sum(v) % K};
    if (f == "low") {
        auto r = v;
        for (auto& e : r)
            e %= 2;
        return r;
    }
    if (f == "par")
        return {sum(v) % 2};
    if (f == "fst")
        return {at(v, 1)};
    if (f == "dif")
        return {(at(v, 1) + K - at(v, 2)) % K};
    if (f == "eq")
        return {at(v, 1) == at(v, 2) ? 1 : 0};
    throw mbt::usage("fn " + f);
}
inline std::string inv(const std::string& f) { return f == "inc" ? "dec" : "id"; }
inline bool pred(const std::string& p, const ivec& v)
{
    if (p == "even")
        return sum(v) % 2 == 0;
    if (p == "nz")
        return at(v, 1) != 0;
    if (p == "no2") {
        for (auto x : v)
            if (x == 2)
                return false;
        return true;
    }
    if (p == "ne")
        return at(v, 1) != at(v, 2);
    throw mbt::usage("pred " + p);
}
inline ivec view_fn(const std::string& l, const ivec& v)
{
    if (l == "e1")
        return {at(v, 1)};
    if (l == "e2")
        return {at(v, 2)};
    if (l == "inc")
        return shift(v, 1);
    if (l == "id")
        return v;
    throw mbt::usage("lens " + l);
}
inline ivec put_fn(const std::string& l, const ivec& v, const ivec& x)
{
    if (l == "e1")
        return upd(v, 1, at(x, 1));
    if (l == "e2")
        return upd(v, 2, at(x, 1));
    if (l == "inc")
        return shift(x, K - 1);
    if (l == "id")
        return x;
    throw mbt::usage("lens " + l);
}
inline ivec view2_fn(const std::string& l, const V& a, const V& b)
{
    if (l == "cat")
        return flat(a, b);
    if (l == "l1")
        return a.d;
    if (l == "l2")
        return b.d;
    if (l == "l1e1")
        return {at(a.d, 1)};
    throw mbt::usage("lens2 " + l);
}
inline T2 put2_fn(const std::string& l, const V& a, const V& b, const ivec& x)
{
    if (l == "cat")
        return unflat(T2{a, b}, x);
    if (l == "l1")
        return T2{V{x}, b};
    if (l == "l2")
        return T2{a, V{x}};
    if (l == "l1e1")
        return T2{V{upd(a.d, 1, at(x, 1))}, b};
    throw mbt::usage("lens2 " + l);
}
