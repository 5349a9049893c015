// Types that are saved and loaded, and the archives (C31).
#pragma once
#include "mbt.hpp"

#include <lager/config.hpp>
#include <lager/extra/cereal/enum.hpp>
#include <lager/extra/cereal/immer_array.hpp>
#include <lager/extra/cereal/immer_box.hpp>
#include <lager/extra/cereal/immer_flex_vector.hpp>
#include <lager/extra/cereal/immer_map.hpp>
#include <lager/extra/cereal/immer_set.hpp>
#include <lager/extra/cereal/immer_vector.hpp>
#include <lager/extra/cereal/json.hpp>
#include <lager/extra/cereal/struct.hpp>
#include <lager/extra/cereal/tuple.hpp>
#include <lager/extra/cereal/variant_with_name.hpp>
#include <lager/extra/derive.hpp>
#include <lager/extra/derive/cereal.hpp>
#include <lager/extra/derive/eq.hpp>
#include <lager/extra/derive/hana.hpp>
#include <lager/extra/derive/hash.hpp>
#include <lager/extra/enum.hpp>
#include <lager/extra/struct.hpp>

#include <cereal/archives/binary.hpp>
#include <cereal/archives/json.hpp>
#include <cereal/archives/portable_binary.hpp>
#include <cereal/archives/xml.hpp>
#include <cereal/types/string.hpp>

#include <tuple>
#include <variant>

namespace sw {

using namespace mbt;

using str  = std::string;
using ints = immer::vector<int>;
using strs = immer::vector<str>;
enum class kind
{
    good = 0,
    bad  = 10,
    ugly = -1
};

} // namespace sw
LAGER_ENUM(sw, kind, good, bad, ugly);
namespace sw {

struct item
{
    int id;
    str x;
};
struct rec
{
    ints v                  = {2147483647, -7};
    kind e                  = kind::bad;
    immer::map<int, int> m  = immer::map<int, int>{}.set(5, 2147483647);
};
template <class A, class B>
struct tpl
{
    A a;
    B b;
};
struct outer
{
    struct nest
    {
        str a;
        std::variant<int, kind> b;
        LAGER_STRUCT_NESTED(nest, a, b);
    };
    struct nder
    {
        kind a;
        immer::map<int, int> b;
        LAGER_DERIVE_NESTED((EQ, CEREAL), nder, a, b);
    };
};
using nest = outer::nest;
using nder = outer::nder;
struct der
{
    int first;
    str second;
    kind third;
};
struct camel
{
    static constexpr auto serialize_camel_case = true;
    int first_value;
    ints SECOND_ONE;
};
struct der_nothing
{};
template <class A, class B>
struct tder
{
    A a;
    B b;
};
struct onvp
{
    int a;
    ints b;
    template <class Archive>
    void serialize(Archive& ar)
    {
        CEREAL_OPTIONAL_NVP(ar, a);
        CEREAL_OPTIONAL_NVP(ar, b);
    }
};
} // namespace sw

LAGER_DERIVE((EQ), sw, onvp, a, b);
LAGER_STRUCT(sw, item, id, x);
LAGER_STRUCT(sw, rec, v, e, m);
LAGER_STRUCT_TEMPLATE(sw, (class A, class B), (tpl<A, B>), a, b);
LAGER_DERIVE((EQ, CEREAL, HASH), sw, der, first, second, third);
LAGER_STRUCT(sw, camel, first_value, SECOND_ONE);
LAGER_STRUCT(sw, der_nothing);
LAGER_DERIVE_TEMPLATE((EQ, CEREAL), sw, (class A, class B), (tder<A, B>), a, b);

namespace sw {

// ------------------------------------------------ values of the specification
inline int key(int k) { return k == 0 ? 5 : k == 1 ? -3 : 1000; }
inline str word(int k)
{
    return k == 0 ? "" : k == 1 ? "a \"quoted\" {text}:\n <b> & 'x', \\ [1]" : " x ";
}
inline int wordno(const str& s)
{
    for (int k = 0; k < 3; ++k)
        if (s == word(k))
            return k;
    return 9;
}

// How many items of a container stand for one of the specification: blow()
// everywhere, or only for the outermost containers.
struct blow_t
{
    int n     = 1;
    bool deep = true;
    int depth = 0;
    int here() const { return deep || depth <= 1 ? n : 1; }
};
inline blow_t& blow()
{
    static blow_t b;
    return b;
}
struct deeper
{
    deeper() { ++blow().depth; }
    ~deeper() { --blow().depth; }
};
// runs of n equal texts stand for one
inline std::vector<std::string> collapse(std::vector<std::string> c)
{
    std::size_t n = blow().here();
    std::vector<std::string> r;
    for (std::size_t i = 0; i < c.size(); i += n) {
        for (std::size_t k = i; k < i + n; ++k)
            if (k >= c.size() || c[k] != c[i])
                return c;
        r.push_back(c[i]);
    }
    return r;
}
inline json numbered(int k) { return mbt::parse("{\"n\":" + std::to_string(k) + "}"); }
// the elements and keys that stand for one
inline int nth(int x, int i) { return i ? x / 2 + 4000 * i : x; }
inline str nth(const str& x, int i) { return i ? x + "#" + std::to_string(i) : x; }

template <class T>
struct conv;
#define EACH_C(j, x)                                                                     \
    for (auto&& x : j["c"].a)
inline std::string txt(int n, const std::vector<std::string>& c)
{
    std::string r = std::to_string(n) + "(";
    for (auto& x : c)
        r += x;
    return r + ")";
}
inline std::string text(const json& j)
{
    std::vector<std::string> c;
    EACH_C(j, x) c.push_back(text(x));
    return txt(j["n"].i, c);
}
template <class T>
T make(const json& j)
{
    return conv<T>::make(j);
}
template <class T>
std::string text(const T& x)
{
    return conv<T>::text(x);
}

template <>
struct conv<int>
{
    static int make(const json& j)
    {
        return j["n"].i == 0 ? 0 : j["n"].i == 1 ? 2147483647 : -7;
    }
    static std::string text(int x)
    {
        return txt(x == 0 ? 0 : x == 2147483647 ? 1 : x == -7 ? 2 : 9, {});
    }
};
template <>
struct conv<str>
{
    static str make(const json& j) { return word(j["n"].i); }
    static std::string text(const str& x) { return txt(wordno(x), {}); }
};
template <>
struct conv<kind>
{
    static kind make(const json& j)
    {
        return j["n"].i == 0 ? kind::good : j["n"].i == 1 ? kind::bad : kind::ugly;
    }
    static std::string text(kind x)
    {
        return txt(x == kind::good ? 0 : x == kind::bad ? 1 : x == kind::ugly ? 2 : 9, {});
    }
};
template <>
struct conv<std::monostate>
{
    static std::monostate make(const json&) { return {}; }
    static std::string text(std::monostate) { return txt(0, {}); }
};
template <class V>
struct conv_seq
{
    static V make(const json& j)
    {
        deeper d;
        V r;
        EACH_C(j, x)
        for (int i = 0; i < blow().here(); ++i)
            r = std::move(r).push_back(sw::make<typename V::value_type>(x));
        return r;
    }
    static std::string text(const V& v)
    {
        deeper d;
        std::vector<std::string> c;
        for (auto& x : v)
            c.push_back(sw::text(x));
        return txt(0, collapse(c));
    }
};
template <class T>
struct conv<immer::vector<T>> : conv_seq<immer::vector<T>>
{};
template <class T>
struct conv<immer::flex_vector<T>> : conv_seq<immer::flex_vector<T>>
{};
template <class T>
struct conv<immer::array<T>> : conv_seq<immer::array<T>>
{};
template <class T>
struct conv<immer::box<T>>
{
    static immer::box<T> make(const json& j) { return sw::make<T>(j["c"][0]); }
    static std::string text(const immer::box<T>& x) { return txt(0, {sw::text(x.get())}); }
};
template <class T>
struct conv<immer::set<T>>
{
    static immer::set<T> make(const json& j)
    {
        deeper d;
        immer::set<T> r;
        EACH_C(j, x)
        for (int i = 0; i < blow().here(); ++i)
            r = std::move(r).insert(nth(sw::make<T>(x), i));
        return r;
    }
    static std::string text(const immer::set<T>& s)
    {
        deeper d;
        std::vector<std::string> c;
        std::size_t n = 0;
        for (int k = 0; k < 3; ++k) {
            auto x = sw::make<T>(numbered(k));
            for (int i = 0; i < blow().here() && s.count(nth(x, i)); ++i, ++n)
                c.push_back(sw::text(x));
        }
        return txt(0, collapse(c)) + (n == s.size() ? "" : " and others");
    }
};
template <class K, class T, class MakeK, class MakeT, class ShowT>
struct conv_map
{
    using map = immer::map<K, T>;
    static map make(const json& j)
    {
        deeper d;
        map r;
        EACH_C(j, x)
        for (int i = 0; i < blow().here(); ++i) {
            auto k = nth(MakeK{}(x["n"].i), i);
            r      = std::move(r).set(k, MakeT{}(k, x["c"][0]));
        }
        return r;
    }
    static std::string text(const map& s)
    {
        deeper d;
        std::vector<std::string> c;
        std::size_t n = 0;
        for (int k = 0; k < 3; ++k)
            for (int i = 0; i < blow().here(); ++i, ++n) {
                auto p = s.find(nth(MakeK{}(k), i));
                if (!p)
                    break;
                c.push_back(txt(k, {ShowT{}(nth(MakeK{}(k), i), *p)}));
            }
        return txt(0, collapse(c)) + (n == s.size() ? "" : " and others");
    }
};
struct int_key
{
    int operator()(int k) const { return key(k); }
};
struct str_key
{
    str operator()(int k) const { return word(k); }
};
template <class T>
struct make_t
{
    template <class K>
    T operator()(const K&, const json& j) const
    {
        return sw::make<T>(j);
    }
};
struct show_t
{
    template <class K, class T>
    std::string operator()(const K&, const T& x) const
    {
        return sw::text(x);
    }
};
struct make_item
{
    item operator()(int k, const json& j) const { return {k, sw::make<str>(j)}; }
};
struct show_item
{
    std::string operator()(int k, const item& x) const
    {
        return sw::text(x.x) + (x.id == k ? "" : " with another id");
    }
};
template <class T>
struct conv<immer::map<int, T>>
    : conv_map<int, T, int_key, make_t<T>, show_t>
{};
template <>
struct conv<immer::map<str, int>>
    : conv_map<str, int, str_key, make_t<int>, show_t>
{};
template <>
struct conv<immer::map<int, item>>
    : conv_map<int, item, int_key, make_item, show_item>
{};
template <class... Ts>
struct conv<std::tuple<Ts...>>
{
    template <std::size_t... I>
    static std::tuple<Ts...> mk(const json& j, std::index_sequence<I...>)
    {
        return {sw::make<Ts>(j["c"][I])...};
    }
    static std::tuple<Ts...> make(const json& j)
    {
        return mk(j, std::index_sequence_for<Ts...>{});
    }
    static std::string text(const std::tuple<Ts...>& x)
    {
        return std::apply([](auto&... y) { return txt(0, {sw::text(y)...}); }, x);
    }
};
template <class... Ts>
struct conv<std::variant<Ts...>>
{
    using var = std::variant<Ts...>;
    template <std::size_t... I>
    static var mk(const json& j, std::index_sequence<I...>)
    {
        var r;
        ((j["n"].i == int(I) ? (r = var{std::in_place_index<I>, sw::make<Ts>(j["c"][0])}, 0)
                             : 0),
         ...);
        return r;
    }
    static var make(const json& j) { return mk(j, std::index_sequence_for<Ts...>{}); }
    static std::string text(const var& x)
    {
        return txt(x.index(), {std::visit([](auto& y) { return sw::text(y); }, x)});
    }
};
template <class T>
T init(const json& j)
{
    return sw::make<T>(j);
}
#define CONV2(T, a, b)                                                                   \
    {                                                                                    \
        static T make(const json& j)                                                     \
        {                                                                                \
            T x;                                                                         \
            x.a = sw::make<decltype(x.a)>(j["c"][0]);                                    \
            x.b = sw::make<decltype(x.b)>(j["c"][1]);                                    \
            return x;                                                                    \
        }                                                                                \
        static std::string text(const T& x)                                              \
        {                                                                                \
            return txt(0, {sw::text(x.a), sw::text(x.b)});                               \
        }                                                                                \
    }
#define CONV3(T, a, b, d)                                                                \
    {                                                                                    \
        static T make(const json& j)                                                     \
        {                                                                                \
            T x;                                                                         \
            x.a = sw::make<decltype(x.a)>(j["c"][0]);                                    \
            x.b = sw::make<decltype(x.b)>(j["c"][1]);                                    \
            x.d = sw::make<decltype(x.d)>(j["c"][2]);                                    \
            return x;                                                                    \
        }                                                                                \
        static std::string text(const T& x)                                              \
        {                                                                                \
            return txt(0, {sw::text(x.a), sw::text(x.b), sw::text(x.d)});                \
        }                                                                                \
    }
struct conv_rec CONV3(rec, v, e, m);
template <>
struct conv<rec>
{
    // not more items in that by default
    static std::string normal()
    {
        return "0(0(1()2())1()0(0(1())))";
    }
    static rec make(const json& j)
    {
        return sw::text(j) == normal() ? rec{} : conv_rec::make(j);
    }
    static std::string text(const rec& x)
    {
        return x == rec{} ? normal() : conv_rec::text(x);
    }
};
template <class A, class B>
struct conv<tpl<A, B>> CONV2(__typeof__(tpl<A, B>), a, b);
template <>
struct conv<nest> CONV2(nest, a, b);
template <>
struct conv<nder> CONV2(nder, a, b);
template <>
struct conv<der> CONV3(der, first, second, third);
template <>
struct conv<camel> CONV2(camel, first_value, SECOND_ONE);
template <class A, class B>
struct conv<tder<A, B>> CONV2(__typeof__(tder<A, B>), a, b);
template <>
struct conv<onvp> CONV2(onvp, a, b);
template <>
struct conv<der_nothing>
{
    static der_nothing make(const json&) { return {}; }
    static std::string text(const der_nothing&) { return txt(0, {}); }
};

// ------------------------------------------------------------------ archives
enum
{
    json_k,
    binary_k,
    portable_k,
    xml_k,
    kinds_n
};
struct writer
{
    int kind;
    std::ostringstream s;
    std::unique_ptr<cereal::JSONOutputArchive> j;
    std::unique_ptr<cereal::BinaryOutputArchive> b;
    std::unique_ptr<cereal::PortableBinaryOutputArchive> p;
    std::unique_ptr<cereal::XMLOutputArchive> x;
    explicit writer(int k)
        : kind{k}
    {
        if (k == json_k)
            j = std::make_unique<cereal::JSONOutputArchive>(s);
        if (k == binary_k)
            b = std::make_unique<cereal::BinaryOutputArchive>(s);
        if (k == portable_k)
            p = std::make_unique<cereal::PortableBinaryOutputArchive>(s);
        if (k == xml_k)
            x = std::make_unique<cereal::XMLOutputArchive>(s);
    }
    template <class T>
    void operator()(const T& v)
    {
        if (j)
            (*j)(v);
        if (b)
            (*b)(v);
        if (p)
            (*p)(v);
        if (x)
            (*x)(v);
    }
    std::string finish()
    {
        j.reset();
        b.reset();
        p.reset();
        x.reset();
        return s.str();
    }
};
struct reader
{
    int kind;
    std::istringstream s;
    std::unique_ptr<cereal::JSONInputArchive> j;
    std::unique_ptr<cereal::BinaryInputArchive> b;
    std::unique_ptr<cereal::PortableBinaryInputArchive> p;
    std::unique_ptr<cereal::XMLInputArchive> x;
    reader(int k, const std::string& t)
        : kind{k}
        , s{t}
    {
        if (k == json_k)
            j = std::make_unique<cereal::JSONInputArchive>(s);
        if (k == binary_k)
            b = std::make_unique<cereal::BinaryInputArchive>(s);
        if (k == portable_k)
            p = std::make_unique<cereal::PortableBinaryInputArchive>(s);
        if (k == xml_k)
            x = std::make_unique<cereal::XMLInputArchive>(s);
    }
    template <class T>
    void operator()(T& v)
    {
        if (j)
            (*j)(v);
        if (b)
            (*b)(v);
        if (p)
            (*p)(v);
        if (x)
            (*x)(v);
    }
};

// -------------------------------------------------------------------- places
struct cell
{
    virtual ~cell()                        = default;
    virtual void set(const json&)          = 0;
    virtual std::string show() const       = 0;
    virtual bool is(const json&) const     = 0;
    virtual int same(const cell&) const    = 0; // 2: inconsistent
    virtual void copy(const cell&)         = 0;
    virtual void save(writer&) const       = 0;
    virtual void load(reader&)             = 0;
    virtual void through(const cell& from) = 0;
};

// those that lager::to_json() takes: not what has serialize() for variables only
template <class T>
struct rootable : std::true_type
{};
#define NOT_ROOTABLE(...)                                                                \
    struct rootable<__VA_ARGS__> : std::false_type                                       \
    {};
template <>
NOT_ROOTABLE(kind)
template <>
NOT_ROOTABLE(der)
template <>
NOT_ROOTABLE(nder)
template <>
NOT_ROOTABLE(onvp)
template <class A, class B>
NOT_ROOTABLE(tder<A, B>)
template <class... Ts>
NOT_ROOTABLE(std::tuple<Ts...>)

template <class T>
struct hashable : std::is_same<T, der>
{};

template <class T>
struct cell_t : cell
{
    T v{};
    static const T& of(const cell& x) { return static_cast<const cell_t&>(x).v; }
    void set(const json& j) override { v = make<T>(j); }
    std::string show() const override { return text(v); }
    bool is(const json& j) const override
    {
        blow().depth = 0;
        auto e       = make<T>(j);
        return v == e && !(v != e) && text(v) == text(j);
    }
    int same(const cell& x) const override
    {
        auto& y = of(x);
        if ((v == y) == (v != y))
            return 2;
        if constexpr (hashable<T>::value)
            if (v == y && std::hash<T>{}(v) != std::hash<T>{}(y))
                return 2;
        return v == y;
    }
    void copy(const cell& x) override { v = of(x); }
    void save(writer& w) const override { w(v); }
    void load(reader& r) override { r(v); }
    void through(const cell& from) override
    {
        if constexpr (rootable<T>::value)
            v = lager::from_json<T>(lager::to_json(of(from)));
        else
            v = of(from);
    }
};

std::unique_ptr<cell> make_cell(int t);
template <int N>
std::unique_ptr<cell> cell_of();

} // namespace sw
