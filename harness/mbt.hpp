// Common parts of the replay harnesses: reading the behaviours printed by TLC
// and reporting where the implementation departs from them.
#pragma once

#include <algorithm>
#include <cassert>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <optional>
#include <memory>
#include <sstream>
#include <stdexcept>
#include <string>
#include <utility>
#include <vector>

#include <fcntl.h>
#include <sys/mman.h>
#include <unistd.h>

namespace mbt {

// --------------------------------------------------------------------- json
struct json
{
    enum kind_t
    {
        null_k,
        bool_k,
        int_k,
        str_k,
        arr_k,
        obj_k
    } kind = null_k;
    long i = 0;
    std::string s;
    std::vector<json> a;
    std::vector<std::pair<std::string, json>> o;

    const json& operator[](const char* k) const
    {
        for (auto& x : o)
            if (x.first == k)
                return x.second;
        static json nil;
        return nil;
    }
    const json& operator[](std::size_t k) const { return a.at(k); }
    const json& operator[](int k) const { return a.at(k); }
    bool has(const char* k) const
    {
        for (auto& x : o)
            if (x.first == k)
                return true;
        return false;
    }
    std::size_t size() const { return kind == obj_k ? o.size() : a.size(); }
    bool is(const char* x) const { return kind == str_k && s == x; }
    bool truth() const { return i != 0; }
    std::vector<int> ints() const
    {
        std::vector<int> r;
        for (auto& x : a)
            r.push_back(static_cast<int>(x.i));
        return r;
    }
    std::string dump() const
    {
        switch (kind) {
        case null_k:
            return "null";
        case bool_k:
            return i ? "true" : "false";
        case int_k:
            return std::to_string(i);
        case str_k:
            return "\"" + s + "\"";
        case arr_k: {
            std::string r = "[";
            for (auto& x : a)
                r += (r.size() > 1 ? "," : "") + x.dump();
            return r + "]";
        }
        default: {
            std::string r = "{";
            for (auto& x : o)
                r += (r.size() > 1 ? ",\"" : "\"") + x.first +
                     "\":" + x.second.dump();
            return r + "}";
        }
        }
    }
};

struct parser
{
    const char* p;
    const char* e;
    void ws()
    {
        while (p < e && (*p == ' ' || *p == '\n' || *p == '\r' || *p == '\t'))
            ++p;
    }
    [[noreturn]] void bad(const char* m)
    {
        throw std::runtime_error(std::string{"json: "} + m + " at " +
                                 std::string(p, std::min(e, p + 30)));
    }
    std::string str()
    {
        std::string r;
        ++p;
        while (p < e && *p != '"') {
            if (*p == '\\') {
                ++p;
                r += *p == 'n' ? '\n' : *p == 't' ? '\t' : *p;
                ++p;
            } else
                r += *p++;
        }
        if (p >= e)
            bad("string");
        ++p;
        return r;
    }
    json val()
    {
        ws();
        if (p >= e)
            bad("eof");
        json j;
        switch (*p) {
        case '{':
            j.kind = json::obj_k;
            ++p;
            ws();
            if (*p == '}') {
                ++p;
                return j;
            }
            for (;;) {
                ws();
                auto k = str();
                ws();
                if (*p++ != ':')
                    bad("colon");
                j.o.emplace_back(std::move(k), val());
                ws();
                if (*p == ',')
                    ++p;
                else
                    break;
            }
            if (*p++ != '}')
                bad("brace");
            return j;
        case '[':
            j.kind = json::arr_k;
            ++p;
            ws();
            if (*p == ']') {
                ++p;
                return j;
            }
            for (;;) {
                j.a.push_back(val());
                ws();
                if (*p == ',')
                    ++p;
                else
                    break;
            }
            if (*p++ != ']')
                bad("bracket");
            return j;
        case '"':
            j.kind = json::str_k;
            j.s    = str();
            return j;
        case 't':
            p += 4;
            j.kind = json::bool_k;
            j.i    = 1;
            return j;
        case 'f':
            p += 5;
            j.kind = json::bool_k;
            return j;
        case 'n':
            p += 4;
            return j;
        default: {
            char* q;
            j.kind = json::int_k;
            j.i    = std::strtol(p, &q, 10);
            if (q == p)
                bad("number");
            p = q;
            return j;
        }
        }
    }
};

inline json parse(const std::string& s)
{
    parser p{s.data(), s.data() + s.size()};
    return p.val();
}

// a behaviour as printed by PrintT("B" \o ToJson(..)): a TLA+ string literal
inline bool unquote(const std::string& line, std::string& out)
{
    if (line.size() < 4 || line[0] != '"' || line[1] != 'B')
        return false;
    out.clear();
    for (std::size_t i = 2; i + 1 < line.size(); ++i) {
        if (line[i] == '\\' && i + 2 < line.size())
            ++i;
        out += line[i];
    }
    return true;
}

// ---------------------------------------------------------------- mismatches
struct mismatch : std::runtime_error
{
    using std::runtime_error::runtime_error;
};

template <class T>
std::string show(const T& x)
{
    std::ostringstream s;
    s << x;
    return s.str();
}
inline std::string show(const std::vector<int>& v)
{
    std::string r = "<";
    for (auto x : v)
        r += (r.size() > 1 ? "," : "") + std::to_string(x);
    return r + ">";
}

// the harness cannot run the behaviour: an error of the check
struct usage : std::runtime_error
{
    using std::runtime_error::runtime_error;
};

#define MBT_FAIL(msg)                                                         \
    do {                                                                       \
        std::ostringstream mbt_s_;                                             \
        mbt_s_ << msg;                                                         \
        throw ::mbt::mismatch(mbt_s_.str());                                   \
    } while (0)

#define MBT_CHECK(cond, msg)                                                   \
    do {                                                                       \
        if (!(cond))                                                           \
            MBT_FAIL(msg);                                                     \
    } while (0)

// A function given to the library as a variable, which goes away afterwards:
//     auto g = lend([](...) {...});
//     use(*g);
// The library may copy the function, but neither take it away from the variable
// nor use it once the variable is gone.
template <class F>
struct lent
{
    std::optional<F> f;
    bool moved = false;
    explicit lent(F x)
        : f{std::move(x)}
    {}
    lent(const lent& o)
        : f{o.f}
    {}
    lent(lent&& o)
        : f{std::move(o.f)}
    {
        o.moved = true;
    }
    void check() const
    {
        MBT_CHECK(f && !moved, "a function is used after it went away");
    }
    template <class... A>
    decltype(auto) operator()(A&&... a)
    {
        check();
        return (*f)(std::forward<A>(a)...);
    }
    template <class... A>
    decltype(auto) operator()(A&&... a) const
    {
        check();
        return (*f)(std::forward<A>(a)...);
    }
};
struct loans
{
    std::vector<std::shared_ptr<void>> kept;
    bool taken = false;
};
inline loans& lent_out()
{
    static loans x;
    return x;
}
template <class F>
struct loan
{
    std::shared_ptr<lent<F>> p;
    explicit loan(F f)
        : p{std::make_shared<lent<F>>(std::move(f))}
    {}
    loan(loan&&) = delete;
    lent<F>& operator*() const { return *p; }
    ~loan()
    {
        if (p->moved)
            lent_out().taken = true;
        p->f.reset();
        lent_out().kept.push_back(p);
    }
};
template <class F>
loan<F> lend(F f)
{
    return loan<F>{std::move(f)};
}

// deterministic choices among equivalent ways of using the library
struct chooser
{
    std::uint64_t s;
    explicit chooser(std::uint64_t x)
        : s{x * 0x9E3779B97F4A7C15ull + 0x1234567}
    {}
    unsigned operator()(unsigned n)
    {
        s += 0x9E3779B97F4A7C15ull;
        auto z = s;
        z      = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z      = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        z ^= z >> 31;
        return n ? static_cast<unsigned>(z % n) : 0u;
    }
};

struct options
{
    std::uint64_t seed = 1;
    std::uint64_t hash = 0; // of the behaviour and the seed
    std::string mask;  // what to compare, one letter each
    bool cmp(char c) const
    {
        return mask.empty() || mask.find(c) != std::string::npos;
    }
};

struct stats
{
    long behaviours = 0, steps = 0, compared = 0;
    std::map<std::string, long> ops;
};
inline stats& st()
{
    static stats s;
    return s;
}

// Runs f on every behaviour of this shard.  Prints one line per departure:
//   FAIL <line number> <message>
// and at the end
//   DONE <behaviours> <steps> <compared> op=count...
// The line being run is kept in a mapped file so that a crash can be traced.
template <class F>
int run(int argc, char** argv, F f)
{
    std::string file, cur;
    long shard = 0, shards = 1, only = -1, maxfail = 5;
    options opt;
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        auto next     = [&] { return std::string(argv[++i]); };
        if (a == "--shard")
            shard = std::stol(next());
        else if (a == "--shards")
            shards = std::stol(next());
        else if (a == "--only")
            only = std::stol(next());
        else if (a == "--seed")
            opt.seed = std::stoull(next());
        else if (a == "--mask")
            opt.mask = next();
        else if (a == "--cur")
            cur = next();
        else if (a == "--maxfail")
            maxfail = std::stol(next());
        else
            file = a;
    }
    volatile long dummy = -1;
    volatile long* now  = &dummy;
    if (!cur.empty()) {
        int fd = ::open(cur.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0644);
        if (fd >= 0 && ::ftruncate(fd, 4096) == 0) {
            void* m = ::mmap(
                nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
            if (m != MAP_FAILED)
                now = static_cast<volatile long*>(m);
        }
    }
    std::ifstream in{file};
    if (!in) {
        std::fprintf(stderr, "cannot open %s\n", file.c_str());
        return 2;
    }
    std::string line, txt;
    long no = -1, fails = 0;
    while (std::getline(in, line)) {
        if (line.size() < 3 || line[0] != '"' || line[1] != 'B')
            continue;
        ++no;
        if (only >= 0 ? no != only : no % shards != shard)
            continue;
        if (!unquote(line, txt))
            continue;
        *now = no + 1;
        json j;
        try {
            j = parse(txt);
        } catch (const std::exception& e) {
            std::printf("BADINPUT %ld %s\n", no, e.what());
            return 2;
        }
        opt.hash = 1469598103934665603ull ^ opt.seed;
        for (unsigned char c : txt)
            opt.hash = (opt.hash ^ c) * 1099511628211ull;
        lent_out() = {};
        try {
            f(j, opt);
            MBT_CHECK(!lent_out().taken,
                      "a function given as a variable was moved away from it");
            ++st().behaviours;
        } catch (const mismatch& e) {
            std::printf("FAIL %ld %s\n", no, e.what());
            if (++fails >= maxfail)
                break;
        } catch (const usage& e) {
            std::printf("BADINPUT %ld %s\n", no, e.what());
            std::fflush(stdout);
            return 2;
        } catch (const std::exception& e) {
            std::printf("FAIL %ld unexpected exception: %s\n", no, e.what());
            if (++fails >= maxfail)
                break;
        } catch (...) {
            std::printf("FAIL %ld unexpected exception\n", no);
            if (++fails >= maxfail)
                break;
        }
    }
    *now = 0;
    std::printf("DONE %ld %ld %ld", st().behaviours, st().steps, st().compared);
    for (auto& x : st().ops)
        std::printf(" %s=%ld", x.first.c_str(), x.second);
    std::printf("\n");
    std::fflush(stdout);
    return 0;
}

} // namespace mbt
