// Stores whose debugger is controlled and observed through HTTP.
#pragma once
#define STORE_SERIALISE 1
#include "store_world.hpp"

#include <lager/debug/debugger.hpp>
#include <lager/debug/http_server.hpp>

#include <cereal/types/vector.hpp>

#include <boost/asio/connect.hpp>
#include <sys/stat.h>

namespace sw {

inline std::string& root()
{
    static std::string r;
    return r;
}
// the files that the server may and may not serve, in a scratch directory
struct files
{
    files()
    {
        char t[] = "http-XXXXXX";
        if (!mkdtemp(t))
            throw usage("mkdtemp");
        root() = t;
        for (auto d : {"/res", "/res/gui", "/res/gui/sub"})
            if (mkdir((root() + d).c_str(), 0755) != 0)
                throw usage("mkdir");
        for (auto& [n, s] : list())
            std::ofstream{root() + n} << s;
    }
    ~files()
    {
        for (auto& [n, s] : list())
            ::unlink((root() + n).c_str());
        for (auto d : {"/res/gui/sub", "/res/gui", "/res", ""})
            ::rmdir((root() + d).c_str());
    }
    static std::vector<std::pair<std::string, std::string>> list()
    {
        return {{"/res/gui/index.html", "I"},
                {"/res/gui/a.js", "J"},
                {"/res/gui/sub/b.css", "K"},
                {"/res/secret.txt", "SECRET"},
                {"/deep.txt", "SECRET"}};
    }
};

// A client with one connection.
struct client
{
    boost::asio::io_context io;
    boost::asio::ip::tcp::socket sock{io};
    boost::beast::flat_buffer buf;

    explicit client(unsigned port)
    {
        sock.connect({boost::asio::ip::address_v4::loopback(),
                      static_cast<unsigned short>(port)});
        sock.set_option(boost::asio::ip::tcp::no_delay{true});
    }
    ~client()
    {
        boost::system::error_code ec;
        sock.set_option(boost::asio::socket_base::linger{true, 0}, ec);
        sock.close(ec);
    }
    std::pair<int, std::string> operator()(const std::string& method,
                                           const std::string& target)
    {
        namespace http = boost::beast::http;
        http::request<http::string_body> q{
            http::string_to_verb(method), target, 11};
        q.set(http::field::host, "localhost");
        q.prepare_payload();
        http::write(sock, q);
        http::response<http::string_body> r;
        http::read(sock, buf, r);
        return {int(r.result_int()), r.body()};
    }
};

// The server, in a handle that can let go of it: the server is a dependency
// of the store that it refers to.
struct http_server
{
    struct ihandle
    {
        virtual ~ihandle() = default;
        virtual void end() = 0;
    };
    template <class D>
    struct handle : ihandle
    {
        std::shared_ptr<lager::detail::http_debug_server_impl<D>> impl;
        void init(lager::context<typename D::action> c,
                  lager::reader<typename D::model> r)
        {
            impl->init(std::move(c), std::move(r));
        }
        void end() override { impl.reset(); }
    };
    std::shared_ptr<ihandle> last;
    unsigned port = 0;
    template <class D>
    auto make(D d)
    {
        static const char* argv[] = {"the", "program"};
        lager::http_debug_server s{
            2, argv, static_cast<std::uint16_t>(port), root() + "/res"};
        auto h  = std::make_shared<handle<D>>();
        h->impl = s.make(d);
        last    = h;
        return h;
    }
};
inline http_server server;

// makes a store at a free port
template <class F>
auto with_port(F f)
{
    static unsigned n = ::getpid() * 37u;
    for (int i = 0;; ++i) {
        server.port = 10000 + (n += 7) % 20000;
        try {
            return f();
        } catch (const boost::system::system_error& e) {
            if (server.last)
                server.last->end();
            server.last.reset();
            if (e.code() != boost::asio::error::address_in_use || i > 1000)
                throw;
        }
    }
}

template <bool Trans, bool Fut, bool Eff>
struct http
{
    static constexpr int init   = 7; // not that of a model by default
    static constexpr bool thunk = false, debugger = true;
    using action_t = act<Eff>;
    using effect_t = void;
    using tag_t    = std::conditional_t<Trans,
                                     lager::transactional_tag,
                                     lager::automatic_tag>;
    using dbg_t    = lager::debugger<action_t, model, lager::deps<>>;
    using model_t  = typename dbg_t::model;
    static inline std::unique_ptr<client> cl;

    static const model& value(const model_t& m) { return m; }
    static auto make(any_loop l)
    {
        auto r = with_port([&] {
            model first;
            first.init = init;
            if constexpr (Fut)
                return lager::make_store<action_t, tag_t>(
                    first,
                    l,
                    lager::with_futures,
                    lager::with_debugger<lager::debugger>(server));
            else
                return lager::make_store<action_t, tag_t>(
                    first, l, lager::with_debugger<lager::debugger>(server));
        });
        cl     = std::make_unique<client>(server.port);
        return r;
    }
    static void end()
    {
        cl.reset();
        server.last->end();
        server.last.reset();
    }
    template <class W>
    static void dispatch(W&, const json& x)
    {
        auto& k = x[0].s;
        auto t  = "/api/" + k + (k == "goto" ? "/" + std::to_string(x[1].i) : "");
        auto r  = (*cl)("POST", t);
        MBT_CHECK(r.first == 200, "POST " << t << " answers " << r.first);
    }
    static void request(const json& x)
    {
        auto r    = (*cl)(x[0].s, x[1].s);
        auto what = x[0].s + " " + x[1].s + " answers " + std::to_string(r.first) +
                    " '" + r.second.substr(0, 100) + "'";
        MBT_CHECK(r.second.find("SECRET") == std::string::npos,
                  what << ": a file outside of the directory of resources");
        ++st().compared;
        if (x[2].is("error"))
            MBT_CHECK(r.first >= 400, what << " instead of an error");
        else if (!x[2].is("any"))
            MBT_CHECK(r.first == 200 && r.second == x[2].s,
                      what << " instead of the file " << x[2].s);
    }
    static json get(const std::string& t)
    {
        auto r = (*cl)("GET", t);
        MBT_CHECK(r.first == 200, "GET " << t << " answers " << r.first << ": " << r.second);
        try {
            return mbt::parse(r.second);
        } catch (const std::exception& e) {
            MBT_FAIL("GET " << t << " answers " << r.second << ": " << e.what());
        }
    }
    template <class W>
    static void compare(W& w, std::size_t no, const json& a, const json& o)
    {
        auto& d  = o["D"];
        auto& h  = d["h"];
        auto n   = h.size();
        auto at  = "step " + std::to_string(no + 1) + " " + a.dump() + ": ";
        if (!w.opt.cmp('h'))
            return;
        auto s = get(w.opt.hash % 2 ? "/api" : "/api/");
        MBT_CHECK(s["summary"].i == long(n) && s["cursor"].i == d["c"].i &&
                      s["paused"].truth() == d["paused"].truth() &&
                      s["program"].is("the program"),
                  at << "GET /api: " << s.dump() << " instead of " << n << " steps, at "
                     << d["c"].i << ", paused " << d["paused"].truth());
        st().compared += 4;
        for (std::size_t i = 0; i <= n; ++i) {
            auto t = "/api/step/" + std::to_string(i);
            auto s = get(t);
            auto m = i ? h[i - 1]["m"].ints() : ivec{};
            MBT_CHECK(s.has("action") == (i > 0),
                      at << "GET " << t << ": " << s.dump() << ": the action");
            if (i > 0)
                MBT_CHECK(s["action"]["k"].i == h[i - 1]["k"].i,
                          at << "GET " << t << ": " << s.dump() << ": the action");
            MBT_CHECK(s["model"]["v"].ints() == m && s["model"]["init"].i == 7,
                      at << "GET " << t << ": " << s.dump() << ": the model");
            st().compared += 3;
        }
        auto t = "/api/step/" + std::to_string(n + 1);
        auto r = (*cl)("GET", t);
        MBT_CHECK(r.first >= 400, at << "GET " << t << " answers " << r.first << ", "
                                     << r.second);
    }
};

void run_http_0(const json&, const options&);
void run_http_3(const json&, const options&);
void run_http_5(const json&, const options&);

} // namespace sw
