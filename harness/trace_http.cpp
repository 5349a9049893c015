// Records what clients of the HTTP interface of the debugger see while the
// program goes on.  The traces are judged by spec/HttpTrace.tla.
#include "http.hpp"
#include "trace.hpp"

#include <lager/event_loop/safe_queue.hpp>

using tr::chooser;

struct app
{
    std::vector<int> v;
    template <class A>
    void serialize(A& a)
    {
        a(cereal::make_nvp("v", v));
    }
    friend bool operator==(const app& a, const app& b) { return a.v == b.v; }
};
struct add
{
    int k = 0;
    template <class A>
    void serialize(A& a)
    {
        a(cereal::make_nvp("k", k));
    }
    friend bool operator==(add a, add b) { return a.k == b.k; }
};
static app update(app m, add a)
{
    m.v.push_back(a.k);
    return m;
}

struct recorder
{
    std::atomic<long> seq{0};
    struct item
    {
        long seq;
        std::string s;
    };
    std::vector<item> logs[4];
    void operator()(int t, std::string s)
    {
        logs[t].push_back({seq.fetch_add(1, std::memory_order_relaxed), std::move(s)});
    }
};

static std::string list(const std::vector<int>& v)
{
    std::string r = "[";
    for (auto x : v)
        r += (r.size() > 1 ? "," : "") + std::to_string(x);
    return r + "]";
}
template <class M>
std::string state(const M& m)
{
    std::vector<int> ks;
    for (auto& s : m.history)
        ks.push_back(s.action.k);
    return "{\"h\":" + list(ks) + ",\"c\":" + std::to_string(m.cursor) +
           ",\"p\":" + (m.paused ? "true" : "false") + "}";
}

static void trace(std::uint64_t seed, const std::string&)
{
    chooser ch{seed};
    lager::safe_queue_event_loop queue;
    queue.adopt();
    auto store = sw::with_port([&] {
        return lager::make_store<add>(app{},
                                      lager::with_safe_queue_event_loop{queue},
                                      lager::with_debugger(sw::server));
    });
    recorder rec;
    std::vector<std::string> states{state(store.get())};
    store.watch([&](const auto& m) {
        states.push_back(state(m));
        rec(0, "{\"e\":\"pub\",\"k\":" + std::to_string(states.size()) + "}");
    });
    std::atomic<int> alive{2};
    std::vector<std::thread> ts;
    std::exception_ptr err;
    for (int t = 1; t <= 2; ++t)
        ts.emplace_back([&, t] {
            try {
                chooser ch{seed * 7 + t};
                sw::client cl{sw::server.port};
                auto at = ",\"t\":" + std::to_string(t);
                for (int i = 0; i < 8; ++i) {
                    auto x = ch(10);
                    if (x < 2) {
                        cl("POST", ch(2) ? "/api/undo" : "/api/redo");
                    } else if (x < 7) {
                        rec(t, "{\"e\":\"gb\"" + at + "}");
                        auto r = cl("GET", "/api");
                        if (r.first != 200)
                            throw std::runtime_error{r.second};
                        auto j = mbt::parse(r.second);
                        rec(t, "{\"e\":\"ga\"" + at + ",\"n\":" + j["summary"].dump() +
                                   ",\"c\":" + j["cursor"].dump() +
                                   ",\"p\":" + j["paused"].dump() + "}");
                    } else {
                        int n = ch(6);
                        rec(t, "{\"e\":\"gb\"" + at + "}");
                        auto r = cl("GET", "/api/step/" + std::to_string(n));
                        auto j = r.first == 200 ? mbt::parse(r.second) : mbt::json{};
                        rec(t, "{\"e\":\"gs\"" + at + ",\"n\":" + std::to_string(n) +
                                   ",\"r\":" + (r.first == 200 ? "false" : "true") +
                                   ",\"v\":" + list(j["model"]["v"].ints()) + "}");
                    }
                    tr::spin(ch(3) ? ch(60) : ch(6000));
                }
            } catch (...) {
                std::printf("client: cannot go on\n");
                std::_Exit(4);
            }
            alive.fetch_sub(1);
        });
    int n = 0;
    while (alive) {
        for (int i = ch(3); i >= 0; --i) {
            auto x = ch(12);
            using D = lager::debugger<add, app, lager::deps<>>;
            if (states.size() > 60)
                ;
            else if (x < 8)
                store.dispatch(add{++n});
            else if (x < 10)
                store.dispatch(D::undo_action{});
            else
                store.dispatch(D::goto_action{ch(4)});
        }
        rec(0, "{\"e\":\"sb\"}");
        queue.step();
        rec(0, "{\"e\":\"se\"}");
        tr::spin(ch(3) ? ch(40000) : ch(400000));
    }
    for (auto& t : ts)
        t.join();
    sw::server.last->end();
    sw::server.last.reset();
    std::map<long, std::string> all;
    for (auto& l : rec.logs)
        for (auto& x : l)
            all.emplace(x.seq, x.s);
    std::string s = "{\"w\":\"http\",\"s\":[", sep;
    for (auto& x : states)
        s += sep + x, sep = ",";
    s += "],\"h\":[";
    sep = "";
    // without the steps that do nothing
    std::vector<std::string> evs;
    for (auto& x : all)
        if (x.second == "{\"e\":\"se\"}" && evs.back() == "{\"e\":\"sb\"}")
            evs.pop_back();
        else
            evs.push_back(x.second);
    for (auto& x : evs)
        s += sep + x, sep = ",";
    tr::out(s + "]}");
}

int main(int argc, char** argv)
{
    sw::files fs;
    return tr::run(tr::args{argc, argv}, trace);
}
