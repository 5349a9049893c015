// Runs the programs of spec/Future.tla in threads and compares the order in
// which the callbacks ran with the outcomes that the specification allows.
#include "mbt.hpp"

#include <lager/event_loop/safe_queue.hpp>
#include <lager/future.hpp>

#include <atomic>
#include <optional>
#include <set>
#include <thread>

using namespace mbt;

namespace {

thread_local const char* busy = nullptr; // the call being made in this thread

struct outcome_run
{
    const json& prog;
    chooser ch;
    lager::safe_queue_event_loop loop;
    lager::with_safe_queue_event_loop wloop{loop};
    std::vector<std::optional<lager::promise>> ps;
    std::vector<lager::future> fs;
    std::vector<int> ran;
    std::string fault;
    std::thread::id owner = std::this_thread::get_id();
    std::atomic<int> ready{0}, over{0};
    std::atomic<bool> outside{false};

    outcome_run(const json& p, std::uint64_t seed)
        : prog{p}
        , ch{seed}
    {
        for (int i = 0; i < 3; ++i) {
            auto [a, b] = lager::promise::with_loop(wloop);
            ps.emplace_back(std::move(a));
            fs.push_back(std::move(b));
        }
    }
    void called(int c)
    {
        if (std::this_thread::get_id() != owner || busy)
            outside = true;
        else
            ran.push_back(c);
    }
    lager::future fut(int i) { return std::move(fs[i - 1]); }
    void op(const json& o)
    {
        auto& k = o[0].s;
        busy    = "a call";
        if (k == "ful") {
            auto p = std::move(*ps[o[1].i - 1]);
            ps[o[1].i - 1].reset();
            p();
        } else if (k == "then") {
            int c = o[2].i;
            (void) fut(o[1].i).then([this, c] { called(c); });
        } else if (k == "thn") {
            int c = o[2].i, d = o[3].i;
            (void) fut(o[1].i).then([this, c] { called(c); }).then([this, d] {
                called(d);
            });
        } else if (k == "also") {
            int c = o[3].i;
            (void) fut(o[1].i).also(fut(o[2].i)).then([this, c] { called(c); });
        } else if (k == "thf") {
            int c = o[2].i, d = o[4].i;
            auto g = fut(o[3].i);
            (void) fut(o[1].i)
                .then([this, c, g = std::move(g)]() mutable -> lager::future {
                    called(c);
                    return std::move(g);
                })
                .then([this, d] { called(d); });
        } else
            throw usage("op " + k);
        busy = nullptr;
    }
    void run()
    {
        std::vector<std::thread> ts;
        auto n = prog.size();
        std::vector<std::vector<unsigned>> delays(n);
        for (std::size_t t = 0; t < n; ++t)
            for (std::size_t i = 0; i <= prog[t].size(); ++i)
                delays[t].push_back(ch(3) ? ch(40) : ch(3000));
        for (std::size_t t = 0; t < n; ++t)
            ts.emplace_back([this, t, n, &delays] {
                ++ready;
                while (ready < int(n))
                    std::this_thread::yield();
                volatile unsigned sink = 0;
                for (std::size_t i = 0; i < prog[t].size(); ++i) {
                    for (unsigned d = 0; d < delays[t][i]; ++d)
                        sink = sink + 1;
                    op(prog[t][i]);
                }
                ++over;
            });
        while (over < int(n))
            loop.step();
        for (auto& t : ts)
            t.join();
        for (int i = 0; i < 12; ++i)
            loop.step();
        st().steps += long(n);
    }
};

void replay(const json& j, const options& o)
{
    std::set<std::vector<int>> allowed;
    for (auto& x : j["outcomes"].a)
        allowed.insert(x.ints());
    int rounds = std::getenv("ROUNDS") ? std::atoi(std::getenv("ROUNDS")) : 60;
    std::set<std::vector<int>> seen;
    for (int r = 0; r < rounds; ++r) {
        outcome_run x{j["p"], o.hash + r};
        x.run();
        ++st().compared;
        MBT_CHECK(!x.outside,
                  "a callback runs outside of the event loop, or inside of the call "
                  "that completes or attaches it");
        MBT_CHECK(allowed.count(x.ran),
                  "program " << j["p"].dump() << ": the callbacks run in the order "
                             << show(x.ran) << ", which no schedule allows");
        seen.insert(x.ran);
    }
    st().ops["outcomes_allowed"] += long(allowed.size());
    st().ops["outcomes_seen"] += long(seen.size());
}

} // namespace

int main(int argc, char** argv) { return run(argc, argv, replay); }
