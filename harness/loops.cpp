// Replays behaviours of spec/Loops.tla into the event loops.
#include "mbt.hpp"

#include <lager/event_loop/manual.hpp>
#include <lager/event_loop/queue.hpp>
#include <lager/event_loop/safe_queue.hpp>

#include <condition_variable>
#include <mutex>
#include <thread>

using namespace mbt;

namespace {

struct oops
{
    int k;
};


// a thread that does what it is told while the caller waits
struct helper
{
    std::mutex m;
    std::condition_variable cv;
    std::function<void()> job;
    bool stop = false;
    std::thread t{[this] {
        auto l = std::unique_lock{m};
        while (true) {
            cv.wait(l, [&] { return job || stop; });
            if (stop)
                return;
            job();
            job = nullptr;
            cv.notify_all();
        }
    }};
    void operator()(std::function<void()> f)
    {
        auto l = std::unique_lock{m};
        job    = std::move(f);
        cv.notify_all();
        cv.wait(l, [&] { return !job; });
    }
    ~helper()
    {
        {
            auto l = std::unique_lock{m};
            stop   = true;
            cv.notify_all();
        }
        t.join();
    }
};
helper& other()
{
    static helper h;
    return h;
}

struct world
{
    const json& prog;
    const options& opt;
    std::string kind;
    lager::with_manual_event_loop manual;
    lager::queue_event_loop queue;
    lager::safe_queue_event_loop safe;
    std::vector<int> log;
    std::string fault;
    int running = 0;
    std::vector<std::weak_ptr<int>> tokens; // one per post
    std::vector<char> ran;

    world(const json& p, const options& o)
        : prog{p}
        , opt{o}
        , kind{p["kind"].s}
    {}

    void post(int k)
    {
        int n  = int(tokens.size());
        auto t = std::make_shared<int>(n);
        tokens.push_back(t);
        ran.push_back(0);
        // big and small functions, which are kept in different ways
        if (opt.hash & 2)
            post_fn([this, k, n, t] {
                run(k, n, t);
                if (!t || *t != n)
                    fault = "a function is destroyed while it runs";
            });
        else
            post_fn(small{this, n, k});
    }
    struct small
    {
        world* w;
        int n, k;
        void operator()()
        {
            auto o = w;
            int no = n;
            o->run(k, n, std::make_shared<int>(n));
            if (w != o || n != no)
                o->fault = "a function is destroyed while it runs";
        }
    };
    template <class F>
    void post_fn(F f)
    {
        if (opt.hash & 4) {
            auto g = mbt::lend(std::move(f));
            give(*g);
        } else
            give(std::move(f));
    }
    template <class F>
    void give(F&& f)
    {
        if (kind == "manual")
            manual.post(std::forward<F>(f));
        else if (kind == "queue") {
            if (opt.hash & 1)
                queue.post(std::forward<F>(f));
            else
                lager::with_queue_event_loop{queue}.post(std::forward<F>(f));
        } else {
            if (opt.hash & 1)
                safe.post(std::forward<F>(f));
            else
                lager::with_safe_queue_event_loop{safe}.post(std::forward<F>(f));
        }
    }
    void tpost(int k)
    {
        other()([&] { post(k); });
    }
    void run(int k, int n, const std::shared_ptr<int>& t)
    {
        if (ran[n]++)
            fault = "a function runs twice";
        if (!t)
            fault = "a function runs after it was moved from";
        struct guard
        {
            int& x;
            ~guard() { --x; }
        } g{running};
        if (running++)
            fault = "function " + std::to_string(k) + " runs inside of another one";
        log.push_back(k);
        for (auto& o : prog["f"][k - 1].a) {
            if (o[0].is("x"))
                throw oops{k};
            else if (o[0].is("p"))
                post(o[1].i);
            else
                tpost(o[1].i);
        }
    }
    void replay(const json& h)
    {
        for (std::size_t i = 0; i < h.size(); ++i) {
            auto& a = h[i]["a"];
            auto& o = h[i]["o"];
            log.clear();
            int x = 0;
            ++st().steps;
            ++st().ops[kind + "." + a["op"].s];
            try {
                if (a["op"].is("post"))
                    post(a["k"].i);
                else if (a["op"].is("tpost"))
                    tpost(a["k"].i);
                else if (kind == "queue")
                    queue.step();
                else
                    safe.step();
            } catch (const oops& e) {
                x = e.k;
            }
            auto where = [&] {
                return kind + " loop, step " + std::to_string(i + 1) + " " +
                       a.dump() + ": ";
            };
            MBT_CHECK(fault.empty(), where() << fault);
            MBT_CHECK(log == o["c"].ints(),
                      where() << "runs " << show(log) << " instead of "
                              << show(o["c"].ints()));
            MBT_CHECK(x == o["x"].i,
                      where() << "exception of " << x << " instead of " << o["x"].i);
            st().compared += 2;
        }
    }
};

} // namespace

int main(int argc, char** argv)
{
    return run(argc, argv, [](const json& j, const options& o) {
        world w{j["p"], o};
        w.replay(j["h"]);
    });
}
