// Traces of the thread-safe queue and of the Boost.Asio event loop.
#include "trace.hpp"

#include <lager/event_loop/boost_asio.hpp>
#include <lager/event_loop/safe_queue.hpp>

#include <boost/asio/executor_work_guard.hpp>
#include <boost/asio/io_context.hpp>
#include <boost/asio/thread_pool.hpp>

#include <optional>

namespace {

void safe(std::uint64_t seed, bool adopt)
{
    tr::chooser ch{seed};
    tr::self = 0;
    std::optional<lager::safe_queue_event_loop> q;
    if (adopt)
        std::thread{[&] { q.emplace(); }}.join(), q->adopt();
    else
        q.emplace();
    lager::with_safe_queue_event_loop l{*q};
    tr::plan p;
    p.threads = 1 + ch(3);
    p.posts   = 1 + ch(4);
    p.nested  = ch(2) ? 4 : 0;
    p.thrown  = ch(2) ? 3 : 0;
    tr::session<lager::with_safe_queue_event_loop> s{l, p, seed};
    auto step = [&] {
        s.rec(0, "sb");
        try {
            q->step();
            s.rec(0, "se");
            return true;
        } catch (const tr::oops& e) {
            s.rec(0, "se", 0, e.k);
            return false;
        }
    };
    s.start();
    int owned = 0;
    for (int i = ch(6); i-- > 0;) {
        tr::spin(ch(2) ? ch(3000) : ch(30000));
        if (ch(4) == 0 && owned < 8)
            s.post(90 + owned++);
        step();
    }
    s.join();
    int normal = 0;
    for (int i = 0; i < 60 && normal < 2; ++i)
        normal = step() ? normal + 1 : 0;
    s.rec(0, "end");
    tr::out(s.rec.str("safe_queue"));
}

void asio(std::uint64_t seed)
{
    tr::chooser ch{seed};
    tr::self = 0;
    boost::asio::io_context io;
    using ex_t = boost::asio::io_context::executor_type;
    using work_t = boost::asio::executor_work_guard<ex_t>;
    std::optional<work_t> work{io.get_executor()};
    tr::plan p;
    p.threads = 1 + ch(3);
    p.posts   = 1 + ch(4);
    p.nested  = ch(2) ? 4 : 0;
    p.asynced = ch(2) ? 3 : 0;
    lager::with_boost_asio_event_loop<ex_t> l{io.get_executor(),
                                              [&] { work.reset(); }};
    tr::session<decltype(l)> s{l, p, seed};
    s.post(90);
    s.start();
    std::thread c{[&] {
        s.join();
        tr::self = 8;
        auto me  = 8;
        s.rec(me, "pb", me, 99);
        l.post([&] {
            s.rec(tr::self, "r", tr::self, 99);
            l.finish();
            s.rec(tr::self, "re", tr::self, 99);
        });
        s.rec(me, "pe", me, 99);
    }};
    s.rec(0, "sb");
    io.run();
    s.rec(0, "se");
    c.join();
    s.rec(0, "end");
    tr::out(s.rec.str("boost_asio"));
}

// only what is running keeps the loop alive
void asio_async(std::uint64_t seed)
{
    tr::chooser ch{seed};
    tr::self = 0;
    boost::asio::io_context io;
    using ex_t = boost::asio::io_context::executor_type;
    lager::with_boost_asio_event_loop<ex_t> l{io.get_executor()};
    tr::plan p;
    p.nested = ch(2) ? 4 : 0;
    tr::session<decltype(l)> s{l, p, seed};
    std::atomic<int> left{0};
    auto wait = ch(3) ? ch(3000) : ch(200000);
    for (int j = 1 + ch(3); j > 0; --j) {
        s.rec(0, "ab", 0, 200 + j);
        left.fetch_add(1);
        l.async([&, j] {
            tr::self = j;
            tr::spin(wait);
            s.rec(j, "ar", j, 200 + j);
            s.post(10 * j);
            left.fetch_sub(1);
        });
    }
    s.rec(0, "sb");
    io.run();
    s.rec(0, "se");
    while (left)
        std::this_thread::yield();
    s.rec(0, "end");
    tr::out(s.rec.str("boost_asio_async"));
}

using strand_t = boost::asio::strand<boost::asio::io_context::executor_type>;
struct strand_loop
{
    lager::with_boost_asio_event_loop<strand_t> l;
    strand_t st;
    template <class F>
    void post(F f)
    {
        l.post([f, s = st] {
            auto save = tr::self;
            tr::self  = s.running_in_this_thread() ? 0 : 6;
            f();
            tr::self = save;
        });
    }
    template <class F>
    void async(F f)
    {
        l.async(f);
    }
    void pause() { l.pause(); }
    void resume() { l.resume(); }
};

// many threads run the loop, but a strand makes it a serial one: the owner is
// whoever runs the strand
void strand(std::uint64_t seed)
{
    tr::chooser ch{seed};
    tr::self = 7;
    boost::asio::io_context io;
    strand_t st{io.get_executor()};
    boost::asio::executor_work_guard<boost::asio::io_context::executor_type> work{
        io.get_executor()};
    tr::plan p;
    p.threads = 1 + ch(3);
    p.posts   = 1 + ch(4);
    strand_loop l{{st}, st};
    tr::session<strand_loop> s{l, p, seed};
    s.rec(7, "sb");
    s.start();
    std::vector<std::thread> ws;
    for (int i = 0; i < 3; ++i)
        ws.emplace_back([&] { io.run(); });
    s.join();
    work.reset();
    for (auto& w : ws)
        w.join();
    s.rec(7, "se");
    s.rec(7, "end");
    tr::out(s.rec.str("boost_asio_strand"));
}

} // namespace

int main(int argc, char** argv)
{
    return tr::run(tr::args{argc, argv}, [](auto seed, auto& kind) {
        if (kind == "safe")
            safe(seed, seed % 5 == 0);
        else if (seed % 5 == 1)
            asio_async(seed);
        else if (seed % 5)
            asio(seed);
        else
            strand(seed);
    });
}
