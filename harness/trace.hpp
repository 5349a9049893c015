// Records what happens in an event loop that several threads use.  The traces
// are judged by spec/LoopTrace.tla.
#pragma once

#include "mbt.hpp"

#include <atomic>
#include <chrono>
#include <exception>
#include <mutex>
#include <thread>

namespace tr {

using mbt::chooser;

struct ev
{
    long seq;
    const char* e;
    int t, k;
};

// No synchronisation among threads: the order of the events comes from a
// relaxed counter.
struct recorder
{
    std::atomic<long> seq{0};
    std::vector<ev> logs[12]; // one per thread
    void operator()(int self, const char* e, int t = 0, int k = 0)
    {
        logs[self].push_back({seq.fetch_add(1, std::memory_order_relaxed), e, t, k});
    }
    std::mutex shared_mutex;
    void shared(const char* e, int t, int k)
    {
        auto l = std::unique_lock{shared_mutex};
        (*this)(10, e, t, k);
    }
    std::string str(const std::string& what)
    {
        std::map<long, ev> all;
        for (auto& l : logs)
            for (auto& x : l)
                all.emplace(x.seq, x);
        std::ostringstream s;
        s << "{\"w\":\"" << what << "\",\"h\":[";
        bool first = true;
        for (auto& [n, x] : all) {
            s << (first ? "" : ",") << "{\"e\":\"" << x.e << "\",\"t\":" << x.t
              << ",\"k\":" << x.k << ",\"x\":" << x.k << "}";
            first = false;
        }
        s << "]}";
        return s.str();
    }
};

inline thread_local int self = 9; // number of this thread; 0 owns the loop

inline void spin(unsigned n)
{
    for (volatile unsigned i = 0; i < n; i = i + 1)
        ;
}

inline std::atomic<bool> stop{false}; // record no more traces

struct oops
{
    int k;
};

// what the functions of a trace do
struct plan
{
    unsigned nested = 0, thrown = 0, asynced = 0, paused = 0; // out of 10
    int threads = 2, posts = 3;
};

template <class Loop>
struct session
{
    Loop& loop;
    plan p;
    std::uint64_t seed;
    recorder rec;
    std::atomic<int> uid{0}; // of functions posted by functions
    std::atomic<int> asyncs{0};

    unsigned choice(int k, int salt, unsigned n)
    {
        return chooser{seed * 131 + k * 17 + salt}(n);
    }
    void post(int k)
    {
        auto me = self;
        rec(me, "pb", me, k);
        begun.fetch_add(1);
        loop.post([this, k] { body(k); });
        rec(me, "pe", me, k);
    }
    void body(int k)
    {
        auto me = self;
        rec(me, "r", me, k);
        if (k < 100) {
            if (choice(k, 1, 10) < p.nested) {
                post(100 + uid.fetch_add(1, std::memory_order_relaxed));
                if (choice(k, 2, 2))
                    post(100 + uid.fetch_add(1, std::memory_order_relaxed));
            }
            if (choice(k, 3, 10) < p.asynced) {
                auto a = 200 + asyncs.fetch_add(1, std::memory_order_relaxed);
                rec(me, "ab", me, a);
                loop.async([this, a] {
                    rec.shared("ar", self == 0 ? 0 : 9, a);
                });
            }
            if (choice(k, 5, 10) < p.paused) {
                if (choice(k, 6, 3)) {
                    loop.pause();
                    rec(me, "pz");
                } else {
                    rec(me, "rs");
                    loop.resume();
                }
            }
            if (choice(k, 4, 10) < p.thrown)
                throw oops{k};
        }
        rec(me, "re", me, k);
        ran.fetch_add(1);
    }
    std::atomic<int> ran{0}, begun{0};
    // lets the loop run what was posted
    void settle()
    {
        for (int i = 0; i < 20000 && ran != begun; ++i)
            std::this_thread::sleep_for(std::chrono::milliseconds(1));
        if (ran != begun)
            stop = true;
        rec(self, "all");
    }
    // the other threads
    std::vector<std::thread> ts;
    std::atomic<int> alive{0};
    void start()
    {
        alive = p.threads;
        for (int t = 1; t <= p.threads; ++t)
            ts.emplace_back([this, t] {
                self = t;
                chooser ch{seed + t};
                for (int j = 0; j < p.posts; ++j) {
                    spin(ch(3) ? ch(60) : ch(6000));
                    post(t * 10 + j);
                }
                alive.fetch_sub(1);
            });
    }
    void join()
    {
        for (auto& t : ts)
            t.join();
        ts.clear();
    }
};

struct args
{
    long traces = 10;
    std::uint64_t seed = 1;
    std::string kind;
    args(int argc, char** argv)
    {
        for (int i = 1; i < argc; ++i) {
            std::string a = argv[i];
            if (a == "--traces")
                traces = std::stol(argv[++i]);
            else if (a == "--seed")
                seed = std::stoull(argv[++i]);
            else if (a == "--kind")
                kind = argv[++i];
        }
    }
};

inline void out(const std::string& s)
{
    std::printf("T%s\n", s.c_str());
}

// ends the process when a trace takes too long
inline void watchdog(std::atomic<long>& now, std::atomic<bool>& over)
{
    long last = -1;
    int idle  = 0;
    while (!over) {
        std::this_thread::sleep_for(std::chrono::milliseconds(100));
        if (now == last) {
            if (++idle > 600) {
                std::printf("HANG %ld\n", last);
                std::fflush(stdout);
                std::_Exit(3);
            }
        } else {
            idle = 0;
            last = now;
        }
    }
}

template <class F>
int run(const args& a, F f)
{
    std::atomic<long> now{0};
    std::atomic<bool> over{false};
    std::thread w{[&] { watchdog(now, over); }};
    for (long i = 0; i < a.traces && !stop; ++i) {
        now = i;
        f(a.seed * 1000003 + i, a.kind);
    }
    over = true;
    w.join();
    std::printf("DONE %ld\n", a.traces);
    std::fflush(stdout);
    return 0;
}

} // namespace tr
