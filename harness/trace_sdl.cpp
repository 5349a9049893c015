// Traces of the SDL event loop.
#include "trace.hpp"

#include <lager/config.hpp>
#include <lager/event_loop/sdl.hpp>

namespace {

// loops without pause() and async() would not compile in a session
struct sdl_loop : lager::with_sdl_event_loop
{
    std::reference_wrapper<lager::sdl_event_loop> l;
    sdl_loop(lager::sdl_event_loop& x)
        : lager::with_sdl_event_loop{x}
        , l{x}
    {}
    template <typename F>
    void async(F)
    {}
};

void sdl(std::uint64_t seed)
{
    tr::chooser ch{seed};
    tr::self = 0;
    SDL_FlushEvents(SDL_FIRSTEVENT, SDL_LASTEVENT);
    lager::sdl_event_loop q;
    sdl_loop l{q};
    tr::plan p;
    p.threads = 1 + ch(3);
    p.posts   = 1 + ch(4);
    p.nested  = ch(2) ? 4 : 0;
    bool ticks = ch(3);
    p.paused  = ticks && ch(3) ? 3 : 0;
    int how   = ch(3); // who calls finish()
    bool resume = ch(2);
    tr::session<sdl_loop> s{l, p, seed};
    s.post(90);
    s.start();
    auto user = SDL_RegisterEvents(1);
    auto native = [&] {
        auto e = SDL_Event{};
        SDL_zero(e);
        e.type = user;
        SDL_PushEvent(&e);
    };
    std::thread c{[&] {
        native();
        s.join();
        native();
        tr::self = 8;
        s.settle();
        if (how == 0) {
            s.rec(8, "fin");
            q.finish();
        } else {
            s.rec(8, "pb", 8, 99);
            l.post([&] {
                s.rec(tr::self, "r", tr::self, 99);
                if (resume) {
                    s.rec(tr::self, "rs");
                    l.resume();
                }
                s.rec(tr::self, "fin");
                l.finish();
                s.rec(tr::self, "re", tr::self, 99);
            });
            s.rec(8, "pe", 8, 99);
        }
    }};
    auto handled = [&](const SDL_Event& e) {
        if (e.type == user)
            s.rec(0, "hd");
        return true;
    };
    s.rec(0, "sb");
    if (ticks)
        q.run(handled,
              [&](float) {
                  s.rec(0, "hd");
                  return true;
              },
              1000);
    else
        q.run(handled);
    s.rec(0, "se");
    c.join();
    s.rec(0, "end");
    tr::out(s.rec.str(ticks ? "sdl with ticks" : "sdl"));
}

// many posts at once; the trace shows some of them
void flood()
{
    tr::self = 0;
    SDL_FlushEvents(SDL_FIRSTEVENT, SDL_LASTEVENT);
    lager::sdl_event_loop q;
    tr::recorder rec;
    constexpr int n = 65600, from = 65500;
    for (int k = 0; k < n; ++k) {
        if (k >= from)
            rec(0, "pb", 0, k);
        q.post([&rec, k] {
            if (k >= from) {
                rec(0, "r", 0, k);
                rec(0, "re", 0, k);
            }
        });
        if (k >= from)
            rec(0, "pe", 0, k);
    }
    rec(0, "sb");
    int frames = 0;
    q.run([](auto&&) { return true; }, [&](float) { return ++frames < 3; }, 1000);
    rec(0, "se");
    rec(0, "end");
    tr::out(rec.str("sdl flood"));
}

} // namespace

int main(int argc, char** argv)
{
    if (SDL_Init(SDL_INIT_EVENTS) != 0) {
        std::printf("BADINPUT SDL_Init: %s\n", SDL_GetError());
        return 4;
    }
    return tr::run(tr::args{argc, argv}, [](auto seed, auto& kind) {
        if (kind == "flood")
            flood();
        else
            sdl(seed);
    });
}
