// Traces of the Qt event loop and of the one of QML items.
#include "trace.hpp"

#include <lager/config.hpp>
#include <lager/event_loop/qml.hpp>
#include <lager/event_loop/qt.hpp>

#include <QGuiApplication>
#include <QQuickWindow>

#include <optional>

namespace {

struct qt_loop
{
    lager::with_qt_event_loop& l;
    template <class F>
    void post(F f)
    {
        l.post(std::move(f));
    }
    template <class F>
    void async(F f)
    {
        l.async(std::move(f));
    }
    void pause() {}
    void resume() {}
};

struct qml_loop : lager::with_qml_event_loop
{
    template <class F>
    void async(F)
    {}
    void pause() {}
    void resume() {}
};

void qt(std::uint64_t seed)
{
    tr::chooser ch{seed};
    tr::self = 0;
    QObject obj;
    QThreadPool pool;
    pool.setMaxThreadCount(3);
    std::optional<lager::with_qt_event_loop> l;
    if (ch(2))
        l.emplace(lager::with_qt_event_loop{obj, pool});
    else
        l.emplace(lager::with_qt_event_loop{obj});
    tr::plan p;
    p.threads = 1 + ch(3);
    p.posts   = 1 + ch(4);
    p.nested  = ch(2) ? 4 : 0;
    p.asynced = ch(2) ? 3 : 0;
    qt_loop w{*l};
    tr::session<qt_loop> s{w, p, seed};
    s.post(90);
    s.start();
    std::thread c{[&] {
        s.join();
        tr::self = 8;
        s.settle();
        s.rec(8, "pb", 8, 99);
        l->post([&] {
            s.rec(tr::self, "r", tr::self, 99);
            s.rec(0, "ab", 0, 299);
            l->async([&] {
                std::this_thread::sleep_for(std::chrono::milliseconds(1));
                s.rec.shared("ar", tr::self == 0 ? 0 : 9, 299);
            });
            s.rec(tr::self, "fin");
            l->finish();
            s.rec(tr::self, "re", tr::self, 99);
        });
        s.rec(8, "pe", 8, 99);
    }};
    s.rec(0, "sb");
    QCoreApplication::exec();
    s.rec(0, "se");
    c.join();
    l.reset(); // waits for the async functions
    s.rec(0, "end");
    tr::out(s.rec.str("qt"));
}

struct item : lager::event_loop_quick_item
{
    std::function<void()> before, after;
    void step() override
    {
        before();
        lager::event_loop_quick_item::step();
        after();
    }
};

void qml(std::uint64_t seed)
{
    tr::chooser ch{seed};
    tr::self = 0;
    QQuickWindow win;
    item* it = new item;
    it->setParentItem(win.contentItem());
    it->setSize(QSizeF{10, 10});
    lager::with_qml_event_loop l{*it};
    tr::plan p;
    p.threads = 1 + ch(3);
    p.posts   = 1 + ch(4);
    p.nested  = ch(2) ? 4 : 0;
    qml_loop w{l};
    tr::session<qml_loop> s{w, p, seed};
    it->before = [&] { s.rec(0, "sb", 0, 1); };
    it->after  = [&] { s.rec(0, "se"); };
    s.post(90);
    win.resize(20, 20);
    win.show();
    s.start();
    std::thread c{[&] {
        s.join();
        tr::self = 8;
        s.settle();
        QMetaObject::invokeMethod(
            &win, [] { QCoreApplication::quit(); }, Qt::QueuedConnection);
    }};
    if (ch(2))
        s.post(91);
    QCoreApplication::exec();
    c.join();
    s.rec(0, "end");
    tr::out(s.rec.str("qml"));
}

} // namespace

int main(int argc, char** argv)
{
    QGuiApplication app{argc, argv};
    return tr::run(tr::args{argc, argv}, [](auto seed, auto& kind) {
        if (kind == "qml")
            qml(seed);
        else
            qt(seed);
    });
}
