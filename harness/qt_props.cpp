// Replays behaviours of QtProps.tla with objects of Qt and QML (C30).
#include "mbt.hpp"

#include <lager/commit.hpp>
#include <lager/state.hpp>

#include "qt_props.hpp"

#include <lager/cursor.hpp>
#include <lager/reader.hpp>

#include <zug/transducer/map.hpp>

#include <QCoreApplication>
#include <QJSValue>
#include <QMetaObject>
#include <QMetaProperty>
#include <QQmlComponent>
#include <QQmlEngine>
#include <QSignalSpy>

#include <optional>

#include "moc_qt_props.cpp"

namespace qp {

using mbt::chooser;
using mbt::json;
using mbt::options;
using mbt::st;
using mbt::usage;

enum { A, S, R };
int prop(const std::string& p) { return p == "a" ? A : p == "s" ? S : R; }
const char* name(int p) { return p == A ? "a" : p == S ? "s" : "r"; }

int inc(int x) { return (x + 1) % 3; }
int dec(int x) { return (x + 2) % 3; }
int par(int x) { return x % 2; }
QString str(int x) { return QString("value %1").arg(x); }
int num(const QString& x)
{
    auto p = x.split(' ');
    return p.size() == 2 && p[0] == "value" ? p[1].toInt() : 99;
}
int num(int x) { return x; }
int num(const QVariant& v, int p) { return p == S ? num(v.toString()) : v.toInt(); }

struct qml_t
{
    QQmlEngine engine;
    QQmlComponent component{&engine};
    qml_t()
    {
        component.setData("import QtQml 2.2\n"
                          "QtObject {\n"
                          "  property QtObject o: null\n"
                          "  property int a: o ? o.a : -1\n"
                          "  property string s: o ? o.s : \"\"\n"
                          "  property int r: o ? o.r : -1\n"
                          "  property int k: o ? o.k : -1\n"
                          "  function write(p, y) { o[p] = y }\n"
                          "}\n",
                          QUrl{});
        if (!component.isReady())
            throw usage("qml: " + component.errorString().toStdString());
    }
};
qml_t* qml = nullptr;

struct spy_t
{
    std::vector<int> told;
    int wrong = 0;
    QMetaObject::Connection c;
    std::unique_ptr<QSignalSpy> q;
    int from = 0; // of the calls seen by q
};

struct object
{
    std::unique_ptr<props> o;
    std::unique_ptr<QObject> q;
    std::vector<std::shared_ptr<spy_t>> spies[3];
};

struct world
{
    chooser ch;
    lager::state<int, lager::transactional_tag> s1{0};
    lager::state<int, lager::automatic_tag> s2{0};
    std::map<std::string, lager::cursor<int>> ci;
    std::map<std::string, lager::cursor<QString>> cs;
    std::map<std::string, lager::reader<int>> ri;
    std::map<int, object> obj;

    world(std::uint64_t h)
        : ch{h}
    {}

    template <class F>
    auto source(int n, F f)
    {
        return n == 1 ? f(s1) : f(s2);
    }
    lager::cursor<int> make_c(int n, const std::string& f)
    {
        return source(n, [&](auto& s) -> lager::cursor<int> {
            if (f == "self") {
                if (ch(2))
                    return s;
                return s.xform(zug::identity, zug::identity);
            }
            if (ch(2))
                return s.xform(zug::map(inc), zug::map(dec));
            return s.xform(zug::map(inc), lager::update([](int, int v) { return dec(v); }));
        });
    }
    lager::cursor<QString> make_s(int n, const std::string& f)
    {
        return source(n, [&](auto& s) -> lager::cursor<QString> {
            if (f == "self")
                return s.xform(zug::map(str),
                               zug::map([](const QString& x) { return num(x); }));
            return s.xform(zug::map([](int x) { return str(inc(x)); }),
                           zug::map([](const QString& x) { return dec(num(x)); }));
        });
    }
    lager::reader<int> make_r(int n, const std::string& f)
    {
        return source(n, [&](auto& s) -> lager::reader<int> {
            if (f == "par")
                return s.map(par);
            if (f == "inc")
                return s.map(inc);
            if (ch(2))
                return lager::reader<int>{s};
            return s.map([](int x) { return x; });
        });
    }
    // the same node again, or another one for the same
    template <class M, class F>
    auto find(M& m, const json& nd, F make)
    {
        auto key = std::to_string(nd[0].i) + nd[1].s;
        auto i   = m.find(key);
        if (i == m.end() || ch(3) == 0) {
            auto c = make(nd[0].i, nd[1].s);
            if (ch(2))
                m[key] = c;
            return c;
        }
        return i->second;
    }
    static bool none(const json& nd) { return nd[0].i == 0; }
    lager::cursor<int> ca(const json& nd)
    {
        return find(ci, nd, [&](int n, auto& f) { return make_c(n, f); });
    }
    lager::cursor<QString> cst(const json& nd)
    {
        return find(cs, nd, [&](int n, auto& f) { return make_s(n, f); });
    }
    lager::reader<int> cr(const json& nd)
    {
        if (nd[1].s != "par" && ch(2))
            return ca(nd);
        return find(ri, nd, [&](int n, auto& f) { return make_r(n, f); });
    }

    void assign(object& x, int p, const json& nd)
    {
        if (p == A)
            x.o->bind_a(ca(nd));
        else if (p == S)
            x.o->bind_s(cst(nd));
        else
            x.o->bind_r(cr(nd));
    }
    void make(int i, const json& nds)
    {
        auto& x = obj[i];
        if (!none(nds[0]) && !none(nds[1]) && !none(nds[2]) && ch(2))
            x.o = std::make_unique<props>(ca(nds[0]), cst(nds[1]), cr(nds[2]));
        else {
            x.o = std::make_unique<props>();
            x.o->k_is(7);
            for (int p = 0; p < 3; ++p)
                if (!none(nds[p]))
                    assign(x, p, nds[p]);
        }
        QQmlEngine::setObjectOwnership(x.o.get(), QQmlEngine::CppOwnership);
        for (int p = 0; p < 3; ++p)
            connect(x, p, ch(2));
    }
    void connect(object& x, int p, int how)
    {
        auto s = std::make_shared<spy_t>();
        auto o = x.o.get();
        if (how == 2) {
            auto sig = std::string{"2"} + name(p) +
                       (p == S ? "Changed(QString)" : "Changed(int)");
            s->q = std::make_unique<QSignalSpy>(o, sig.c_str());
            MBT_CHECK(s->q->isValid(), "there is no signal " << sig);
        } else {
            auto hear = [s = s.get(), o, p](auto& v, auto now) {
                s->told.push_back(num(v));
                // the property has that value when the slot is called
                if (num(now(o)) != num(v) || num(o->property(name(p)), p) != num(v))
                    ++s->wrong;
            };
            if (p == A)
                s->c = QObject::connect(o, &props::aChanged, [=](const int& v) {
                    hear(v, [](props* o) { return o->a(); });
                });
            else if (p == S)
                s->c = QObject::connect(o, &props::sChanged, [=](const QString& v) {
                    hear(v, [](props* o) { return o->s(); });
                });
            else
                s->c = QObject::connect(o, &props::rChanged, o, [=](const int& v) {
                    hear(v, [](props* o) { return o->r(); });
                });
        }
        x.spies[p].push_back(s);
    }
    void program(object& x, int p)
    {
        auto to = [this](int v) {
            if (ch(2))
                s2.set(v);
            else
                lager::cursor<int>{s2}.set(v);
        };
        auto o = x.o.get();
        if (p == A)
            QObject::connect(o, &props::aChanged, to);
        else if (p == R)
            QObject::connect(o, &props::rChanged, to);
        else
            QObject::connect(o, &props::sChanged, [to](const QString& v) { to(num(v)); });
    }
    void write(object& x, int p, int y)
    {
        auto v = p == A ? QVariant{y} : QVariant{str(y)};
        switch (ch(x.q ? 6 : 5)) {
        case 0:
            p == A ? x.o->seta(y) : x.o->sets(str(y));
            break;
        case 1:
            MBT_CHECK(x.o->setProperty(name(p), v), "setProperty fails");
            break;
        case 2: {
            auto m  = x.o->metaObject();
            auto mp = m->property(m->indexOfProperty(name(p)));
            MBT_CHECK(mp.isWritable(), "the property cannot be written");
            MBT_CHECK(mp.write(x.o.get(), v), "write fails");
            break;
        }
        case 3:
            p == A ? x.o->ca().set(y) : x.o->cs().set(str(y));
            break;
        case 4: {
            auto js = qml->engine.newQObject(x.o.get());
            js.setProperty(name(p), p == A ? QJSValue{y} : QJSValue{str(y)});
            break;
        }
        case 5:
            QMetaObject::invokeMethod(
                x.q.get(), "write", Q_ARG(QVariant, QString{name(p)}), Q_ARG(QVariant, v));
            break;
        }
    }
    int read(object& x, int p)
    {
        switch (ch(4)) {
        case 0:
            return p == A ? x.o->a() : p == R ? x.o->r() : num(x.o->s());
        case 1:
            return num(x.o->property(name(p)), p);
        case 2: {
            auto m = x.o->metaObject();
            return num(m->property(m->indexOfProperty(name(p))).read(x.o.get()), p);
        }
        default: {
            auto js = qml->engine.newQObject(x.o.get()).property(name(p));
            return p == S ? num(js.toString()) : js.toInt();
        }
        }
    }
};

void replay(const json& j, const options& opt)
{
    world w{opt.hash};
    auto& h = j["h"];
    for (std::size_t n = 0; n < h.size(); ++n) {
        auto& a  = h[n]["a"];
        auto& o  = h[n]["o"];
        auto& op = a["op"].s;
        int i    = a["i"].i;
        ++st().steps;
        ++st().ops[op];
        auto where = [&] { return "step " + std::to_string(n + 1) + " " + a.dump() + ": "; };
        if (op == "make")
            w.make(i, a["nd"]);
        else if (op == "del") {
            w.obj[i].q.reset();
            w.obj.erase(i);
        } else if (op == "asg")
            w.assign(w.obj[i], prop(a["p"].s), a["nd"]);
        else if (op == "copy") {
            auto& x = *w.obj[i].o;
            auto& y = *w.obj[a["j"].i].o;
            int p = prop(a["p"].s), p2 = prop(a["p2"].s);
            if (p == A)
                w.ch(2) ? x.bind_a(y.ca()) : void(x.ca() = y.ca());
            else if (p == S)
                w.ch(2) ? x.bind_s(y.cs()) : void(x.cs() = y.cs());
            else if (p2 == R)
                w.ch(2) ? x.bind_r(y.cr()) : void(x.cr() = y.cr());
            else
                x.bind_r(y.ca());
        } else if (op == "pw")
            w.write(w.obj[i], prop(a["p"].s), a["y"].i);
        else if (op == "sw")
            a["r"].i == 1 ? w.s1.set(a["x"].i) : w.s2.set(a["x"].i);
        else if (op == "commit")
            lager::commit(w.s1);
        else if (op == "con")
            w.connect(w.obj[i], prop(a["p"].s), w.ch(3));
        else if (op == "dis") {
            auto& s = w.obj[i].spies[prop(a["p"].s)];
            // the first one stays
            auto it = s.begin() + 1 + w.ch(s.size() - 1);
            if ((*it)->q)
                (*it)->q.reset();
            else
                QObject::disconnect((*it)->c);
            s.erase(it);
        } else if (op == "prog")
            w.program(w.obj[i], prop(a["p"].s));
        else if (op == "qml") {
            auto& x = w.obj[i];
            x.q.reset(qml->component.create());
            if (!x.q)
                throw usage("no qml object");
            x.q->setProperty("o", QVariant::fromValue<QObject*>(x.o.get()));
        } else
            throw usage("action " + op);

        for (auto& [i, x] : w.obj) {
            auto& e = o[i - 1];
            MBT_CHECK(x.o->k() == 7 && x.o->property("k").toInt() == 7,
                      where() << "the constant property of object " << i << " is "
                              << x.o->k());
            for (int p = 0; p < 3; ++p) {
                auto about = [&] {
                    return where() + "property " + name(p) + " of object " +
                           std::to_string(i);
                };
                int v = e["v"][p].i, cnt = e["n"][p].i, may = e["may"][p].i;
                if (v != 9) {
                    int got = w.read(x, p);
                    MBT_CHECK(got == v, about() << " is " << got << " instead of " << v);
                    ++st().compared;
                }
                for (auto& s : x.spies[p]) {
                    if (s->q)
                        for (auto& args : *s->q)
                            s->told.push_back(num(args.at(0), p));
                    if (s->q)
                        s->q->clear();
                    int n = s->told.size();
                    MBT_CHECK(may ? n <= cnt + 1 : n == cnt,
                              about() << " signalled " << n << " changes instead of "
                                      << cnt);
                    MBT_CHECK(s->wrong == 0,
                              about() << " did not have the value that it signalled");
                    if (n)
                        MBT_CHECK(s->told.back() == v, about() << " signalled "
                                                               << s->told.back()
                                                               << " instead of " << v);
                    s->told.clear();
                    st().compared += 2;
                }
                if (x.q && e["q"][p].i != 9) {
                    int got = num(x.q->property(name(p)), p);
                    MBT_CHECK(got == e["q"][p].i, about() << " is " << got << " in QML instead of "
                                                          << e["q"][p].i);
                    ++st().compared;
                }
            }
        }
    }
    w.obj.clear();
}
} // namespace qp

int main(int argc, char** argv)
{
    qputenv("QT_QPA_PLATFORM", "offscreen");
    qputenv("QT_LOGGING_RULES", "*.debug=false");
    QCoreApplication app{argc, argv};
    qp::qml_t q;
    qp::qml = &q;
    return mbt::run(argc, argv, [](const mbt::json& j, const mbt::options& o) {
        qp::replay(j, o);
    });
}
