// An object with properties of every kind.
#pragma once

#include <lager/extra/qt.hpp>

#include <QObject>
#include <QString>

class props : public QObject
{
    Q_OBJECT

public:
    props(QObject* parent = nullptr)
        : QObject{parent}
    {}
    // bound from the beginning
    props(lager::cursor<int> xa, lager::cursor<QString> xs, lager::reader<int> xr)
        : LAGER_QT(a){std::move(xa)}
        , LAGER_QT(s){std::move(xs)}
        , LAGER_QT(r){std::move(xr)}
        , LAGER_QT(k){7}
    {}

    LAGER_QT_CURSOR(int, a);
    LAGER_QT_CURSOR(QString, s);
    LAGER_QT_READER(int, r);
    LAGER_QT_CONST(int, k);

    void bind_a(lager::cursor<int> x) { LAGER_QT(a) = std::move(x); }
    void bind_s(lager::cursor<QString> x) { LAGER_QT(s) = std::move(x); }
    void bind_r(lager::reader<int> x) { LAGER_QT(r) = std::move(x); }
    lager::cursor<int>& ca() { return LAGER_QT(a); }
    lager::cursor<QString>& cs() { return LAGER_QT(s); }
    lager::reader<int>& cr() { return LAGER_QT(r); }
    void k_is(int x) { LAGER_QT(k) = x; }
};
