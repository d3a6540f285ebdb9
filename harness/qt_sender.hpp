#pragma once
#include <QObject>
#include <string>

class Sender : public QObject
{
    Q_OBJECT
public:
    void fire0() { emit none(); }
    void fire1(int v) { emit one(v); }
    void fire2(int v, const std::string& s) { emit two(v, s); }
    void fire_text(const std::string& s) { emit text(s); }
    void fire_other(int v) { emit other(v); }

signals:
    void none();
    void one(int v);
    void two(int v, const std::string& s);
    void text(const std::string& s);
    void other(int v);
};

class SubSender final : public Sender
{
    Q_OBJECT
};
