#include "impl.hpp"
namespace impl
{
    Obs build_unary1(const Node& n, World& w)
    {
        World* W  = &w;
        auto   s  = build(*n.ch[0], w);
        const int a = n.a, id = n.id;
        Tok    t;
        switch (n.k)
        {
        case K::Map:
            if (n.b & 1)
                return (s | rpp::ops::map([=](Val v) { t.touch(); W->cb(id); return add_map(v, a); })).as_dynamic();
            return (s | rpp::ops::map([=](const Val& v) { t.touch(); W->cb(id); return add_map(v, a); })).as_dynamic();
        case K::Filter: return (s | rpp::ops::filter([=](const Val& v) { t.touch(); W->cb(id); return f_filter(v.get(), a); })).as_dynamic();
        case K::TakeWhile: return (s | rpp::ops::take_while([=](const Val& v) { t.touch(); W->cb(id); return f_while(v.get(), a); })).as_dynamic();
        case K::Take: return (s | rpp::ops::take(size_t(a))).as_dynamic();
        case K::Skip: return (s | rpp::ops::skip(size_t(a))).as_dynamic();
        case K::TakeLast: return (s | rpp::ops::take_last(size_t(a))).as_dynamic();
        case K::First: return (s | rpp::ops::first()).as_dynamic();
        case K::Last: return (s | rpp::ops::last()).as_dynamic();
        case K::ElementAt: return (s | rpp::ops::element_at(size_t(a))).as_dynamic();
        case K::Distinct: return (s | rpp::ops::distinct()).as_dynamic();
        case K::DistinctUC: return (s | rpp::ops::distinct_until_changed([=](const Val& l, const Val& r) { t.touch(); W->cb(id); return l.get() % a == r.get() % a; })).as_dynamic();
        default: abort();
        }
    }
} // namespace impl
