#include "impl.hpp"
namespace impl
{
    Obs build_nary2(const Node& n, World& w)
    {
        World*           W  = &w;
        const int        id = n.id;
        Tok              t;
        std::vector<Obs> c;
        for (auto& x : n.ch)
            c.push_back(build(*x, w));
        auto z2 = [=](const Val& x, const Val& y) { t.touch(); W->cb(id); return Val{f_zip2(x.get(), y.get())}; };
        auto z3 = [=](const Val& x, const Val& y, const Val& z) { t.touch(); W->cb(id); return Val{f_zip3(x.get(), y.get(), z.get())}; };
        const std::vector<Obs> rest(c.begin() + 1, c.end());
        auto                   sel = [=](const Val& v) { t.touch(); W->cb(id); return rest[size_t(v.get() % int(rest.size()))]; };
        switch (n.k)
        {
        case K::Zip:
            if (c.size() == 2)
                return (c[0] | rpp::ops::zip(z2, c[1])).as_dynamic();
            return (c[0] | rpp::ops::zip(z3, c[1], c[2])).as_dynamic();
        case K::CombineLatest:
            if (c.size() == 2)
                return (c[0] | rpp::ops::combine_latest(z2, c[1])).as_dynamic();
            return (c[0] | rpp::ops::combine_latest(z3, c[1], c[2])).as_dynamic();
        case K::WithLatest:
            if (c.size() == 2)
                return (c[0] | rpp::ops::with_latest_from(z2, c[1])).as_dynamic();
            return (c[0] | rpp::ops::with_latest_from(z3, c[1], c[2])).as_dynamic();
        case K::FlatMap: return (c[0] | rpp::ops::flat_map(sel)).as_dynamic();
        case K::ConcatMap: return (c[0] | rpp::ops::map(sel) | rpp::ops::concat()).as_dynamic();
        case K::SwitchMap: return (c[0] | rpp::ops::map(sel) | rpp::ops::switch_on_next()).as_dynamic();
        default: abort();
        }
    }
} // namespace impl
