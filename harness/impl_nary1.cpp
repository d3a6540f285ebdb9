#include "impl.hpp"
namespace impl
{
    Obs build_nary1(const Node& n, World& w)
    {
        std::vector<Obs> c;
        for (auto& x : n.ch)
            c.push_back(build(*x, w));
        switch (n.k)
        {
        case K::Merge:
            if (n.b & 1)
                return (rpp::source::from_iterable(c, rpp::schedulers::immediate{}) | rpp::ops::merge()).as_dynamic();
            if (c.size() == 2)
                return (c[0] | rpp::ops::merge_with(c[1])).as_dynamic();
            return (c[0] | rpp::ops::merge_with(c[1], c[2])).as_dynamic();
        case K::ConcatSrc:
            if (c.size() == 2)
                return rpp::source::concat(c[0], c[1]).as_dynamic();
            return rpp::source::concat(c[0], c[1], c[2]).as_dynamic();
        case K::ConcatWith:
            if (n.b & 1)
                return (rpp::source::from_iterable(c, rpp::schedulers::immediate{}) | rpp::ops::concat()).as_dynamic();
            return rpp::source::concat(c).as_dynamic();
        case K::StartObs:
            if (c.size() == 2)
                return (c[0] | rpp::ops::start_with(c[1])).as_dynamic();
            return (c[0] | rpp::ops::start_with(c[1], c[2])).as_dynamic();
        case K::TakeUntil: return (c[0] | rpp::ops::take_until(c[1])).as_dynamic();
        default: abort();
        }
    }
} // namespace impl
