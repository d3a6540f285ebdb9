#include "impl.hpp"
namespace impl
{
    Obs build_flat(const Node& n, World& w)
    {
        World* W  = &w;
        auto   s  = build(*n.ch[0], w);
        const int a = n.a, b = n.b, id = n.id;
        Tok    t;
        std::vector<Obs> rest;
        for (size_t i = 1; i < n.ch.size(); ++i)
            rest.push_back(build(*n.ch[i], w));
        switch (n.k)
        {
        case K::WindowFlat:
        {
            const int mode = b / 3;
            auto      ws   = s | rpp::ops::window(size_t(a));
            if (b % 3 == 0)
                return (ws | rpp::ops::flat_map([mode](const auto& g) { return inner_apply(g, mode); })).as_dynamic();
            if (b % 3 == 1)
                return (ws | rpp::ops::map([mode](const auto& g) { return inner_apply(g, mode); }) | rpp::ops::concat()).as_dynamic();
            return (ws | rpp::ops::map([mode](const auto& g) { return inner_apply(g, mode); }) | rpp::ops::merge()).as_dynamic();
        }
        case K::GroupFlat:
            return (s | rpp::ops::group_by([=](const Val& v) { t.touch(); W->cb(id); return v.get() % a; })
                    | rpp::ops::flat_map([b](const auto& g) -> Obs {
                          const int key = g.get_key();
                          if (b == 5 && key != 0)
                              return rpp::source::empty<Val>().as_dynamic();
                          return (inner_apply(g, b == 5 ? 0 : b) | rpp::ops::map([key](const Val& v) { return Val{f_group(key, v.get())}; })).as_dynamic();
                      }))
                .as_dynamic();
        case K::Repeat: return (s | rpp::ops::repeat(size_t(a))).as_dynamic();
        case K::Retry: return (s | rpp::ops::retry(size_t(a))).as_dynamic();
        case K::RetryWhen:
            return (s | rpp::ops::retry_when([=](const std::exception_ptr& e) { t.touch(); W->cb(id); const int c = code_of(e); return rest[size_t((c < 0 ? -c : c) % int(rest.size()))]; })).as_dynamic();
        case K::Resume:
            return (s | rpp::ops::on_error_resume_next([=](const std::exception_ptr& e) { t.touch(); W->cb(id); const int c = code_of(e); return rest[size_t((c < 0 ? -c : c) % int(rest.size()))]; })).as_dynamic();
        case K::ToggleFlat:
        {
            auto op = rest[0];
            rest.erase(rest.begin());
            return (s | rpp::ops::window_toggle(op, [=](const Val& v) { t.touch(); W->cb(id); return rest[size_t(v.get() % int(rest.size()))]; })
                    | rpp::ops::flat_map([b](const auto& g) { return inner_apply(g, b); }))
                .as_dynamic();
        }
        default: abort();
        }
    }
} // namespace impl
