// Chains of two operators without type erasure between source, operators and
// subscriber: the statically selected disposable strategies are exercised here.
#pragma once
#include "impl.hpp"

namespace impl
{
    // order must match pl::fused_ops()
    template<int I>
    auto fop(int id, int p, const Obs& other, World* W)
    {
        Tok t;
        (void)id; (void)p; (void)other; (void)W;
        if constexpr (I == 0)
            return rpp::ops::map([=](const Val& v) { t.touch(); W->cb(id); return add_map(v, p); });
        else if constexpr (I == 1)
            return rpp::ops::take(size_t(p));
        else if constexpr (I == 2)
            return rpp::ops::scan(Val{p}, [=](Val&& s, const Val& v) { t.touch(); W->cb(id); return Val{f_acc(s.get(), v.get())}; });
        else if constexpr (I == 3)
            return rpp::ops::repeat(size_t(p));
        else if constexpr (I == 4)
            return [p](const auto& o) { return o | rpp::ops::window(size_t(p)) | rpp::ops::flat_map([p](const auto& g) { return inner_apply(g, p % 2); }); };
        else if constexpr (I == 5)
            return rpp::ops::merge_with(other);
        else if constexpr (I == 6)
            return rpp::ops::take_until(other);
        else
            return rpp::ops::finally([=]() noexcept { t.touch(); ++W->fin[id]; });
    }

    template<int I, int J>
    Obs fused_ij(const Node& n, World& w)
    {
        World*     W  = &w;
        const auto o  = build(*n.ch[1], w);
        const auto i1 = fop<I>(1000 + n.id * 2, n.vals[0], o, W);
        const auto i2 = fop<J>(1000 + n.id * 2 + 1, n.vals[1], o, W);
        const Node& src = *n.ch[0];
        return (rpp::source::create<Val>([W, a = size_t(src.a), t = Tok{}](auto&& ob) { t.touch(); W->attach(a, std::move(ob)); }) | i1 | i2).as_dynamic();
    }
    template<int I, int... J>
    Obs fused_i(const Node& n, World& w, std::integer_sequence<int, J...>)
    {
        using fn = Obs (*)(const Node&, World&);
        static constexpr fn t[] = {&fused_ij<I, J>...};
        return t[n.b](n, w);
    }
    template<int I>
    Obs fused_row(const Node& n, World& w)
    {
        return fused_i<I>(n, w, std::make_integer_sequence<int, 8>{});
    }
} // namespace impl
