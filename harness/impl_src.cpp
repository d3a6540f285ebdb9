#include "impl.hpp"
namespace impl
{
    // an iterable that knows how far it was read and can fail at one element
    struct Counted
    {
        std::vector<Val> v{};
        World*           W{};
        int              id{};
        Tok              t{};

        struct It
        {
            using value_type        = Val;
            using difference_type   = std::ptrdiff_t;
            using pointer           = const Val*;
            using reference         = const Val&;
            using iterator_category = std::forward_iterator_tag;
            const Counted* c{};
            size_t         i{};
            const Val&     operator*() const
            {
                c->t.touch();
                if (c->id == c->W->throw_node && int(i) == c->W->throw_k - 1)
                    throw VErr{c->W->throw_code};
                int& p = c->W->pulled[c->id];
                p      = std::max(p, int(i) + 1);
                return c->v.at(i);
            }
            It& operator++()
            {
                ++i;
                return *this;
            }
            It operator++(int)
            {
                It r = *this;
                ++i;
                return r;
            }
            bool operator==(const It& o) const { return i == o.i; }
            bool operator!=(const It& o) const { return i != o.i; }
        };
        It begin() const { return {this, 0}; }
        It end() const { return {this, v.size()}; }
    };

    Obs build_src(const Node& n, World& w)
    {
        World* W = &w;
        switch (n.k)
        {
        case K::Probe:
            if (w.hot[size_t(n.a)].kind == 1 && (n.id & 1))
                return w.hot[size_t(n.a)].p.get_observable().as_dynamic();
            if (w.hot[size_t(n.a)].kind == 2 && (n.id & 1))
                return w.hot[size_t(n.a)].s.get_observable().as_dynamic();
            return rpp::source::create<Val>([W, a = size_t(n.a), t = Tok{}](auto&& o) { t.touch(); W->attach(a, std::move(o)); }).as_dynamic();
        case K::Iter:
        {
            std::vector<Val> v;
            for (int x : n.vals)
                v.emplace_back(x);
            if (n.b & 2)
            {
                Counted c{v, W, n.id};
                if (n.b & 1)
                    return rpp::source::from_iterable<rpp::memory_model::use_shared>(c, rpp::schedulers::immediate{}).as_dynamic();
                return rpp::source::from_iterable(std::move(c), rpp::schedulers::immediate{}).as_dynamic();
            }
            if (n.b & 1)
                return rpp::source::from_iterable<rpp::memory_model::use_shared>(v, rpp::schedulers::immediate{}).as_dynamic();
            return rpp::source::from_iterable(v, rpp::schedulers::immediate{}).as_dynamic();
        }
        case K::Just:
            if (n.vals.size() & 1)
                return rpp::source::just<rpp::memory_model::use_shared>(rpp::schedulers::immediate{}, Val{n.a}, Val{n.b}).as_dynamic();
            return rpp::source::just(rpp::schedulers::immediate{}, Val{n.a}, Val{n.b}).as_dynamic();
        case K::Empty: return rpp::source::empty<Val>().as_dynamic();
        case K::Never: return rpp::source::never<Val>().as_dynamic();
        case K::Error: return rpp::source::error<Val>(mkerr(n.a)).as_dynamic();
        case K::Sync:
            return rpp::source::create<Val>([vals = n.vals, a = n.a, b = n.b, t = Tok{}](auto&& o) {
                       t.touch();
                       bool lv = false;
                       for (int v : vals)
                       {
                           if (o.is_disposed())
                               return;
                           if ((lv = !lv))
                           {
                               const Val x{v};
                               o.on_next(x);
                               if (x.get() != v)
                                   vh::fail("lvalue-modified", "an item passed by const reference was modified");
                           }
                           else
                               o.on_next(Val{v});
                       }
                       if (b == 0)
                           o.on_completed();
                       else if (b == 1)
                           o.on_error(mkerr(a));
                   })
                .as_dynamic();
        case K::Callable:
            // from_callable runs on the current_thread trampoline, so inside an
            // operator that owns the trampoline it is deferred; there an equivalent
            // immediate form keeps the model exact
            if (!n.b)
                return (rpp::source::just(rpp::schedulers::immediate{}, 0) | rpp::ops::map([W, id = n.id, a = n.a, t = Tok{}](int) { t.touch(); W->cb(id); return Val{a}; })).as_dynamic();
            return rpp::source::from_callable([W, id = n.id, a = n.a, t = Tok{}]() { t.touch(); W->cb(id); return Val{a}; }).as_dynamic();
        case K::Defer:
            return rpp::source::defer([W, c = n.ch[0], t = Tok{}]() { t.touch(); return build(*c, *W); }).as_dynamic();
        default: abort();
        }
    }

    Obs build(const Node& n, World& w)
    {
        switch (n.k)
        {
        case K::Probe:
        case K::Iter:
        case K::Just:
        case K::Empty:
        case K::Never:
        case K::Error:
        case K::Sync:
        case K::Callable:
        case K::Defer: return build_src(n, w);
        case K::Map:
        case K::Filter:
        case K::Take:
        case K::Skip:
        case K::TakeLast:
        case K::TakeWhile:
        case K::First:
        case K::Last:
        case K::ElementAt:
        case K::Distinct:
        case K::DistinctUC: return build_unary1(n, w);
        case K::ScanSeed:
        case K::Scan:
        case K::ReduceSeed:
        case K::Reduce:
        case K::Buffer:
        case K::Tap:
        case K::StartVals:
        case K::Finally:
        case K::ObserveImm:
        case K::SubscribeImm: return build_unary2(n, w);
        case K::WindowFlat:
        case K::GroupFlat:
        case K::Repeat:
        case K::Retry:
        case K::RetryWhen:
        case K::Resume:
        case K::ToggleFlat: return build_flat(n, w);
        case K::Merge:
        case K::ConcatSrc:
        case K::ConcatWith:
        case K::StartObs:
        case K::TakeUntil: return build_nary1(n, w);
        case K::Zip:
        case K::CombineLatest:
        case K::WithLatest:
        case K::FlatMap:
        case K::ConcatMap:
        case K::SwitchMap: return build_nary2(n, w);
        case K::Fused:
            switch (n.a / 2)
            {
            case 0: return build_fused0(n, w);
            case 1: return build_fused1(n, w);
            case 2: return build_fused2(n, w);
            default: return build_fused3(n, w);
            }
        case K::Share:
        {
            auto it = w.shares.find(n.id);
            if (it == w.shares.end())
            {
                const Obs c = build(*n.ch[0], w);
                it          = w.shares.emplace(n.id, n.a == 1 ? (c | rpp::ops::multicast<rpp::subjects::replay_subject>() | rpp::ops::ref_count()).as_dynamic() : n.a == 2 ? (c | rpp::ops::multicast<rpp::subjects::serialized_publish_subject>() | rpp::ops::ref_count()).as_dynamic() : (c | rpp::ops::publish() | rpp::ops::ref_count()).as_dynamic()).first;
            }
            return it->second;
        }
        case K::COUNT: break;
        }
        abort();
    }
} // namespace impl
