#include "impl.hpp"
namespace impl
{
    Obs build_unary2(const Node& n, World& w)
    {
        World* W  = &w;
        auto   s  = build(*n.ch[0], w);
        const int a = n.a, b = n.b, id = n.id;
        Tok    t;
        switch (n.k)
        {
        case K::ScanSeed: return (s | rpp::ops::scan(Val{a}, [=](Val&& acc, const Val& v) { t.touch(); W->cb(id); return Val{f_acc(acc.get(), v.get())}; })).as_dynamic();
        case K::Scan: return (s | rpp::ops::scan([=](Val&& acc, const Val& v) { t.touch(); W->cb(id); return Val{f_acc(acc.get(), v.get())}; })).as_dynamic();
        case K::ReduceSeed: return (s | rpp::ops::reduce(Val{a}, [=](Val&& acc, const Val& v) { t.touch(); W->cb(id); return Val{f_acc(acc.get(), v.get())}; })).as_dynamic();
        case K::Reduce: return (s | rpp::ops::reduce([=](Val&& acc, const Val& v) { t.touch(); W->cb(id); return Val{f_acc(acc.get(), v.get())}; })).as_dynamic();
        case K::Buffer:
            return (s | rpp::ops::buffer(size_t(a)) | rpp::ops::map([](const std::vector<Val>& v) {
                        std::vector<int> x;
                        for (auto& i : v)
                            x.push_back(i.get());
                        return Val{f_buf(x)};
                    }))
                .as_dynamic();
        case K::Tap:
            return (s | rpp::ops::tap([=](const Val& v) { t.touch(); W->cb(id); W->tap[id].push_back(v.get()); }, [=](const std::exception_ptr& e) { W->tap[id].push_back(100000 + code_of(e)); }, [=]() { W->tap[id].push_back(-100000); })).as_dynamic();
        case K::StartVals: return (s | rpp::ops::start_with_values(rpp::schedulers::immediate{}, Val{a}, Val{b})).as_dynamic();
        case K::Finally: return (s | rpp::ops::finally([=]() noexcept { t.touch(); ++W->fin[id]; })).as_dynamic();
        case K::ObserveImm: return (s | rpp::ops::observe_on(rpp::schedulers::immediate{})).as_dynamic();
        case K::SubscribeImm: return (s | rpp::ops::subscribe_on(rpp::schedulers::immediate{})).as_dynamic();
        default: abort();
        }
    }
} // namespace impl
