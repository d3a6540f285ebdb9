// Builds real pipelines out of the abstract syntax of pipe.hpp.
#pragma once
#include "pipe.hpp"

#include <rpp/rpp.hpp>

namespace impl
{
    using namespace pl;
    using Obs = rpp::dynamic_observable<Val>;

    struct Flags
    {
        bool disposed{false};
        int  dispose_count{0};
        bool terminated{false};
    };
    struct Rec
    {
        std::shared_ptr<Flags>                      f = std::make_shared<Flags>();
        std::optional<rpp::dynamic_observer<Val>>   obs{};
        bool live() const { return !f->disposed && !f->terminated; }
    };
    struct World;
    struct Probe
    {
        std::vector<std::shared_ptr<Rec>> recs{};
        int                               last_words{0}; // what a misbehaving source does while it is being disposed
        void                              add(auto&& o)
        {
            auto r = std::make_shared<Rec>();
            recs.push_back(r);
            o.set_upstream(rpp::disposable_wrapper{rpp::make_callback_disposable([f = r->f, w = std::weak_ptr<Rec>{r}, lw = last_words, t = Tok{}]() noexcept {
                f->disposed = true;
                ++f->dispose_count;
                t.touch();
                if (!lw)
                    return;
                if (const auto rec = w.lock(); rec && rec->obs)
                {
                    vh::count("emissions from inside a release callback");
                    if (lw & 1)
                        rec->obs->on_next(Val{77});
                    if (lw & 2)
                        rec->obs->on_error(std::make_exception_ptr(VErr{9100}));
                    if (lw & 4)
                        rec->obs->on_completed();
                }
            })});
            r->obs.emplace(std::forward<decltype(o)>(o).as_dynamic());
        }
    };
    // sources that are real subjects
    struct Hot
    {
        int                                           kind{0};
        rpp::subjects::publish_subject<Val>            p{};
        rpp::subjects::serialized_publish_subject<Val> s{};
    };
    struct World : CbWorld
    {
        std::map<int, rpp::dynamic_observable<Val>> shares{};
        std::vector<Probe> probes{};
        std::vector<Hot>   hot{};
        std::map<int, int> subs{};
        template<typename O>
        void attach(size_t q, O&& o)
        {
            if (hot[q].kind == 1)
                hot[q].p.get_observable().subscribe(std::forward<O>(o));
            else if (hot[q].kind == 2)
                hot[q].s.get_observable().subscribe(std::forward<O>(o));
            else
                probes[q].add(std::forward<O>(o));
        }
    };

    inline int code_of(const std::exception_ptr& e)
    {
        try
        {
            std::rethrow_exception(e);
        }
        catch (const VErr& x)
        {
            return x.code;
        }
        catch (const rpp::utils::not_enough_emissions&)
        {
            return -1;
        }
        catch (const rpp::utils::out_of_range&)
        {
            return -2;
        }
        catch (const rpp::utils::timeout_reached&)
        {
            return -3;
        }
        catch (...)
        {
            return -99;
        }
    }

    inline std::exception_ptr mkerr(int code) { return std::make_exception_ptr(VErr{code}); }

    Obs build(const Node& n, World& w);
    Obs build_src(const Node& n, World& w);
    Obs build_unary1(const Node& n, World& w);
    Obs build_unary2(const Node& n, World& w);
    Obs build_flat(const Node& n, World& w);
    Obs build_nary1(const Node& n, World& w);
    Obs build_nary2(const Node& n, World& w);
    Obs build_fused0(const Node& n, World& w);
    Obs build_fused1(const Node& n, World& w);
    Obs build_fused2(const Node& n, World& w);
    Obs build_fused3(const Node& n, World& w);

    inline Val add_map(const Val& v, int a) { return Val{f_map(v.get(), a)}; }

    template<typename Inner>
    Obs inner_apply(const Inner& g, int mode)
    {
        switch (mode)
        {
        case 1: return (g | rpp::ops::reduce(Val{0}, [](Val&& s, const Val& v) { return Val{f_acc(s.get(), v.get())}; })).as_dynamic();
        case 2: return (g | rpp::ops::take(1)).as_dynamic();
        case 3: return (g | rpp::ops::scan(Val{0}, [](Val&& s, const Val& v) { return Val{f_acc(s.get(), v.get())}; }) | rpp::ops::skip(1)).as_dynamic();
        case 4: return (g | rpp::ops::take(2)).as_dynamic();
        default: return g.as_dynamic();
        }
    }
} // namespace impl
