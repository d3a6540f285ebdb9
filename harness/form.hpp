// Chains with static types end to end, subscribed in every way the API offers, against
// the same chain with a type-erased observable between any two operators.
#pragma once
#include "vclock.hpp"
#include "vh.hpp"

#include <memory>
#include <rpp/rpp.hpp>

namespace fm
{
    struct Boom
    {
        int code;
    };

    struct Tok // who is still alive
    {
        std::shared_ptr<int> p;
    };

    struct Cfg // one case: parameters and script, the same for every form
    {
        int              n{0}, m{0}, k{0}; // operator parameters
        std::vector<int> pre;              // emitted by the source while it is subscribed
        int              pre_end{0};       // 0 nothing, 1 completes, 2 fails
        int              ups{0};           // upstream disposables of the probe source
        bool             late{false};      // registers them after the first items
        struct Ev
        {
            int what; // 0 item, 1 complete, 2 error, 3 dispose, 4 item of the other source, 5 other completes
            int v;
        };
        std::vector<Ev> script;
        int             dispose_in{0}, throw_in{0}; // at the n-th item, inside the callback
        int             boom_at{0};                 // the n-th call of an operator's function throws
    };

    struct World
    {
        const Cfg&                                        c;
        std::shared_ptr<int>                              tok = std::make_shared<int>(0);
        std::vector<rpp::dynamic_observer<int>>           probes{};
        rpp::subjects::publish_subject<int>               pub{}, other{};
        rpp::subjects::serialized_publish_subject<int>    ser{};
        rpp::subjects::behavior_subject<int>              beh{7};
        rpp::subjects::replay_subject<int>                rep{};
        std::string                                       log{};
        int                                               items{0}, calls{0};
        std::optional<rpp::composite_disposable_wrapper>  handle{};
        long                                              ev{0};
        void call()
        {
            if (++calls == c.boom_at)
                throw Boom{77};
        }
        void add(const std::string& s)
        {
            if (++ev > 4000)
                return;
            log += s;
        }
        void next(int v)
        {
            add(vh::fmt(" %d", v));
            ++items;
            if (items == c.dispose_in && handle)
                handle->dispose();
            if (items == c.throw_in)
                throw Boom{5};
        }
        void error(const std::exception_ptr& e)
        {
            try
            {
                std::rethrow_exception(e);
            }
            catch (const Boom& b)
            {
                add(vh::fmt(" #%d", b.code));
            }
            catch (const std::exception& x)
            {
                add(std::string(" #") + x.what());
            }
        }
        void done() { add(" |"); }
    };
    inline World*& W()
    {
        static World* w = nullptr;
        return w;
    }
    inline std::exception_ptr boom(int c) { return std::make_exception_ptr(Boom{c}); }
    inline Tok                tok() { return Tok{W()->tok}; }

    // ------------------------------------------------------------------ sources
    template<typename O>
    void play(O& o)
    {
        auto& c = W()->c;
        for (int v : c.pre)
            o.on_next(v);
        if (c.pre_end == 1)
            o.on_completed();
        else if (c.pre_end == 2)
            o.on_error(boom(1));
    }
    inline rpp::disposable_wrapper note(char ch)
    {
        return rpp::make_callback_disposable([w = W(), ch]() noexcept { w->add(std::string("~") + ch); });
    }
    // what is hot later is a type-erased observer, as any user-made source would keep it
    inline auto s_probe()
    {
        return rpp::source::create<int>([t = tok()](auto&& ob) {
            // whether a source whose subscriber is disposed already gets subscribed at all may differ
            if (ob.is_disposed())
                return;
            auto  o = std::forward<decltype(ob)>(ob).as_dynamic();
            auto& c = W()->c;
            W()->probes.push_back(o);
            if (!c.late)
                for (int i = 0; i < c.ups; ++i)
                    o.set_upstream(note(char('a' + i)));
            play(o);
            if (c.late)
                for (int i = 0; i < c.ups; ++i)
                    o.set_upstream(note(char('a' + i)));
        });
    }
    inline auto s_direct()
    {
        return rpp::source::create<int>([t = tok()](auto&& o) {
            if (o.is_disposed())
                return;
            auto& c = W()->c;
            for (int i = 0; i < c.ups; ++i)
                o.set_upstream(note(char('a' + i)));
            play(o);
        });
    }
    inline auto s_pub() { return W()->pub.get_observable(); }
    inline auto s_ser() { return W()->ser.get_observable(); }
    inline auto s_beh() { return W()->beh.get_observable(); }
    inline auto s_rep()
    {
        for (int v : W()->c.pre)
            W()->rep.get_observer().on_next(v);
        return W()->rep.get_observable();
    }
    inline auto s_just() { return rpp::source::just(rpp::schedulers::immediate{}, 1, 2, W()->c.n, W()->c.m); }
    inline auto s_just_ct() { return rpp::source::just(1, 2, W()->c.n, W()->c.m); }
    inline auto s_iter() { return rpp::source::from_iterable(W()->c.pre, rpp::schedulers::immediate{}); }
    inline auto s_iter_ct() { return rpp::source::from_iterable(W()->c.pre); }
    inline auto s_empty() { return rpp::source::empty<int>(); }
    inline auto s_never() { return rpp::source::never<int>(); }
    inline auto s_error() { return rpp::source::error<int>(boom(2)); }
    inline auto s_call() { return rpp::source::from_callable([t = tok()] { W()->call(); return 7; }); }
    inline auto s_defer()
    {
        return rpp::source::defer([t = tok()] { return s_probe(); });
    }
    inline auto s_concat() { return rpp::source::concat(s_iter(), s_iter()); }
    inline auto s_concat2() { return rpp::source::concat(s_probe(), s_probe()); }
    inline auto s_refc() { return W()->pub.get_observable() | rpp::ops::publish() | rpp::ops::ref_count(); }
    inline auto s_dyn() { return s_probe().as_dynamic(); }

    // ---------------------------------------------------------------- operators
    // clang-format off
    inline auto other() { return W()->other.get_observable(); }
    inline auto o_map() { return rpp::ops::map([t = tok()](int v) { W()->call(); return v + 1; }); }
    inline auto o_filter() { return rpp::ops::filter([t = tok()](int v) { W()->call(); return v % 3 != 2; }); }
    inline auto o_take() { return rpp::ops::take(size_t(W()->c.n)); }
    inline auto o_skip() { return rpp::ops::skip(size_t(W()->c.m)); }
    inline auto o_take_last() { return rpp::ops::take_last(size_t(W()->c.n)); }
    inline auto o_take_while() { return rpp::ops::take_while([t = tok()](int v) { W()->call(); return v < 6; }); }
    inline auto o_first() { return rpp::ops::first(); }
    inline auto o_last() { return rpp::ops::last(); }
    inline auto o_element_at() { return rpp::ops::element_at(size_t(W()->c.m)); }
    inline auto o_distinct() { return rpp::ops::distinct(); }
    inline auto o_duc() { return rpp::ops::distinct_until_changed(); }
    inline auto o_scan() { return rpp::ops::scan(0, [t = tok()](int a, int v) { W()->call(); return (a + v) % 50; }); }
    inline auto o_scan1() { return rpp::ops::scan([t = tok()](int a, int v) { W()->call(); return (a + v) % 50; }); }
    inline auto o_reduce() { return rpp::ops::reduce(0, [t = tok()](int a, int v) { W()->call(); return (a + v) % 50; }); }
    inline auto o_buffer() { return [n = W()->c.n](const auto& o) { return o | rpp::ops::buffer(size_t(n)) | rpp::ops::map([](const std::vector<int>& v) { return int(v.size()); }); }; }
    inline auto o_tap() { return rpp::ops::tap([t = tok()](int) { W()->call(); }); }
    inline auto o_finally() { return rpp::ops::finally([t = tok()]() noexcept { W()->add(" f"); }); }
    inline auto o_start_with() { return rpp::ops::start_with(5); }
    inline auto o_start_src() { return rpp::ops::start_with(s_iter()); }
    inline auto o_observe() { return rpp::ops::observe_on(rpp::schedulers::immediate{}); }
    inline auto o_observe_ct() { return rpp::ops::observe_on(rpp::schedulers::current_thread{}); }
    inline auto o_delay() { return rpp::ops::delay(std::chrono::milliseconds{1}, rpp::schedulers::current_thread{}); }
    inline auto o_subscribe() { return rpp::ops::subscribe_on(rpp::schedulers::immediate{}); }
    inline auto o_subscribe_ct() { return rpp::ops::subscribe_on(rpp::schedulers::current_thread{}); }
    inline auto o_debounce() { return rpp::ops::debounce(std::chrono::milliseconds{1}, rpp::schedulers::current_thread{}); }
    inline auto o_throttle() { return rpp::ops::throttle<rpp::schedulers::immediate>(std::chrono::milliseconds{1}); }
    inline auto o_repeat() { return rpp::ops::repeat(size_t(2)); }
    inline auto o_retry() { return rpp::ops::retry(size_t(W()->c.k)); }
    inline auto o_retry_when() { return rpp::ops::retry_when([t = tok()](const std::exception_ptr&) { W()->call(); return W()->other.get_observable(); }); }
    inline auto o_resume() { return rpp::ops::on_error_resume_next([t = tok()](const std::exception_ptr&) { W()->call(); return s_iter(); }); }
    inline auto o_window() { return [n = W()->c.n](const auto& o) { return o | rpp::ops::window(size_t(n)) | rpp::ops::merge(); }; }
    inline auto o_window_c() { return [n = W()->c.n](const auto& o) { return o | rpp::ops::window(size_t(n)) | rpp::ops::concat(); }; }
    inline auto o_window_s() { return [n = W()->c.n](const auto& o) { return o | rpp::ops::window(size_t(n)) | rpp::ops::switch_on_next(); }; }
    inline auto o_group() { return [t = tok()](const auto& o) { return o | rpp::ops::group_by([t](int v) { W()->call(); return v % 2; }) | rpp::ops::merge(); }; }
    inline auto o_toggle() { return [t = tok()](const auto& o) { return o | rpp::ops::window_toggle(other(), [t](int) { return rpp::source::never<int>(); }) | rpp::ops::merge(); }; }
    inline auto o_merge_with() { return rpp::ops::merge_with(other()); }
    inline auto o_flat_map() { return rpp::ops::flat_map([t = tok()](int v) { W()->call(); return rpp::source::just(rpp::schedulers::immediate{}, v, v + 10); }); }
    inline auto o_flat_hot() { return rpp::ops::flat_map([t = tok()](int) { W()->call(); return W()->other.get_observable(); }); }
    inline auto o_concat_map() { return [t = tok()](const auto& o) { return o | rpp::ops::map([t](int v) { W()->call(); return rpp::source::just(rpp::schedulers::immediate{}, v, v + 10); }) | rpp::ops::concat(); }; }
    inline auto o_concat_hot() { return [t = tok()](const auto& o) { return o | rpp::ops::map([t](int) { W()->call(); return W()->other.get_observable(); }) | rpp::ops::concat(); }; }
    inline auto o_switch_hot() { return [t = tok()](const auto& o) { return o | rpp::ops::map([t](int) { W()->call(); return W()->other.get_observable(); }) | rpp::ops::switch_on_next(); }; }
    inline auto o_zip() { return rpp::ops::zip([t = tok()](int a, int b) { W()->call(); return a + b; }, other()); }
    inline auto o_combine() { return rpp::ops::combine_latest([t = tok()](int a, int b) { W()->call(); return a + b; }, other()); }
    inline auto o_wlf() { return rpp::ops::with_latest_from([t = tok()](int a, int b) { W()->call(); return a + b; }, other()); }
    inline auto o_take_until() { return rpp::ops::take_until(other()); }
    inline auto o_share() { return [](const auto& o) { return o | rpp::ops::publish() | rpp::ops::ref_count(); }; }
    inline auto o_share_rep() { return [](const auto& o) { return o | rpp::ops::multicast(rpp::subjects::replay_subject<int>{}) | rpp::ops::ref_count(); }; }
    inline auto o_as_dyn() { return [](const auto& o) { return o.as_dynamic(); }; }
    // clang-format on

    // --------------------------------------------------------------------- forms
    struct Strat // a user's own observer strategy
    {
        World* w;
        Tok    t;
        void   on_next(int v) const { w->next(v); }
        void   on_error(const std::exception_ptr& e) const { w->error(e); }
        void   on_completed() const { w->done(); }
        void   set_upstream(const rpp::disposable_wrapper&) const {}
        bool   is_disposed() const { return false; }
    };
    struct Fns
    {
        World* w = W();
        Tok    t = tok();
        auto   n() const { return [w = w, t = t](int v) { w->next(v); }; }
        auto   e() const { return [w = w, t = t](const std::exception_ptr& x) { w->error(x); }; }
        auto   c() const { return [w = w, t = t] { w->done(); }; }
        auto   lam() const { return rpp::make_lambda_observer<int>(n(), e(), c()); }
    };
    inline auto own()
    {
        auto d      = rpp::composite_disposable_wrapper::make();
        W()->handle = d;
        return d;
    }

    using Fn = void (*)();
    struct Form
    {
        const char* name;
        Fn          fn;
        bool        handle; // disposing is possible (in callbacks too: early)
        bool        early;
    };
    struct Chain
    {
        const char*       name;
        std::vector<Form> forms; // the first is the reference
    };

    template<auto Src, auto... Ops>
    auto st()
    {
        return (Src() | ... | Ops());
    }
    template<auto Op>
    struct Step
    {
    };
    template<typename O, auto Op>
    auto operator>>(const O& o, Step<Op>)
    {
        return (o | Op()).as_dynamic();
    }
    template<auto Src, auto... Ops>
    auto dy()
    {
        return (Src().as_dynamic() >> ... >> Step<Ops>{});
    }

    template<bool Full, auto Src, auto... Ops>
    Chain chain(const char* name)
    {
        Chain c{name, {}};
        c.forms.push_back({"type-erased", [] { Fns f; auto o = dy<Src, Ops...>(); o.subscribe(own(), f.n(), f.e(), f.c()); }, true, true});
        c.forms.push_back({"handle+lambdas", [] { Fns f; st<Src, Ops...>().subscribe(own(), f.n(), f.e(), f.c()); }, true, true});
        c.forms.push_back({"strategy", [] { st<Src, Ops...>().subscribe(Strat{W(), tok()}); }, false, false});
        c.forms.push_back({"dynamic observer", [] { Fns f; st<Src, Ops...>().subscribe(f.lam().as_dynamic()); }, false, false});
        c.forms.push_back({"handle+dynamic observer", [] { Fns f; st<Src, Ops...>().subscribe(own(), f.lam().as_dynamic()); }, true, true});
        if constexpr (Full)
        {
            c.forms.push_back({"lambdas", [] { Fns f; st<Src, Ops...>().subscribe(f.n(), f.e(), f.c()); }, false, false});
            c.forms.push_back({"returned handle", [] { Fns f; W()->handle = st<Src, Ops...>().subscribe_with_disposable(f.n(), f.e(), f.c()); }, true, false});
            c.forms.push_back({"observer", [] { Fns f; st<Src, Ops...>().subscribe(f.lam()); }, false, false});
            c.forms.push_back({"handle+observer", [] { Fns f; st<Src, Ops...>().subscribe(own(), f.lam()); }, true, true});
            c.forms.push_back({"returned handle, observer", [] { Fns f; W()->handle = st<Src, Ops...>().subscribe_with_disposable(f.lam()); }, true, false});
            c.forms.push_back({"returned handle, dynamic observer", [] { Fns f; W()->handle = st<Src, Ops...>().subscribe_with_disposable(f.lam().as_dynamic()); }, true, false});
            c.forms.push_back({"returned handle, strategy", [] { W()->handle = st<Src, Ops...>().subscribe_with_disposable(Strat{W(), tok()}); }, true, false});
            c.forms.push_back({"handle+strategy", [] { st<Src, Ops...>().subscribe(own(), Strat{W(), tok()}); }, true, true});
            c.forms.push_back({"operator subscribe, lambdas", [] { Fns f; st<Src, Ops...>() | rpp::ops::subscribe(f.n(), f.e(), f.c()); }, false, false});
            c.forms.push_back({"operator subscribe, handle", [] { Fns f; st<Src, Ops...>() | rpp::ops::subscribe(own(), f.n(), f.e(), f.c()); }, true, true});
            c.forms.push_back({"operator subscribe, observer", [] { Fns f; st<Src, Ops...>() | rpp::ops::subscribe(f.lam()); }, false, false});
            c.forms.push_back({"operator subscribe_with_disposable", [] { Fns f; W()->handle = st<Src, Ops...>() | rpp::ops::subscribe_with_disposable(f.n(), f.e(), f.c()); }, true, false});
            c.forms.push_back({"lvalue observable", [] { Fns f; auto o = st<Src, Ops...>(); const auto o2 = o; o2.subscribe(own(), f.n(), f.e(), f.c()); }, true, true});
            c.forms.push_back({"type-erased at the end", [] { Fns f; auto o = st<Src, Ops...>().as_dynamic(); auto o2 = o; o2.subscribe(own(), f.n(), f.e(), f.c()); }, true, true});
        }
        return c;
    }
} // namespace fm
