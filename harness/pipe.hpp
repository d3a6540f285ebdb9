// Random pipelines: abstract syntax, generator and the reference model.
// The model is an independent, deliberately naive single-threaded
// implementation of the documented operator semantics over plain ints.
#pragma once
#include "val.hpp"

#include <deque>
#include <map>
#include <memory>
#include <optional>
#include <set>
#include <string>
#include <vector>

namespace pl
{
    enum class K
    {
        // sources
        Probe,   // hot scripted source a
        Iter,    // from_iterable(vals) on the immediate scheduler
        Just,    // just(a, b) on the immediate scheduler
        Empty,
        Never,
        Error,   // error(code a)
        Sync,    // create: emits vals synchronously, then b: 0 completes, 1 fails(code a), 2 stays silent
        Callable, // from_callable(a) ; callback may throw
        Defer,   // defer(child)
        // unary
        Map,
        Filter,
        Take,
        Skip,
        TakeLast,
        TakeWhile,
        First,
        Last,
        ElementAt,
        Distinct,
        DistinctUC,
        ScanSeed,
        Scan,
        ReduceSeed,
        Reduce,
        Buffer,
        Tap,
        StartVals,
        Finally,
        ObserveImm,
        SubscribeImm,
        WindowFlat,
        GroupFlat,
        Repeat,
        Retry,
        RetryWhen,
        Resume,
        // n-ary
        Merge,
        ConcatSrc,
        Zip,
        CombineLatest,
        WithLatest,
        TakeUntil,
        FlatMap,
        ConcatMap,
        SwitchMap,
        StartObs,
        ToggleFlat,
        ConcatWith, // source::concat given as a container
        Fused,      // statically typed chain number a, without type erasure inside
        Share,      // child | publish | ref_count, one instance however often it is used; a = 1: replay subject
        COUNT
    };
    inline const char* kname(K k)
    {
        static const char* n[] = {"probe", "iter", "just", "empty", "never", "error", "sync", "callable", "defer", "map", "filter", "take", "skip", "take_last", "take_while", "first", "last", "element_at", "distinct", "distinct_until_changed", "scan_seed", "scan", "reduce_seed", "reduce", "buffer", "tap", "start_with_values", "finally", "observe_on", "subscribe_on", "window", "group_by", "repeat", "retry", "retry_when", "on_error_resume_next", "merge_with", "source_concat", "zip", "combine_latest", "with_latest_from", "take_until", "flat_map", "concat", "switch_on_next", "start_with", "window_toggle", "concat_container", "fused", "share"};
        return n[int(k)];
    }
    struct Node;
    using NodeP = std::shared_ptr<Node>;
    struct Node
    {
        K                  k;
        int                id{};
        int                a{}, b{};
        std::vector<int>   vals{};
        std::vector<NodeP> ch{};
    };
    inline std::string str(const Node& n)
    {
        std::string s = kname(n.k);
        s += "#" + std::to_string(n.id) + "(" + std::to_string(n.a) + "," + std::to_string(n.b);
        if (!n.vals.empty())
        {
            s += ",[";
            for (int v : n.vals)
                s += std::to_string(v) + " ";
            s += "]";
        }
        for (auto& c : n.ch)
            s += "," + str(*c);
        return s + ")";
    }
    inline uint64_t hashn(const Node& n)
    {
        uint64_t h = vh::mix(uint64_t(n.k), uint64_t(n.a * 131 + n.b));
        for (int v : n.vals)
            h = vh::mix(h, uint64_t(v + 1));
        for (auto& c : n.ch)
            h = vh::mix(h, hashn(*c));
        return h;
    }
    inline void collect(const Node& n, std::set<K>& s)
    {
        s.insert(n.k);
        for (auto& c : n.ch)
            collect(*c, s);
    }

    // ---- functions shared by the model and the real pipelines
    inline int f_map(int v, int a) { return (v * 3 + a) % 1009; }
    inline bool f_filter(int v, int a) { return v % (a + 2) != 0; }
    inline bool f_while(int v, int a) { return v % (a + 3) != a; }
    inline int f_acc(int s, int v) { return (s * 5 + v + 1) % 10007; }
    inline int f_zip2(int x, int y) { return (x * 31 + y * 7 + 1) % 10007; }
    inline int f_zip3(int x, int y, int z) { return (x * 31 + y * 7 + z * 3 + 2) % 10007; }
    inline int f_buf(const std::vector<int>& v)
    {
        int r = int(v.size()) * 1000003 % 10007;
        for (int x : v)
            r = (r * 11 + x) % 10007;
        return r;
    }
    inline int f_group(int key, int v) { return key * 2000 + v % 2000; }

    struct Ev
    {
        char kind; // n e c
        int  v;
        bool operator==(const Ev& o) const { return kind == o.kind && v == o.v; }
    };
    inline std::string str(const std::vector<Ev>& l)
    {
        std::string s;
        for (auto& e : l)
            s += e.kind == 'c' ? std::string("| ") : (e.kind == 'e' ? "#" + std::to_string(e.v) : std::to_string(e.v)) + " ";
        return s;
    }

    // counts calls of user callbacks per node and injects the scheduled throw
    struct CbWorld
    {
        std::map<int, int>              calls{};
        int                             throw_node{-1}, throw_k{0}, throw_code{9000};
        std::map<int, std::vector<int>> tap{};
        std::map<int, int>              fin{};
        std::map<int, int>              pulled{}; // elements taken from an iterable
        bool                            thrown{false};
        void                            cb(int id)
        {
            const int c = ++calls[id];
            if (id == throw_node && c == throw_k)
            {
                thrown = true;
                throw VErr{throw_code};
            }
        }
    };

    struct Abort
    {
    };

    // ------------------------------------------------------------------ model
    struct MSub
    {
        bool                               closed{false};
        std::vector<std::function<void()>> td{};
        void                               close()
        {
            if (closed)
                return;
            closed = true;
            auto t = std::move(td);
            td.clear();
            for (auto& f : t)
                f();
        }
        void add(std::function<void()> f)
        {
            if (closed)
                f();
            else
                td.push_back(std::move(f));
        }
    };
    using MSubP = std::shared_ptr<MSub>;

    struct MSink
    {
        MSubP                      sub = std::make_shared<MSub>();
        std::function<void(int)>   n{};
        std::function<void(int)>   e{};
        std::function<void()>      c{};
        void                       next(int v)
        {
            if (sub->closed)
                return;
            try
            {
                n(v);
            }
            catch (VErr& x)
            {
                error(x.code);
            }
        }
        void error(int code)
        {
            if (sub->closed)
                return;
            e(code);
            sub->close();
        }
        void complete()
        {
            if (sub->closed)
                return;
            c();
            sub->close();
        }
    };
    using MSinkP = std::shared_ptr<MSink>;

    struct MProbeRec
    {
        MSinkP sink;
        bool   live{true};
    };
    struct MShare
    {
        struct Gen
        {
            int   refs{0};
            MSubP sub = std::make_shared<MSub>();
        };
        std::shared_ptr<Gen>                    gen{};
        std::vector<std::shared_ptr<MProbeRec>> recs{};
        std::vector<int>                        cache{};
        std::optional<Ev>                       term{};
        void                                    end(Ev e)
        {
            if (term)
                return;
            term   = e;
            auto q = std::move(recs);
            recs.clear();
            for (auto& r : q)
                if (r->live)
                {
                    r->live = false;
                    if (e.kind == 'c')
                        r->sink->complete();
                    else
                        r->sink->error(e.v);
                }
        }
    };
    struct MWorld : CbWorld
    {
        std::map<int, std::shared_ptr<MShare>> share{};
        std::vector<std::vector<std::shared_ptr<MProbeRec>>> probes;
        std::vector<int>                                     hot{};  // 0: scripted source, else a subject
        std::vector<std::optional<Ev>>                       term{}; // how the subject ended
        long                                                 steps{0};
        long                                                 limit{3000};
        std::map<int, int>                                   subs{}; // subscriptions per node
        std::vector<NodeP>                                   keep{};
        bool                                                 fin_unsure{false};
        void                                                 tick()
        {
            if (++steps > limit)
                throw Abort{};
        }
    };

    inline MSinkP mk(const MSinkP& down)
    {
        auto up = std::make_shared<MSink>();
        std::weak_ptr<MSub> ws = up->sub;
        // keep the child alive as long as the parent may close it
        down->sub->add([s = up->sub] { s->close(); });
        up->e = [down](int c) { down->error(c); };
        up->c = [down] { down->complete(); };
        up->n = [down](int v) { down->next(v); };
        return up;
    }

    inline void msub(const Node& n, const MSinkP& s, MWorld& w);

    // concat, repeat, retry and retry_when continue only after the subscribe call during which the previous source has
    // finished has returned (a shared source can still serve its other subscribers first)
    struct MConcat : std::enable_shared_from_this<MConcat>
    {
        std::vector<const Node*> q;
        size_t                   i{0};
        MSinkP                   down;
        MWorld*                  w;
        bool                     inside{false};
        void                     next()
        {
            for (;;)
            {
                w->tick();
                if (down->sub->closed)
                    return;
                if (i >= q.size())
                {
                    down->complete();
                    return;
                }
                const Node* n    = q[i++];
                auto        up   = mk(down);
                auto        self = shared_from_this();
                MSubP       us   = up->sub;
                up->c            = [self, us] {
                    us->close();
                    if (!std::exchange(self->inside, false))
                        self->next();
                };
                inside = true;
                msub(*n, up, *w);
                if (std::exchange(inside, false))
                    return;
            }
        }
    };

    struct MRetry : std::enable_shared_from_this<MRetry>
    {
        const Node* src;
        int         left;
        MSinkP      down;
        MWorld*     w;
        bool        inside{false};
        void        next()
        {
            for (;;)
            {
                w->tick();
                if (down->sub->closed)
                    return;
                auto  up   = mk(down);
                auto  self = shared_from_this();
                MSubP us   = up->sub;
                up->e      = [self, us](int code) {
                    if (self->left == 0)
                    {
                        self->down->error(code);
                        return;
                    }
                    --self->left;
                    us->close();
                    if (!std::exchange(self->inside, false))
                        self->next();
                };
                inside = true;
                msub(*src, up, *w);
                if (std::exchange(inside, false))
                    return;
            }
        }
    };

    struct MRetryWhen : std::enable_shared_from_this<MRetryWhen>
    {
        const Node* nd;
        MSinkP      down;
        MWorld*     w;
        bool        inside{false};
        void        next()
        {
            do
            {
                w->tick();
                if (down->sub->closed)
                    return;
                inside = true;
                subscribe();
            } while (!std::exchange(inside, false));
        }
        void subscribe()
        {
            auto  up   = mk(down);
            auto  self = shared_from_this();
            MSubP us   = up->sub;
            up->e      = [self, us](int code) {
                us->close();
                try
                {
                    self->w->cb(self->nd->id);
                }
                catch (VErr& x)
                {
                    self->down->error(x.code);
                    return;
                }
                const Node& nn = *self->nd->ch[1 + size_t((code < 0 ? -code : code) % int(self->nd->ch.size() - 1))];
                auto        ns = mk(self->down);
                MSubP       nsub = ns->sub;
                ns->n            = [self, nsub](int) {
                    nsub->close();
                    if (!std::exchange(self->inside, false))
                        self->next();
                };
                msub(nn, ns, *self->w);
            };
            msub(*nd->ch[0], up, *w);
        }
    };

    struct MFlat : std::enable_shared_from_this<MFlat>
    {
        MSinkP               down;
        MWorld*              w;
        int                  active{1};
        std::deque<const Node*> queue; // concat
        bool                 busy{false}, outer_done{false};
        MSubP                last;
        void                 done1()
        {
            if (--active == 0)
                down->complete();
        }
        void merge_inner(const Node& n)
        {
            w->tick();
            ++active;
            if (down->sub->closed)
                return;
            auto up   = mk(down);
            auto self = shared_from_this();
            up->c     = [self] { self->done1(); };
            msub(n, up, *w);
        }
        void concat_inner(const Node* n)
        {
            w->tick();
            if (busy)
            {
                queue.push_back(n);
                return;
            }
            busy = true;
            run(n);
        }
        bool inside{false};
        void run(const Node* n)
        {
            while (n)
            {
                if (down->sub->closed)
                    return;
                auto  up   = mk(down);
                auto  self = shared_from_this();
                MSubP us   = up->sub;
                up->c      = [self, us] {
                    us->close();
                    if (!std::exchange(self->inside, false))
                        self->run(self->following());
                };
                inside = true;
                msub(*n, up, *w);
                n = std::exchange(inside, false) ? nullptr : following();
            }
        }
        const Node* following()
        {
            if (queue.empty())
            {
                busy = false;
                if (outer_done)
                    down->complete();
                return nullptr;
            }
            auto* x = queue.front();
            queue.pop_front();
            return x;
        }
        void switch_inner(const Node& n)
        {
            w->tick();
            if (last)
                last->close();
            if (down->sub->closed)
                return;
            auto up   = mk(down);
            auto self = shared_from_this();
            last      = up->sub;
            busy      = true;
            MSubP us  = up->sub;
            up->c     = [self, us] {
                us->close();
                if (self->last == us)
                {
                    self->busy = false;
                    if (self->outer_done)
                        self->down->complete();
                }
            };
            msub(n, up, *w);
        }
    };

    // inner pipelines applied to windows and groups
    //   0 identity, 1 reduce(sum), 2 take(1), 3 running scan, 4 take(2)
    struct MInner
    {
        int  mode;
        int  acc{0};
        int  cnt{0};
        bool open{true};
        // returns values to emit
        std::vector<int> item(int v)
        {
            if (!open)
                return {};
            switch (mode)
            {
            case 1: acc = f_acc(acc, v); return {};
            case 2: open = false; return {v};
            case 3: acc = f_acc(acc, v); return {acc};
            case 4:
                if (++cnt == 2)
                    open = false;
                return {v};
            default: return {v};
            }
        }
        std::vector<int> done()
        {
            if (!open)
                return {};
            open = false;
            if (mode == 1)
                return {acc};
            return {};
        }
    };

    // unary operators available in statically typed (fused) chains
    inline const std::vector<K>& fused_ops()
    {
        static const std::vector<K> v{K::Map, K::Take, K::ScanSeed, K::Repeat, K::WindowFlat, K::Merge, K::TakeUntil, K::Finally};
        return v;
    }
    // Fused(a = index of inner op, b = index of outer op, vals = {p_inner, p_outer}, ch = {source, other})
    inline NodeP expand_fused(const Node& n)
    {
        NodeP cur = n.ch[0];
        for (int i = 0; i < 2; ++i)
        {
            auto x = std::make_shared<Node>();
            x->k   = fused_ops()[size_t(i == 0 ? n.a : n.b)];
            x->id  = 1000 + n.id * 2 + i;
            x->a   = n.vals[size_t(i)];
            x->b   = x->k == K::WindowFlat ? 3 * (n.vals[size_t(i)] % 2) : 0;
            if (x->k == K::Merge || x->k == K::TakeUntil)
                x->ch = {cur, n.ch[1]};
            else
                x->ch = {cur};
            cur = x;
        }
        return cur;
    }

    inline void msub(const Node& nd, const MSinkP& s, MWorld& w)
    {
        if (s->sub->closed)
        {
            // whether an already ended subscriber still reaches the finalizers below
            // is not specified; they are then not counted
            std::set<K> ks;
            collect(nd, ks);
            if (ks.count(K::Finally) || ks.count(K::Fused))
                w.fin_unsure = true;
            return;
        }
        w.tick();
        ++w.subs[nd.id];
        const Node* n = &nd;
        MWorld*     W = &w;
        switch (nd.k)
        {
        case K::Probe:
        {
            if (w.term[size_t(nd.a)])
            {
                w.tick();
                if (w.term[size_t(nd.a)]->kind == 'c')
                    s->complete();
                else
                    s->error(w.term[size_t(nd.a)]->v);
                return;
            }
            auto r  = std::make_shared<MProbeRec>();
            r->sink = s;
            w.probes[size_t(nd.a)].push_back(r);
            std::weak_ptr<MProbeRec> wr = r;
            s->sub->add([wr] { if (auto p = wr.lock()) p->live = false; });
            return;
        }
        case K::Share:
        {
            auto& st = w.share[nd.id];
            if (!st)
                st = std::make_shared<MShare>();
            auto       sh    = st;
            const bool first = !sh->gen || sh->gen->sub->closed;
            if (first)
                sh->gen = std::make_shared<MShare::Gen>();
            auto g = sh->gen;
            ++g->refs;
            s->sub->add([g] {
                if (--g->refs == 0)
                    g->sub->close();
            });
            if (nd.a == 1)
                for (const int v : std::vector<int>(sh->cache))
                    s->next(v);
            if (sh->term)
            {
                if (sh->term->kind == 'c')
                    s->complete();
                else
                    s->error(sh->term->v);
                return;
            }
            if (!s->sub->closed)
            {
                auto r  = std::make_shared<MProbeRec>();
                r->sink = s;
                sh->recs.push_back(r);
                std::weak_ptr<MProbeRec> wr = r;
                s->sub->add([wr, sh] {
                    if (auto p = wr.lock())
                    {
                        p->live = false;
                        std::erase(sh->recs, p);
                    }
                });
            }
            if (first && !g->sub->closed)
            {
                auto up = std::make_shared<MSink>();
                g->sub->add([q = up->sub] { q->close(); });
                up->n = [sh, W, a = nd.a](int v) {
                    if (sh->term)
                        return;
                    if (a == 1)
                        sh->cache.push_back(v);
                    for (auto& r : std::vector<std::shared_ptr<MProbeRec>>(sh->recs))
                        if (r->live)
                        {
                            W->tick();
                            r->sink->next(v);
                        }
                };
                up->e = [sh, g](int c) {
                    sh->end({'e', c});
                    g->sub->close();
                };
                up->c = [sh, g] {
                    sh->end({'c', 0});
                    g->sub->close();
                };
                msub(*nd.ch[0], up, w);
            }
            return;
        }
        case K::Iter:
            for (size_t i = 0; i < nd.vals.size(); ++i)
            {
                if (s->sub->closed)
                    return;
                if ((nd.b & 2) && nd.id == w.throw_node && int(i) == w.throw_k - 1)
                {
                    w.thrown = true;
                    s->error(w.throw_code);
                    return;
                }
                int& p = w.pulled[nd.id];
                p      = std::max(p, int(i) + 1);
                s->next(nd.vals[i]);
            }
            s->complete();
            return;
        case K::Just:
            s->next(nd.a);
            s->next(nd.b);
            s->complete();
            return;
        case K::Empty: s->complete(); return;
        case K::Never: return;
        case K::Error: s->error(nd.a); return;
        case K::Sync:
            for (int v : nd.vals)
                s->next(v);
            if (nd.b == 0)
                s->complete();
            else if (nd.b == 1)
                s->error(nd.a);
            return;
        case K::Callable:
            try
            {
                w.cb(nd.id);
            }
            catch (VErr& x)
            {
                s->error(x.code);
                return;
            }
            s->next(nd.a);
            s->complete();
            return;
        case K::Defer: msub(*nd.ch[0], s, w); return;
        case K::Map:
        {
            auto u = mk(s);
            u->n   = [=](int v) { W->tick(); W->cb(n->id); s->next(f_map(v, n->a)); };
            msub(*nd.ch[0], u, w);
            return;
        }
        case K::Filter:
        {
            auto u = mk(s);
            u->n   = [=](int v) { W->tick(); W->cb(n->id); if (f_filter(v, n->a)) s->next(v); };
            msub(*nd.ch[0], u, w);
            return;
        }
        case K::TakeWhile:
        {
            auto u = mk(s);
            u->n   = [=](int v) { W->tick(); W->cb(n->id); if (f_while(v, n->a)) s->next(v); else s->complete(); };
            msub(*nd.ch[0], u, w);
            return;
        }
        case K::Take:
        {
            auto u    = mk(s);
            auto left = std::make_shared<int>(nd.a);
            u->n      = [=](int v) {
                if (*left > 0)
                {
                    --*left;
                    s->next(v);
                }
                if (*left == 0)
                    s->complete();
            };
            msub(*nd.ch[0], u, w);
            return;
        }
        case K::Skip:
        {
            auto u    = mk(s);
            auto left = std::make_shared<int>(nd.a);
            u->n      = [=](int v) { if (*left > 0) --*left; else s->next(v); };
            msub(*nd.ch[0], u, w);
            return;
        }
        case K::TakeLast:
        {
            auto u = mk(s);
            auto q = std::make_shared<std::deque<int>>();
            u->n   = [=](int v) { q->push_back(v); if (int(q->size()) > n->a) q->pop_front(); };
            u->c   = [=] { for (int v : *q) s->next(v); s->complete(); };
            msub(*nd.ch[0], u, w);
            return;
        }
        case K::First:
        {
            auto u = mk(s);
            u->n   = [=](int v) { s->next(v); s->complete(); };
            u->c   = [=] { s->error(-1); };
            msub(*nd.ch[0], u, w);
            return;
        }
        case K::Last:
        {
            auto u = mk(s);
            auto l = std::make_shared<std::optional<int>>();
            u->n   = [=](int v) { *l = v; };
            u->c   = [=] { if (*l) { s->next(**l); s->complete(); } else s->error(-1); };
            msub(*nd.ch[0], u, w);
            return;
        }
        case K::ElementAt:
        {
            auto u = mk(s);
            auto i = std::make_shared<int>(0);
            u->n   = [=](int v) { if ((*i)++ == n->a) { s->next(v); s->complete(); } };
            u->c   = [=] { s->error(-2); };
            msub(*nd.ch[0], u, w);
            return;
        }
        case K::Distinct:
        {
            auto u = mk(s);
            auto q = std::make_shared<std::set<int>>();
            u->n   = [=](int v) { if (q->insert(v).second) s->next(v); };
            msub(*nd.ch[0], u, w);
            return;
        }
        case K::DistinctUC:
        {
            auto u = mk(s);
            auto l = std::make_shared<std::optional<int>>();
            u->n   = [=](int v) {
                if (*l)
                {
                    W->cb(n->id);
                    if (**l % n->a == v % n->a)
                        return;
                }
                *l = v;
                s->next(v);
            };
            msub(*nd.ch[0], u, w);
            return;
        }
        case K::ScanSeed:
        {
            auto acc = std::make_shared<int>(nd.a);
            s->next(*acc);
            auto u = mk(s);
            u->n   = [=](int v) { W->tick(); W->cb(n->id); *acc = f_acc(*acc, v); s->next(*acc); };
            msub(*nd.ch[0], u, w);
            return;
        }
        case K::Scan:
        {
            auto u   = mk(s);
            auto acc = std::make_shared<std::optional<int>>();
            u->n     = [=](int v) {
                if (*acc)
                {
                    W->cb(n->id);
                    *acc = f_acc(**acc, v);
                }
                else
                    *acc = v;
                s->next(**acc);
            };
            msub(*nd.ch[0], u, w);
            return;
        }
        case K::ReduceSeed:
        {
            auto u   = mk(s);
            auto acc = std::make_shared<int>(nd.a);
            u->n     = [=](int v) { W->cb(n->id); *acc = f_acc(*acc, v); };
            u->c     = [=] { s->next(*acc); s->complete(); };
            msub(*nd.ch[0], u, w);
            return;
        }
        case K::Reduce:
        {
            auto u   = mk(s);
            auto acc = std::make_shared<std::optional<int>>();
            u->n     = [=](int v) {
                if (*acc)
                {
                    W->cb(n->id);
                    *acc = f_acc(**acc, v);
                }
                else
                    *acc = v;
            };
            u->c = [=] { if (*acc) s->next(**acc); s->complete(); };
            msub(*nd.ch[0], u, w);
            return;
        }
        case K::Buffer:
        {
            auto u = mk(s);
            auto q = std::make_shared<std::vector<int>>();
            const int sz = std::max(1, nd.a);
            u->n         = [=](int v) {
                q->push_back(v);
                if (int(q->size()) == sz)
                {
                    auto x = *q;
                    q->clear();
                    s->next(f_buf(x));
                }
            };
            u->c = [=] { if (!q->empty()) s->next(f_buf(*q)); s->complete(); };
            msub(*nd.ch[0], u, w);
            return;
        }
        case K::Tap:
        {
            auto u = mk(s);
            u->n   = [=](int v) { W->cb(n->id); W->tap[n->id].push_back(v); s->next(v); };
            u->e   = [=](int c) { W->tap[n->id].push_back(100000 + c); s->error(c); };
            u->c   = [=] { W->tap[n->id].push_back(-100000); s->complete(); };
            msub(*nd.ch[0], u, w);
            return;
        }
        case K::Finally:
        {
            s->sub->add([=] { ++W->fin[n->id]; });
            msub(*nd.ch[0], s, w);
            return;
        }
        case K::ObserveImm:
        case K::SubscribeImm: msub(*nd.ch[0], s, w); return;
        case K::StartVals:
        {
            // a,b prepended
            auto u = mk(s);
            u->n   = [=](int v) { s->next(v); };
            s->next(nd.a);
            s->next(nd.b);
            msub(*nd.ch[0], u, w);
            return;
        }
        case K::WindowFlat:
        {
            auto      u   = mk(s);
            auto      cur = std::make_shared<std::optional<MInner>>();
            auto      cnt = std::make_shared<int>(0);
            const int sz  = std::max(1, nd.a);
            const int mode = nd.b / 3;
            auto      fin  = [=] {
                if (*cur)
                {
                    for (int x : (*cur)->done())
                        s->next(x);
                    cur->reset();
                }
            };
            u->n = [=](int v) {
                W->tick();
                if (!*cur)
                {
                    *cur = MInner{mode};
                    *cnt = 0;
                }
                for (int x : (*cur)->item(v))
                    s->next(x);
                if (++*cnt == sz)
                    fin();
            };
            u->c = [=] { fin(); s->complete(); };
            msub(*nd.ch[0], u, w);
            return;
        }
        case K::GroupFlat:
        {
            auto u  = mk(s);
            auto gs = std::make_shared<std::map<int, MInner>>();
            auto order = std::make_shared<std::vector<int>>();
            u->n    = [=](int v) {
                W->tick();
                W->cb(n->id); // key selector
                const int key = v % n->a;
                if (!gs->count(key))
                    gs->emplace(key, MInner{n->b == 5 ? (key == 0 ? 0 : 2) : n->b, 0, 0, !(n->b == 5 && key != 0)});
                for (int x : gs->at(key).item(v))
                    s->next(f_group(key, x));
            };
            // groups complete in key order
            u->c = [=] { for (auto& [k, g] : *gs) for (int x : g.done()) s->next(f_group(k, x)); s->complete(); };
            msub(*nd.ch[0], u, w);
            return;
        }
        case K::Repeat:
        {
            auto c  = std::make_shared<MConcat>();
            c->down = s;
            c->w    = W;
            for (int i = 0; i < nd.a; ++i)
                c->q.push_back(nd.ch[0].get());
            c->next();
            return;
        }
        case K::ConcatSrc:
        case K::ConcatWith:
        {
            auto c  = std::make_shared<MConcat>();
            c->down = s;
            c->w    = W;
            for (auto& x : nd.ch)
                c->q.push_back(x.get());
            c->next();
            return;
        }
        case K::StartObs: // children[1..] first, then children[0]
        {
            auto c  = std::make_shared<MConcat>();
            c->down = s;
            c->w    = W;
            for (size_t i = 1; i < nd.ch.size(); ++i)
                c->q.push_back(nd.ch[i].get());
            c->q.push_back(nd.ch[0].get());
            c->next();
            return;
        }
        case K::Retry:
        {
            auto r  = std::make_shared<MRetry>();
            r->src  = nd.ch[0].get();
            r->left = nd.a;
            r->down = s;
            r->w    = W;
            r->next();
            return;
        }
        case K::RetryWhen:
        {
            auto r  = std::make_shared<MRetryWhen>();
            r->nd   = n;
            r->down = s;
            r->w    = W;
            r->next();
            return;
        }
        case K::Resume:
        {
            auto  u  = mk(s);
            MSubP us = u->sub;
            u->e     = [=](int code) {
                us->close();
                try
                {
                    W->cb(n->id);
                }
                catch (VErr& x)
                {
                    s->error(x.code);
                    return;
                }
                auto u2 = mk(s);
                msub(*n->ch[1 + size_t((code < 0 ? -code : code) % int(n->ch.size() - 1))], u2, *W);
            };
            msub(*nd.ch[0], u, w);
            return;
        }
        case K::Merge:
        {
            auto f  = std::make_shared<MFlat>();
            f->down = s;
            f->w    = W;
            for (auto& c : nd.ch)
                f->merge_inner(*c);
            f->done1();
            return;
        }
        case K::FlatMap:
        case K::ConcatMap:
        case K::SwitchMap:
        {
            auto f  = std::make_shared<MFlat>();
            f->down = s;
            f->w    = W;
            auto u  = mk(s);
            const K kk = nd.k;
            u->n       = [=](int v) {
                W->cb(n->id);
                const Node& c = *n->ch[1 + size_t(v % int(n->ch.size() - 1))];
                if (kk == K::FlatMap)
                    f->merge_inner(c);
                else if (kk == K::ConcatMap)
                    f->concat_inner(&c);
                else
                    f->switch_inner(c);
            };
            MSubP us = u->sub;
            u->c     = [=] {
                us->close();
                if (kk == K::FlatMap)
                    f->done1();
                else
                {
                    f->outer_done = true;
                    if (!f->busy)
                        s->complete();
                }
            };
            msub(*nd.ch[0], u, w);
            return;
        }
        case K::Zip:
        case K::CombineLatest:
        case K::WithLatest:
        {
            struct St
            {
                std::vector<std::deque<int>>     q;
                std::vector<std::optional<int>>  l;
                int                              left;
            };
            const size_t m  = nd.ch.size();
            auto         st = std::make_shared<St>();
            st->q.resize(m);
            st->l.resize(m);
            st->left   = int(m);
            const K kk = nd.k;
            auto    comb = [=](const std::vector<int>& v) {
                W->cb(n->id);
                return v.size() == 2 ? f_zip2(v[0], v[1]) : f_zip3(v[0], v[1], v[2]);
            };
            auto mk1 = [=](size_t i) {
                auto  u  = mk(s);
                MSubP us = u->sub;
                u->n     = [=](int v) {
                    W->tick();
                    if (kk == K::Zip)
                    {
                        st->q[i].push_back(v);
                        for (auto& d : st->q)
                            if (d.empty())
                                return;
                        std::vector<int> x;
                        for (auto& d : st->q)
                            x.push_back(d.front());
                        const int r = comb(x);
                        for (auto& d : st->q)
                            d.pop_front();
                        s->next(r);
                    }
                    else
                    {
                        st->l[i] = v;
                        if (kk == K::WithLatest && i != 0)
                            return;
                        std::vector<int> x;
                        for (auto& d : st->l)
                        {
                            if (!d)
                                return;
                            x.push_back(*d);
                        }
                        s->next(comb(x));
                    }
                };
                u->c = [=] {
                    us->close();
                    if (kk == K::WithLatest)
                    {
                        if (i == 0)
                            s->complete();
                    }
                    else if (--st->left == 0)
                        s->complete();
                };
                return u;
            };
            for (size_t i = 1; i < m; ++i)
                msub(*nd.ch[i], mk1(i), w);
            msub(*nd.ch[0], mk1(0), w);
            return;
        }
        case K::TakeUntil:
        {
            auto t = mk(s);
            t->n   = [=](int) { s->complete(); };
            msub(*nd.ch[1], t, w);
            auto u = mk(s);
            msub(*nd.ch[0], u, w);
            return;
        }
        case K::ToggleFlat:
        {
            struct Wd
            {
                MInner in;
                bool   open{true};
            };
            struct St
            {
                std::vector<std::shared_ptr<Wd>> ws;
                int                              active{1};
            };
            auto st = std::make_shared<St>();
            const int mode = nd.b;
            auto close = [=](const std::shared_ptr<Wd>& x) {
                if (!x->open)
                    return;
                x->open = false;
                for (int v : x->in.done())
                    s->next(v);
            };
            auto op = mk(s);
            op->n   = [=](int v) {
                W->tick();
                auto x = std::make_shared<Wd>(Wd{MInner{mode}});
                st->ws.push_back(x);
                W->cb(n->id); // closing selector
                auto  cl  = mk(s);
                MSubP cls = cl->sub;
                cl->n     = [=](int) { cls->close(); close(x); };
                cl->c     = [=] { cls->close(); close(x); };
                msub(*n->ch[2 + size_t(v % int(n->ch.size() - 2))], cl, *W);
            };
            MSubP ops = op->sub;
            op->c     = [=] { ops->close(); };
            msub(*nd.ch[1], op, w);
            auto u = mk(s);
            u->n   = [=](int v) {
                W->tick();
                auto ws = st->ws;
                for (auto& x : ws)
                    if (x->open)
                        for (int r : x->in.item(v))
                            s->next(r);
            };
            u->c = [=] {
                auto ws = st->ws;
                for (auto& x : ws)
                    close(x);
                s->complete();
            };
            msub(*nd.ch[0], u, w);
            return;
        }
        case K::Fused:
        {
            // a statically typed chain: the model runs its expansion
            auto x = expand_fused(nd);
            w.keep.push_back(x);
            msub(*x, s, w);
            return;
        }
        case K::COUNT: return;
        }
    }
} // namespace pl
