// Random pipelines over scripted sources, checked step by step against the
// reference model.  Modes select what is generated and what is judged:
//   P01 grammar with misbehaving sources      P04 single-source operators
//   P05 combining operators                   P06 windows / groups
//   P07 dispose anywhere                      P08 release and leak accounting
//   P09 throwing callbacks                    P10 resubscription operators
//   P21 everything, hostile                   P23 several subscriptions
#include "impl.hpp"

using namespace pl;
using vh::Rng;

struct Profile
{
    std::string mode;
    std::vector<K> sources, unary, nary;
    int depth = 4;
    int share = 1; // how often (of 10) a node is shared by reference counting
    int nprobes = 3;
};

static const std::vector<K> SRC_ALL{K::Probe, K::Probe, K::Probe, K::Probe, K::Iter, K::Just, K::Empty, K::Never, K::Error, K::Sync, K::Sync, K::Callable, K::Defer};
static const std::vector<K> UN_BASIC{K::Map, K::Filter, K::Take, K::Skip, K::TakeLast, K::TakeWhile, K::First, K::Last, K::ElementAt, K::Distinct, K::DistinctUC, K::ScanSeed, K::Scan, K::ReduceSeed, K::Reduce, K::Buffer, K::Tap, K::StartVals, K::Finally, K::ObserveImm, K::SubscribeImm};
static const std::vector<K> UN_FLAT{K::WindowFlat, K::GroupFlat, K::ToggleFlat};
static const std::vector<K> UN_RES{K::Repeat, K::Retry, K::RetryWhen, K::Resume};
static const std::vector<K> NARY{K::Merge, K::ConcatSrc, K::ConcatWith, K::Zip, K::CombineLatest, K::WithLatest, K::TakeUntil, K::FlatMap, K::ConcatMap, K::SwitchMap, K::StartObs};

static std::vector<K> cat(std::initializer_list<std::vector<K>> l)
{
    std::vector<K> r;
    for (auto& v : l)
        r.insert(r.end(), v.begin(), v.end());
    return r;
}

struct Gen
{
    Rng&     r;
    Profile& p;
    int      id{1};
    int      budget{11};
    std::vector<NodeP> shares{};
    bool     big{false}; // long sequences and large counts
    std::vector<int> vals(int mx)
    {
        std::vector<int> v;
        for (int n = big ? r.below(120) : r.below(mx + 1); n > 0; --n)
            v.push_back(r.below(big ? 900 : 21));
        return v;
    }
    int cnt(int mx) { return big && r.chance(2, 3) ? r.below(90) : r.below(mx); }
    NodeP src()
    {
        auto n = std::make_shared<Node>();
        n->id  = id++;
        n->k   = p.sources[size_t(r.below(int(p.sources.size())))];
        switch (n->k)
        {
        case K::Probe: n->a = r.below(p.nprobes); break;
        case K::Iter:
            n->vals = vals(5);
            n->b    = r.below(4);
            break;
        case K::Just:
            n->a = r.below(21);
            n->b = r.below(21);
            n->vals = vals(1);
            break;
        case K::Error: n->a = 500 + r.below(5); break;
        case K::Sync:
            n->vals = vals(5);
            n->a    = 510 + r.below(5);
            n->b    = r.below(3);
            break;
        case K::Callable: n->a = r.below(21); break;
        case K::Defer: n->ch.push_back(node(0)); break;
        default: break;
        }
        return n;
    }
    NodeP node(int depth)
    {
        --budget;
        if (depth <= 0 || budget <= 0)
            return src();
        if (p.share && r.chance(p.share, 10))
        {
            if (!shares.empty() && r.chance(3, 4))
                return shares[size_t(r.below(int(shares.size())))];
            auto n = std::make_shared<Node>();
            n->id  = id++;
            n->k   = K::Share;
            n->a   = r.below(3);
            n->ch.push_back(node(depth - 1));
            shares.push_back(n);
            return n;
        }
        const bool useN = !p.nary.empty() && (p.unary.empty() || r.chance(int(p.mode == "P05" ? 3 : 2), 5));
        if (p.mode != "P04" && p.mode != "P06" && p.mode != "P10" && r.chance(1, 7))
        {
            auto n = std::make_shared<Node>();
            n->id  = id++;
            n->k   = K::Fused;
            n->a   = r.below(8);
            n->b   = r.below(8);
            n->vals = {r.range(0, 3), r.range(0, 3)};
            auto s = std::make_shared<Node>();
            s->id  = id++;
            s->k   = K::Probe;
            s->a   = r.below(p.nprobes);
            n->ch.push_back(s);
            n->ch.push_back(src());
            return n;
        }
        auto n = std::make_shared<Node>();
        n->id  = id++;
        if (!useN)
        {
            n->k = p.unary[size_t(r.below(int(p.unary.size())))];
            switch (n->k)
            {
            case K::Map:
                n->a = r.below(7);
                n->b = r.below(2);
                break;
            case K::Filter:
            case K::TakeWhile: n->a = r.below(4); break;
            case K::Take:
            case K::Skip:
            case K::TakeLast: n->a = r.chance(1, 20) ? 100 : cnt(5); break;
            case K::ElementAt: n->a = cnt(4); break;
            case K::DistinctUC: n->a = r.range(2, 20); break;
            case K::ScanSeed:
            case K::ReduceSeed: n->a = r.below(21); break;
            case K::Buffer: n->a = cnt(5); break;
            case K::StartVals:
                n->a = r.below(21);
                n->b = r.below(21);
                break;
            case K::WindowFlat:
                n->a = cnt(5);
                n->b = r.below(15);
                break;
            case K::GroupFlat:
                n->a = r.range(1, 4);
                n->b = r.below(6);
                break;
            case K::Repeat: n->a = big ? r.below(25) : r.below(4); break;
            case K::Retry: n->a = big ? r.below(25) : r.below(4); break;
            case K::ToggleFlat: n->b = r.below(5); break;
            default: break;
            }
            n->ch.push_back(node(depth - 1));
            if (n->k == K::RetryWhen || n->k == K::Resume)
                for (int i = r.range(1, 2); i > 0; --i)
                    n->ch.push_back(node(r.below(2)));
            if (n->k == K::ToggleFlat)
                for (int i = r.range(2, 3); i > 0; --i)
                    n->ch.push_back(src());
            return n;
        }
        n->k = p.nary[size_t(r.below(int(p.nary.size())))];
        n->ch.push_back(node(depth - 1));
        int extra = n->k == K::TakeUntil ? 1 : r.range(1, 2);
        n->b      = r.below(2);
        for (; extra > 0; --extra)
            n->ch.push_back(node(depth - 1 - r.below(2)));
        return n;
    }
};

// ------------------------------------------------------------------- case
struct Step
{
    enum T
    {
        Emit,
        Err,
        Done,
        Subscribe,
        Dispose
    } t;
    int  probe{};
    int  v{};
    bool lvalue{};
};
struct SubSpec
{
    int  dispose_in_cb{-1}; // dispose inside the j-th callback
    int  throw_in_cb{-1};   // item callback throws at j-th item
    bool by_value{false};
    bool predisposed{false};
    int  form{0}; // which of the subscribe overloads
};
// a hand-written observer strategy
struct Strategy
{
    std::function<void(const Val&)>                on;
    std::function<void(const std::exception_ptr&)> oe;
    std::function<void()>                          oc;
    void                                           set_upstream(const rpp::disposable_wrapper&) const noexcept {}
    bool                                           is_disposed() const noexcept { return false; }
    void                                           on_next(const Val& v) const { on(v); }
    void                                           on_error(const std::exception_ptr& e) const { oe(e); }
    void                                           on_completed() const { oc(); }
};
struct Case
{
    NodeP                root;
    std::vector<Step>    steps;
    std::vector<SubSpec> subs;
    int                  throw_node{-1}, throw_k{0};
    bool                 pushy{false}, rogue{false}, shared_obs{false};
    int                  last_words{0};
    std::vector<int>     hot; // per source: 0 scripted, 1 publish_subject, 2 serialized_publish_subject
};

static std::string str(const Case& c)
{
    std::string s = str(*c.root) + " steps:";
    for (auto& x : c.steps)
    {
        static const char* nm[] = {"n", "e", "c", "S", "D"};
        s += vh::fmt(" %s%d:%d", nm[x.t], x.probe, x.v);
    }
    for (auto& u : c.subs)
        s += vh::fmt(" sub{dcb=%d thr=%d pre=%d form=%d}", u.dispose_in_cb, u.throw_in_cb, u.predisposed, u.form);
    for (size_t q = 0; q < c.hot.size(); ++q)
        if (c.hot[q])
            s += vh::fmt(" subject(%zu,%d)", q, c.hot[q]);
    s += vh::fmt(" throw{node=%d k=%d} pushy=%d rogue=%d last_words=%d", c.throw_node, c.throw_k, c.pushy, c.rogue, c.last_words);
    return s;
}

static bool gMiss = false; // the model's and real run differ

struct MRun
{
    MWorld                                      w;
    std::vector<std::vector<Ev>>                logs;
    std::vector<MSinkP>                         tops;
    std::vector<std::vector<std::vector<Ev>>>   snap; // after each step
    std::vector<std::vector<int>>               livesnap;
    ~MRun()
    {
        // break possible ownership cycles of the closures
        for (auto& t : tops)
            t->sub->close();
        for (auto& p : w.probes)
            for (auto& r : p)
                r->sink.reset();
    }
};

static void mstate(MRun& m)
{
    m.snap.push_back(m.logs);
    std::vector<int> l;
    for (auto& p : m.w.probes)
    {
        int n = 0;
        for (auto& r : p)
            n += r->live;
        l.push_back(n);
    }
    m.livesnap.push_back(l);
}

// returns false if the case is too big
static bool run_model(const Case& c, MRun& m, int nprobes)
{
    m.w.probes.resize(size_t(nprobes));
    m.w.term.resize(size_t(nprobes));
    m.w.hot = c.hot;
    m.w.throw_node = c.throw_node;
    m.w.throw_k    = c.throw_k;
    m.logs.resize(c.subs.size());
    m.tops.resize(c.subs.size());
    for (size_t i = 0; i < c.subs.size(); ++i)
        m.tops[i] = std::make_shared<MSink>();
    try
    {
        for (auto& st : c.steps)
        {
            switch (st.t)
            {
            case Step::Subscribe:
            {
                const size_t i   = size_t(st.probe);
                auto         top = m.tops[i];
                auto*        log = &m.logs[i];
                const auto   sp  = c.subs[i];
                auto*        sub = top->sub.get();
                auto         cbk = [=] {
                    if (int(log->size()) == sp.dispose_in_cb + 1 && sp.dispose_in_cb >= 0)
                        sub->close();
                };
                auto cnt = std::make_shared<int>(0);
                top->n   = [=](int v) {
                    log->push_back({'n', v});
                    cbk();
                    if ((*cnt)++ == sp.throw_in_cb)
                        throw VErr{9001};
                };
                top->e = [=](int e) { log->push_back({'e', e}); cbk(); };
                top->c = [=] { log->push_back({'c', 0}); cbk(); };
                if (sp.predisposed)
                    top->sub->close();
                msub(*c.root, top, m.w);
                break;
            }
            case Step::Dispose: m.tops[size_t(st.probe)]->sub->close(); break;
            default:
            {
                auto recs = m.w.probes[size_t(st.probe)];
                if (m.w.hot[size_t(st.probe)])
                {
                    if (m.w.term[size_t(st.probe)])
                        break;
                    if (st.t != Step::Emit)
                        m.w.term[size_t(st.probe)] = Ev{st.t == Step::Err ? 'e' : 'c', st.v};
                }
                for (auto& r : recs)
                {
                    if (!r->live)
                        continue;
                    m.w.tick();
                    auto sink = r->sink;
                    if (st.t == Step::Emit)
                        sink->next(st.v);
                    else
                    {
                        if (st.t == Step::Err)
                            sink->error(st.v);
                        else
                            sink->complete();
                        r->live = false;
                    }
                }
            }
            }
            mstate(m);
        }
    }
    catch (Abort&)
    {
        return false;
    }
    return true;
}

struct Recorder
{
    std::vector<Ev>                     log{};
    SubSpec                             sp{};
    rpp::composite_disposable_wrapper   d = rpp::composite_disposable_wrapper::make();
    bool                                disposed{false};
    int                                 items{0};
    bool                                terminated{false};
    bool                                inside{false};
    impl::World*                        W{};
    std::string                         mode{};
    bool                                judge_release{true};

    void on(Ev e)
    {
        if (terminated)
            vh::fail("grammar", vh::fmt("callback '%c' %d after the terminal event", e.kind, e.v));
        if (disposed)
            vh::fail("after-dispose", vh::fmt("callback '%c' %d after dispose returned", e.kind, e.v));
        if (inside)
            vh::fail("overlap", "callback entered while another callback of the subscriber is running");
        if (e.kind != 'n')
            terminated = true;
        log.push_back(e);
        if (int(log.size()) == sp.dispose_in_cb + 1 && sp.dispose_in_cb >= 0)
            dispose();
    }
    // takes the handle a subscription returned; the subscription may be over by then
    void adopt(rpp::composite_disposable_wrapper h)
    {
        // (an observer that failed in its own callback ends on its own)
        if (terminated && sp.throw_in_cb < 0 && !h.is_disposed())
            vh::fail("handle-not-disposed", "the handle of a subscription that has ended is not disposed");
        d = std::move(h);
    }
    void dispose()
    {
        d.dispose();
        disposed = true;
        if (!d.is_disposed())
            vh::fail("dispose-ineffective", "is_disposed() is false after dispose()");
    }
};

static void run_impl(const Case& c, const MRun* m, const Profile& p)
{
    const long val0 = Val::live.load(), tok0 = Tok::live.load();
    {
        impl::World w;
        w.probes.resize(size_t(p.nprobes));
        w.hot.resize(size_t(p.nprobes));
        for (size_t q = 0; q < w.hot.size(); ++q)
            w.hot[q].kind = c.hot[q];
        for (auto& q : w.probes)
            q.last_words = c.last_words;
        w.throw_node = c.throw_node;
        w.throw_k    = c.throw_k;
        std::vector<std::unique_ptr<Recorder>> recs;
        for (auto& s : c.subs)
        {
            recs.push_back(std::make_unique<Recorder>());
            recs.back()->sp   = s;
            recs.back()->W    = &w;
            recs.back()->mode = p.mode;
        }
        std::optional<impl::Obs> root;
        root.emplace(impl::build(*c.root, w));
        std::function<void(const Node&)> prebuild = [&](const Node& x) {
            if (x.k == K::Share)
                impl::build(x, w);
            for (auto& ch : x.ch)
                prebuild(*ch);
        };
        prebuild(*c.root);
        const long tok1  = Tok::live.load();
        size_t     stepi = 0;
        for (auto& st : c.steps)
        {
            switch (st.t)
            {
            case Step::Subscribe:
            {
                auto* r = recs[size_t(st.probe)].get();
                if (r->sp.predisposed)
                    r->dispose();
                Tok  t;
                auto oe = [r, t](const std::exception_ptr& e) { t.touch(); r->on({'e', impl::code_of(e)}); };
                auto oc = [r, t]() { t.touch(); r->on({'c', 0}); };
                auto on = [r, t](const Val& v) {
                    t.touch();
                    const int x = v.get();
                    if (x == Val::MOVED)
                        vh::fail("moved-from", "subscriber received a moved-from item");
                    r->on({'n', x});
                    r->inside = true;
                    r->inside = false;
                    if (r->items++ == r->sp.throw_in_cb)
                        throw VErr{9001};
                };
                try
                {
                    impl::Obs copy = *root;
                    impl::Obs& o   = (st.probe & 1) ? copy : *root;
                    auto onv = [on](Val v) { Val mine = std::move(v); on(mine); };
                    switch (r->sp.form)
                    {
                    case 1: o.subscribe(r->d, rpp::make_lambda_observer<Val>(onv, oe, oc)); break;
                    case 2: o.subscribe(r->d, rpp::make_lambda_observer<Val>(on, oe, oc).as_dynamic()); break;
                    case 3: o.subscribe(rpp::make_lambda_observer<Val>(r->d, on, oe, oc)); break;
                    case 4: o | rpp::ops::subscribe(r->d, on, oe, oc); break;
                    case 5: o.subscribe(r->d, Strategy{on, oe, oc}); break;
                    case 6: r->adopt(o.subscribe_with_disposable(on, oe, oc)); break;
                    case 7: r->adopt(o.subscribe_with_disposable(rpp::make_lambda_observer<Val>(onv, oe, oc))); break;
                    case 8: r->adopt(o.subscribe_with_disposable(rpp::make_lambda_observer<Val>(on, oe, oc).as_dynamic())); break;
                    case 9: r->adopt(o.subscribe_with_disposable(Strategy{on, oe, oc})); break;
                    // no handle at all
                    case 10: o.subscribe(on, oe, oc); break;
                    case 11: o.subscribe(rpp::make_lambda_observer<Val>(on, oe, oc)); break;
                    case 12: o.subscribe(Strategy{on, oe, oc}); break;
                    case 13: o.subscribe(rpp::make_lambda_observer<Val>(on, oe, oc).as_dynamic()); break;
                    case 14: o | rpp::ops::subscribe(onv, oe, oc); break;
                    default:
                        if (r->sp.by_value)
                            o.subscribe(r->d, onv, oe, oc);
                        else
                            o.subscribe(r->d, on, oe, oc);
                    }
                }
                catch (const VErr& e)
                {
                    vh::fail("escaped", vh::fmt("exception %d escaped from subscribe", e.code));
                }
                break;
            }
            case Step::Dispose: recs[size_t(st.probe)]->dispose(); break;
            default:
            {
                if (w.hot[size_t(st.probe)].kind)
                {
                    auto push = [&](const auto& o) {
                        try
                        {
                            if (st.t == Step::Emit)
                            {
                                if (st.lvalue)
                                {
                                    const Val x{st.v};
                                    o.on_next(x);
                                    if (x.get() != st.v)
                                        vh::fail("lvalue-modified", "an item passed by const reference was modified");
                                }
                                else
                                    o.on_next(Val{st.v});
                            }
                            else if (st.t == Step::Err)
                                o.on_error(impl::mkerr(st.v));
                            else
                                o.on_completed();
                        }
                        catch (const VErr& e)
                        {
                            vh::fail("escaped", vh::fmt("exception %d escaped to the emitting source", e.code));
                        }
                    };
                    vh::count("events through shared subjects");
                    if (w.hot[size_t(st.probe)].kind == 1)
                        push(w.hot[size_t(st.probe)].p.get_observer());
                    else
                        push(w.hot[size_t(st.probe)].s.get_observer());
                    break;
                }
                auto snap = w.probes[size_t(st.probe)].recs;
                for (auto& r : snap)
                {
                    if (!r->obs)
                        continue;
                    if (!c.rogue)
                    {
                        if (r->f->terminated)
                            continue;
                        if (r->f->disposed && !c.pushy)
                            continue;
                    }
                    try
                    {
                        if (st.t == Step::Emit)
                        {
                            if (st.lvalue)
                            {
                                const Val x{st.v};
                                r->obs->on_next(x);
                                if (x.get() != st.v)
                                    vh::fail("lvalue-modified", "an item passed by const reference was modified");
                            }
                            else
                                r->obs->on_next(Val{st.v});
                        }
                        else
                        {
                            r->f->terminated = true;
                            if (st.t == Step::Err)
                                r->obs->on_error(impl::mkerr(st.v));
                            else
                                r->obs->on_completed();
                        }
                    }
                    catch (const VErr& e)
                    {
                        vh::fail("escaped", vh::fmt("exception %d escaped to the emitting source", e.code));
                    }
                }
                if (!c.rogue && !c.pushy)
                    for (auto& r : w.probes[size_t(st.probe)].recs)
                        if (!r->live())
                            r->obs.reset();
            }
            }
            vh::events(1);
            if (m)
            {
                for (size_t i = 0; i < recs.size(); ++i)
                    if (!(recs[i]->log == m->snap[stepi][i]))
                    {
                        vh::fail("model-mismatch", vh::fmt("step %zu sub %zu: expected [%s] observed [%s] in %s", stepi, i, pl::str(m->snap[stepi][i]).c_str(), pl::str(recs[i]->log).c_str(), str(c).c_str()));
                        gMiss = true;
                        goto out;
                    }
                for (size_t q = 0; q < w.probes.size(); ++q)
                {
                    if (c.hot[q])
                        continue;
                    int n = 0;
                    for (auto& r : w.probes[q].recs)
                        n += r->live();
                    if (n != m->livesnap[stepi][q])
                    {
                        vh::fail("upstream-liveness", vh::fmt("step %zu source %zu: %d live subscriptions expected, %d observed in %s", stepi, q, m->livesnap[stepi][q], n, str(c).c_str()));
                        gMiss = true;
                        goto out;
                    }
                }
            }
            ++stepi;
        }
    out:
        long ev = 0;
        for (auto& r : recs)
            ev += long(r->log.size());
        vh::events(ev);
        vh::count("subscriber events", ev);
        if (m && !gMiss)
        {
            for (auto& [id, l] : m->w.tap)
                if (w.tap[id] != l)
                    vh::fail("tap-mismatch", vh::fmt("side-effect operator %d saw %zu events, expected %zu in %s", id, w.tap[id].size(), l.size(), str(c).c_str()));
        }
        if (m && !gMiss)
            for (auto& [id, k] : w.pulled)
            {
                const auto it = m->w.pulled.find(id);
                const int  e  = it == m->w.pulled.end() ? 0 : it->second;
                if (k > e + 1)
                    vh::fail("read-on", vh::fmt("an iterable source was read %d elements deep although its subscriber was gone after %d, in %s", k, e, str(c).c_str()));
                vh::count("iterables watched");
            }
        // finish: dispose what is still subscribed and account for every resource
        std::vector<bool> was_live;
        for (auto& r : recs)
            if (!r->d.is_disposed())
            {
                r->dispose();
            }
            else
                r->disposed = true;
        if (!c.rogue)
            for (size_t q = 0; q < w.probes.size(); ++q)
                for (auto& r : w.probes[q].recs)
                {
                    if (!r->f->disposed && !r->f->terminated)
                        vh::fail("not-released", vh::fmt("source %zu still subscribed after every subscriber ended in %s", q, str(c).c_str()));
                }
        if (m && !gMiss)
        {
            // every finalizer of an ended subscription ran exactly once
            std::map<int, int> expect;
            MRun&              mm = const_cast<MRun&>(*m);
            for (auto& t : mm.tops)
                t->sub->close();
            for (auto& [id, n] : mm.w.fin)
                if (w.fin[id] != n && !mm.w.fin_unsure)
                    vh::fail("finalizer-count", vh::fmt("finalizer of node %d ran %d times, expected %d in %s", id, w.fin[id], n, str(c).c_str()));
        }
        for (auto& pr : w.probes)
            for (auto& r : pr.recs)
                r->obs.reset();
        // subjects are still alive here: nothing that ended may remain with them
        if (const long t = Tok::live.load() - tok1; t != 0)
            vh::fail("retained-after-end", vh::fmt("%ld user callbacks still held after every subscriber ended, sources alive, in %s", t, str(c).c_str()));
        root.reset();
        w.shares.clear();
        if (!c.rogue)
            for (size_t q = 0; q < w.probes.size(); ++q)
                for (auto& r : w.probes[q].recs)
                    if (r->f->dispose_count != 1)
                        vh::fail("dispose-count", vh::fmt("a subscription of source %zu was told %d times to release (expected 1) in %s", q, r->f->dispose_count, str(c).c_str()));
        if (m)
            vh::count("upstream subscriptions accounted", long([&] { size_t n = 0; for (auto& pr : w.probes) n += pr.recs.size(); return n; }()));
    }
    const long v1 = Val::live.load() - val0, t1 = Tok::live.load() - tok0;
    if (v1 != 0)
        vh::fail("item-leak", vh::fmt("%ld items not destroyed in %s", v1, str(c).c_str()));
    if (t1 != 0)
        vh::fail("callback-leak", vh::fmt("%ld user callbacks not destroyed in %s", t1, str(c).c_str()));
}

static std::vector<int> cb_nodes(const Node& n)
{
    std::vector<int> r;
    std::function<void(const Node&)> f = [&](const Node& x) {
        switch (x.k)
        {
        case K::Iter:
            if (x.b & 2)
                r.push_back(x.id);
            break;
        case K::Callable:
        case K::Map:
        case K::Filter:
        case K::TakeWhile:
        case K::DistinctUC:
        case K::ScanSeed:
        case K::Scan:
        case K::ReduceSeed:
        case K::Reduce:
        case K::Tap:
        case K::GroupFlat:
        case K::RetryWhen:
        case K::Resume:
        case K::ToggleFlat:
        case K::Zip:
        case K::CombineLatest:
        case K::WithLatest:
        case K::FlatMap:
        case K::ConcatMap:
        case K::SwitchMap: r.push_back(x.id); break;
        case K::Fused:
            for (int i = 0; i < 2; ++i)
            {
                const K kk = fused_ops()[size_t(i == 0 ? x.a : x.b)];
                if (kk == K::Map || kk == K::ScanSeed)
                    r.push_back(1000 + x.id * 2 + i);
            }
            break;
        default: break;
        }
        for (auto& c : x.ch)
            f(*c);
    };
    f(n);
    return r;
}

// marks from_callable sources whose ancestors never own the trampoline
static void unary_callable(Node& n)
{
    if (n.k == K::Callable)
        n.b = 1;
    if (n.k >= K::Map && n.k <= K::Reduce)
        for (auto& c : n.ch)
            unary_callable(*c);
}

// no operator that guards the subscriber with a lock: a source that talks back
// from inside its release must only be ignored
static bool only_unary(const Node& n)
{
    switch (n.k)
    {
    case K::WindowFlat:
    case K::GroupFlat:
    case K::ToggleFlat:
    case K::Fused:
    case K::Defer: return false;
    default: break;
    }
    if (n.k >= K::Merge && n.k < K::COUNT)
        return false;
    for (auto& c : n.ch)
        if (!only_unary(*c))
            return false;
    return true;
}

int main(int argc, char** argv)
{
    vh::parse(argc, argv);
    Profile p;
    p.mode    = vh::G().opt.mode;
    p.sources = SRC_ALL;
    p.unary   = cat({UN_BASIC, UN_FLAT, UN_RES});
    p.nary    = NARY;
    const std::string& M = p.mode;
    if (M == "P04")
    {
        p.unary   = UN_BASIC;
        p.nary    = {};
        p.sources = {K::Probe, K::Probe, K::Iter, K::Just, K::Sync, K::Callable, K::Empty, K::Error};
        p.nprobes = 1;
        p.depth   = 5;
    }
    else if (M == "P05")
    {
        p.unary = {K::Map, K::Take, K::Skip, K::StartVals};
        p.sources.push_back(K::Never);
        p.depth = 3;
    }
    else if (M == "P06")
    {
        p.unary = cat({UN_FLAT, UN_FLAT, UN_FLAT, {K::Map, K::Take, K::Buffer}});
        p.nary  = {};
        p.depth = 2;
    }
    else if (M == "P10")
    {
        p.unary   = cat({UN_RES, UN_RES, UN_RES, {K::Map, K::Take, K::Finally, K::ScanSeed, K::Tap}});
        p.nary    = {K::ConcatSrc, K::ConcatWith, K::Merge};
        p.sources = {K::Probe, K::Probe, K::Probe, K::Error, K::Sync, K::Sync, K::Sync, K::Just, K::Callable, K::Never};
        p.depth   = 3;
    }
    else if (M == "P13")
    {
        p.share = 4;
        p.depth = 5;
        p.unary = cat({UN_RES, {K::Map, K::Take, K::Skip, K::StartVals, K::Tap, K::Finally, K::First, K::ScanSeed, K::TakeWhile, K::WindowFlat}});
    }
    if (M == "P04" || M == "P06")
        p.share = 0;
    const int nkinds = int(K::COUNT);
    std::vector<long> seen(size_t(nkinds), 0);
    long nontrivial = 0, skipped = 0;
    const int rc = vh::run_deep(argc, argv, [&](Rng& r, long idx) {
        gMiss = false;
        Case c;
        Gen  g{r, p};
        g.big = r.chance(1, 30);
        c.root = g.node(r.range(1, p.depth));
        if (c.root->k == K::Probe && r.chance(3, 4))
            c.root = g.node(p.depth);
        unary_callable(*c.root);
        c.rogue = M == "P01" && r.chance(2, 3);
        if (c.rogue && r.chance(2, 3) && only_unary(*c.root))
            c.last_words = r.range(1, 7);
        c.pushy = !c.rogue && r.chance(1, 4);
        c.hot.resize(size_t(p.nprobes));
        if (r.chance(1, 2))
            for (auto& q : c.hot)
                q = r.chance(2, 3) ? r.range(1, 2) : 0;
        const int nsub = (M == "P23" || M == "P13") ? r.range(2, 4) : (M == "P21" || M == "P08") ? r.range(1, 2) : 1;
        for (int i = 0; i < nsub; ++i)
        {
            SubSpec s;
            s.by_value = r.chance(1, 3);
            if ((M == "P07" || M == "P21" || M == "P08" || M == "P13") && r.chance(1, 2))
                s.dispose_in_cb = r.below(6);
            if (M == "P07" && r.chance(1, 25))
                s.predisposed = true;
            if ((M == "P09" || M == "P21") && r.chance(1, 4))
                s.throw_in_cb = r.below(4);
            c.subs.push_back(s);
        }
        const int n = r.range(3, vh::G().opt.thorough ? 40 : 22);
        std::vector<int> order;
        c.steps.push_back({Step::Subscribe, 0});
        int nexts = 1;
        for (int i = 0; i < n; ++i)
        {
            if (nexts < nsub && r.chance(1, 4))
            {
                c.steps.push_back({Step::Subscribe, nexts++});
                continue;
            }
            if ((M == "P07" || M == "P08" || M == "P21" || M == "P23" || M == "P13") && r.chance(1, M == "P23" ? 20 : 14))
            {
                c.steps.push_back({Step::Dispose, r.below(nexts)});
                continue;
            }
            const int q = r.below(p.nprobes);
            const int k = r.below(100);
            const int pt = (M == "P10") ? 35 : 12;
            if (k < pt)
                c.steps.push_back({Step::Err, q, 600 + r.below(4)});
            else if (k < pt + ((M == "P10") ? 20 : 12))
                c.steps.push_back({Step::Done, q, 0});
            else
                c.steps.push_back({Step::Emit, q, r.below(21), r.chance(1, 2)});
        }
        if (M == "P09" || M == "P21")
        {
            auto ids = cb_nodes(*c.root);
            if (!ids.empty() && r.chance(4, 5))
            {
                c.throw_node = ids[size_t(r.below(int(ids.size())))];
                c.throw_k    = r.range(1, 4);
            }
        }
        std::set<K> ks;
        collect(*c.root, ks);
        uint64_t h = hashn(*c.root);
        for (auto& s : c.steps)
            h = vh::mix(h, uint64_t(s.t) * 1000 + uint64_t(s.probe) * 100 + uint64_t(s.v));
        if (vh::G().opt.verbose)
            fprintf(stderr, "case %ld: %s\n", idx, str(c).c_str());
        MRun m;
        if (g.big)
            m.w.limit = M == "P10" || M == "P21" ? 3000 : 6000; // (deep unwinding confuses the sanitizer)
        const bool ok = run_model(c, m, p.nprobes);
        if (!ok)
        {
            ++skipped;
            vh::count("skipped (too large for the bound)");
            return;
        }
        if (vh::G().opt.verbose)
            for (size_t i = 0; i < m.snap.size(); ++i)
                for (size_t j = 0; j < m.snap[i].size(); ++j)
                    fprintf(stderr, "  model step %zu sub %zu: %s\n", i, j, pl::str(m.snap[i][j]).c_str());
        for (size_t i = 0; i < c.subs.size(); ++i)
        {
            auto& s = c.subs[i];
            if (!r.chance(1, 2) || s.predisposed)
                continue;
            bool disposes = s.dispose_in_cb >= 0;
            for (auto& st : c.steps)
                disposes |= st.t == Step::Dispose && st.probe == int(i);
            // without a handle nothing can be released unless the stream ends
            const bool ends = !m.logs[i].empty() && m.logs[i].back().kind != 'n';
            s.form          = r.range(1, disposes ? (s.dispose_in_cb >= 0 ? 5 : 9) : ends ? 14 : 9);
            // a complete observer handed over keeps its own rules for its own
            // exceptions: not judged together with disposal from a callback
            if ((s.form == 1 || s.form == 2) && s.dispose_in_cb >= 0 && s.throw_in_cb >= 0)
                s.form = 5;
            vh::count(s.form >= 10 ? "subscriptions without a handle" : s.form >= 6 ? "subscriptions with a returned handle" : "subscriptions with own handle, other forms");
        }
        if (g.big)
            vh::count("long cases");
        size_t evs = 0;
        for (auto& l : m.logs)
            evs += l.size();
        if (evs >= 2)
        {
            ++nontrivial;
            vh::sig(h);
            for (K k : ks)
                ++seen[size_t(k)];
            vh::sample(str(c) + " => " + pl::str(m.logs[0]));
            if (m.w.thrown)
                vh::count("cases in which the injected exception fired");
        }
        run_impl(c, c.rogue ? nullptr : &m, p);
    });
    for (int i = 0; i < nkinds; ++i)
        if (seen[size_t(i)])
            vh::count(std::string("cases with ") + kname(K(i)), seen[size_t(i)]);
    vh::flush_out("ok");
    return rc;
}
