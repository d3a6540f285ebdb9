// Single-source operators over many item types, long sequences and extreme
// parameters, against list functions.
#pragma once
#include "vh.hpp"
#include <array>
#include <deque>
#include <forward_list>
#include <list>
#include <memory>
#include <optional>
#include <rpp/rpp.hpp>
#include <set>
#include <string>
#include <unordered_set>

namespace typed
{
    struct Rec
    {
        std::string a;
        int         b{};
        bool        operator==(const Rec&) const = default;
    };
    struct RecHash
    {
        size_t operator()(const Rec& r) const { return std::hash<std::string>{}(r.a) * 31 + size_t(r.b); }
    };

    template<typename T>
    struct Make;
    template<>
    struct Make<bool>
    {
        static bool make(int v) { return v % 2; }
        static int  num(bool v) { return v; }
    };
    template<>
    struct Make<std::string>
    {
        static std::string make(int v) { return (v % 3 == 0 ? std::string(40, 'x') : std::string("s")) + std::to_string(v); }
        static int         num(const std::string& v) { return v.size() < 2 ? -1 : atoi(v.c_str() + v.find_first_of("0123456789")); }
    };
    template<>
    struct Make<Rec>
    {
        static Rec make(int v) { return Rec{std::to_string(v / 2), v}; }
        static int num(const Rec& v) { return v.b; }
    };
    template<>
    struct Make<double>
    {
        static double make(int v) { return v * 0.5; }
        static int    num(double v) { return int(v * 2); }
    };
    template<>
    struct Make<std::shared_ptr<int>>
    {
        static std::shared_ptr<int> make(int v)
        {
            static std::vector<std::shared_ptr<int>> pool = [] { std::vector<std::shared_ptr<int>> p; for (int i = 0; i < 7001; ++i) p.push_back(std::make_shared<int>(i)); return p; }();
            return pool[size_t(v) % pool.size()];
        }
        static int num(const std::shared_ptr<int>& v)
        {
            if (!v)
            {
                vh::fail("typed-null-item", "an operator passed on a moved-from pointer");
                return -1;
            }
            return *v;
        }
    };
    template<>
    struct Make<std::optional<int>>
    {
        static std::optional<int> make(int v) { return v % 4 == 0 ? std::nullopt : std::optional<int>(v); }
        static int                num(const std::optional<int>& v) { return v ? *v : -7; }
    };

    enum End
    {
        Completes,
        Fails,
        Open
    };

    template<typename T>
    struct Seq
    {
        std::vector<T> items{};
        End            end{Completes};
        int            code{0};
    };

    struct Boom
    {
        int code;
    };
    inline int code_of(const std::exception_ptr& e)
    {
        try
        {
            std::rethrow_exception(e);
        }
        catch (const Boom& b)
        {
            return b.code;
        }
        catch (const rpp::utils::out_of_range&)
        {
            return -2;
        }
        catch (const rpp::utils::not_enough_emissions&)
        {
            return -1;
        }
        catch (const std::exception& x)
        {
            return -100 - int(std::string(x.what()).size());
        }
    }

    template<typename T>
    rpp::dynamic_observable<T> source(vh::Rng& r, const Seq<T>& s, std::string& d)
    {
        if (s.end == Completes && r.chance(4, 5))
        {
            switch (r.below(9))
            {
            case 0: d += "iter<vector>"; return rpp::source::from_iterable(s.items).as_dynamic();
            case 1: d += "iter<list>"; return rpp::source::from_iterable(std::list<T>(s.items.begin(), s.items.end())).as_dynamic();
            case 2: d += "iter<deque,imm>"; return rpp::source::from_iterable(std::deque<T>(s.items.begin(), s.items.end()), rpp::schedulers::immediate{}).as_dynamic();
            case 3: d += "iter<fwd,shared>"; return rpp::source::from_iterable<rpp::memory_model::use_shared>(std::forward_list<T>(s.items.begin(), s.items.end())).as_dynamic();
            case 4: d += "iter<vector,shared,imm>"; return rpp::source::from_iterable<rpp::memory_model::use_shared>(s.items, rpp::schedulers::immediate{}).as_dynamic();
            case 5:
                if (s.items.size() == 2)
                {
                    d += "just2";
                    return rpp::source::just(T(s.items[0]), T(s.items[1])).as_dynamic();
                }
                if (s.items.size() == 1)
                {
                    d += "just1";
                    return rpp::source::just(T(s.items[0])).as_dynamic();
                }
                if (s.items.empty())
                {
                    d += "empty";
                    return rpp::source::empty<T>().as_dynamic();
                }
                [[fallthrough]];
            case 6:
            {
                d += "concat-of-parts";
                const size_t k = size_t(r.below(int(s.items.size()) + 1));
                return rpp::source::concat(rpp::source::from_iterable(std::vector<T>(s.items.begin(), s.items.begin() + long(k)), rpp::schedulers::immediate{}).as_dynamic(), rpp::source::from_iterable(std::vector<T>(s.items.begin() + long(k), s.items.end()), rpp::schedulers::immediate{}).as_dynamic()).as_dynamic();
            }
            case 7:
            {
                d += "concat-container";
                std::vector<rpp::dynamic_observable<T>> v;
                size_t                                  i = 0;
                while (i < s.items.size())
                {
                    const size_t k = std::min(s.items.size() - i, size_t(r.range(1, 1 + int(s.items.size()) / 2)));
                    v.push_back(rpp::source::from_iterable(std::vector<T>(s.items.begin() + long(i), s.items.begin() + long(i + k)), rpp::schedulers::immediate{}).as_dynamic());
                    i += k;
                }
                if (v.empty())
                    v.push_back(rpp::source::empty<T>().as_dynamic());
                return rpp::source::concat(std::move(v)).as_dynamic();
            }
            default: break;
            }
        }
        d += s.end == Completes ? "create" : s.end == Fails ? "create#" : "create...";
        return rpp::source::create<T>([s](auto&& o) {
                   for (size_t i = 0; i < s.items.size(); ++i)
                   {
                       if (o.is_disposed())
                           return;
                       if (i % 2)
                           o.on_next(T(s.items[i]));
                       else
                       {
                           const T x = s.items[i];
                           o.on_next(x);
                       }
                   }
                   if (s.end == Completes)
                       o.on_completed();
                   else if (s.end == Fails)
                       o.on_error(std::make_exception_ptr(Boom{s.code}));
               })
            .as_dynamic();
    }

    inline size_t count_arg(vh::Rng& r, size_t len, bool huge_ok = true)
    {
        if (huge_ok && r.chance(1, 6))
        {
            static const size_t h[] = {SIZE_MAX, SIZE_MAX - 1, size_t(1) << 63, (size_t(1) << 32), (size_t(1) << 32) + 1, size_t(INT64_MAX), size_t(UINT32_MAX), (size_t(1) << 31)};
            return h[r.below(8)];
        }
        if (r.chance(1, 5))
            return len + size_t(r.range(-1, 1) + (len == 0));
        return size_t(r.below(r.chance(1, 2) ? 4 : int(len) + 3));
    }

    // applies one random operator to both sides
    template<typename T>
    void apply(vh::Rng& r, rpp::dynamic_observable<T>& o, Seq<T>& s, std::string& d, std::vector<std::function<void()>>& after)
    {
        using M       = Make<T>;
        const size_t n = s.items.size();
        Seq<T>       t;
        t.end  = s.end;
        t.code = s.code;
        switch (r.below(22))
        {
        case 0:
        {
            const size_t k = count_arg(r, n);
            d += vh::fmt("|take(%zu)", k);
            o = (o | rpp::ops::take(k)).as_dynamic();
            if (n > 0 && k == 0) // completes at the first item
                t.end = Completes;
            else if (n >= k && k > 0)
            {
                t.items.assign(s.items.begin(), s.items.begin() + long(k));
                t.end = Completes;
            }
            else
                t.items = s.items;
            break;
        }
        case 1:
        {
            const size_t k = count_arg(r, n);
            d += vh::fmt("|skip(%zu)", k);
            o = (o | rpp::ops::skip(k)).as_dynamic();
            if (k < n)
                t.items.assign(s.items.begin() + long(k), s.items.end());
            break;
        }
        case 2:
        {
            const size_t k = count_arg(r, n);
            d += vh::fmt("|take_last(%zu)", k);
            o = (o | rpp::ops::take_last(k)).as_dynamic();
            if (s.end == Completes)
                t.items.assign(s.items.begin() + long(k < n ? n - k : 0), s.items.end());
            break;
        }
        case 3:
            d += "|first";
            o = (o | rpp::ops::first()).as_dynamic();
            if (n)
            {
                t.items = {s.items[0]};
                t.end   = Completes;
            }
            else if (s.end == Completes)
            {
                t.end  = Fails;
                t.code = -1;
            }
            break;
        case 4:
            d += "|last";
            o = (o | rpp::ops::last()).as_dynamic();
            if (s.end == Completes)
            {
                if (n)
                    t.items = {s.items[n - 1]};
                else
                {
                    t.end  = Fails;
                    t.code = -1;
                }
            }
            break;
        case 5:
        {
            const size_t k = count_arg(r, n);
            d += vh::fmt("|element_at(%zu)", k);
            o = (o | rpp::ops::element_at(k)).as_dynamic();
            if (k < n)
            {
                t.items = {s.items[k]};
                t.end   = Completes;
            }
            else if (s.end == Completes)
            {
                t.end  = Fails;
                t.code = -2;
            }
            break;
        }
        case 6:
        case 7:
        {
            d += "|distinct";
            std::unordered_set<int> seen;
            if constexpr (std::same_as<T, Rec>)
                o = (o | rpp::ops::map([](const T& v) { return v.b; }) | rpp::ops::distinct() | rpp::ops::map([](int v) { return Make<Rec>::make(v); })).as_dynamic();
            else
                o = (o | rpp::ops::distinct()).as_dynamic();
            std::vector<T> u;
            for (const auto& v : s.items)
                if (seen.insert(M::num(v)).second)
                    u.push_back(v);
            t.items = std::move(u);
            break;
        }
        case 8:
            d += "|distinct_until_changed";
            o = (o | rpp::ops::distinct_until_changed()).as_dynamic();
            for (const auto& v : s.items)
                if (t.items.empty() || !(t.items.back() == v))
                    t.items.push_back(v);
            break;
        case 9:
        {
            // a tolerance: symmetric, not transitive
            const int k = r.range(1, 6);
            d += vh::fmt("|distinct_until_changed(+-%d)", k);
            o = (o | rpp::ops::distinct_until_changed([k](const T& a, const T& b) { return std::abs(M::num(a) - M::num(b)) <= k; })).as_dynamic();
            for (const auto& v : s.items)
                if (t.items.empty() || std::abs(M::num(t.items.back()) - M::num(v)) > k)
                    t.items.push_back(v);
            break;
        }
        case 10:
        {
            const int k = r.range(2, 5);
            d += vh::fmt("|filter(%%%d)", k);
            o = (o | rpp::ops::filter([k](const T& v) { return M::num(v) % k != 0; })).as_dynamic();
            for (const auto& v : s.items)
                if (M::num(v) % k != 0)
                    t.items.push_back(v);
            break;
        }
        case 11:
        {
            const int k = r.range(2, 40);
            d += vh::fmt("|take_while(%%%d)", k);
            o = (o | rpp::ops::take_while([k](const T& v) { return M::num(v) % k != k - 1; })).as_dynamic();
            for (const auto& v : s.items)
            {
                if (M::num(v) % k == k - 1)
                {
                    t.end = Completes;
                    break;
                }
                t.items.push_back(v);
            }
            break;
        }
        case 12:
        {
            d += "|start_with";
            const T a = M::make(r.below(20)), b = M::make(r.below(20));
            o         = (o | rpp::ops::start_with(a, b)).as_dynamic();
            t.items   = {a, b};
            t.items.insert(t.items.end(), s.items.begin(), s.items.end());
            break;
        }
        case 13:
            // the running maximum, without and with a seed
            if (r.chance(1, 2))
            {
                d += "|scan";
                o = (o | rpp::ops::scan([](T&& a, const T& v) { return M::num(a) < M::num(v) ? v : std::move(a); })).as_dynamic();
            }
            else
            {
                const T z = M::make(r.below(9));
                d += "|scan(seed)";
                o = (o | rpp::ops::scan(z, [](T&& a, const T& v) { return M::num(a) < M::num(v) ? v : std::move(a); })).as_dynamic();
                t.items.push_back(z);
            }
            for (const auto& v : s.items)
                t.items.push_back(t.items.empty() || M::num(t.items.back()) < M::num(v) ? v : T(t.items.back()));
            break;
        case 14:
        {
            const bool seed = r.chance(1, 2);
            const T    z    = M::make(r.below(9));
            d += seed ? "|reduce(seed)" : "|reduce";
            auto f = [](T&& a, const T& v) { return M::num(a) < M::num(v) ? v : std::move(a); };
            if (seed)
                o = (o | rpp::ops::reduce(z, f)).as_dynamic();
            else
                o = (o | rpp::ops::reduce(f)).as_dynamic();
            if (s.end == Completes)
            {
                std::optional<T> m;
                if (seed)
                    m = z;
                for (const auto& v : s.items)
                    if (!m || M::num(*m) < M::num(v))
                        m = v;
                if (m)
                    t.items.push_back(*m);
            }
            break;
        }
        case 15:
        case 16:
        {
            const size_t k = count_arg(r, n);
            d += vh::fmt("|buffer(%zu)", k);
            auto sizes = std::make_shared<std::vector<size_t>>();
            o          = (o | rpp::ops::buffer(k) | rpp::ops::map([sizes](const std::vector<T>& v) {
                     sizes->push_back(v.size());
                     if (v.empty())
                         vh::fail("typed-empty-buffer", "buffer emitted an empty chunk");
                     return T(v[(v.size() - 1) / 2]);
                 }))
                    .as_dynamic();
            const size_t        kk = std::max<size_t>(1, k);
            std::vector<size_t> es;
            for (size_t i = 0; i < n; i += kk)
            {
                const size_t m = std::min(kk, n - i);
                if (m < kk && s.end != Completes)
                    break;
                es.push_back(m);
                t.items.push_back(s.items[i + (m - 1) / 2]);
                if (kk > n)
                    break;
            }
            after.push_back([sizes, es, k] {
                // downstream may leave early, so what was seen must be a prefix
                if (sizes->size() > es.size() || !std::equal(sizes->begin(), sizes->end(), es.begin()))
                    vh::fail("typed-buffer-size", vh::fmt("buffer(%zu): chunk sizes differ from the function of the source", k));
            });
            break;
        }
        case 17:
        {
            const size_t k = count_arg(r, n);
            d += vh::fmt("|window(%zu)", k);
            const size_t kk = std::max<size_t>(1, k);
            o               = (o | rpp::ops::window(k) | rpp::ops::flat_map([](const auto& w) { return w | rpp::ops::take_last(1); })).as_dynamic();
            for (size_t i = 0; i < n; i += kk)
            {
                const size_t m = std::min(kk, n - i);
                if (m < kk && s.end != Completes)
                    break;
                t.items.push_back(s.items[i + m - 1]);
                if (kk > n)
                    break;
            }
            break;
        }
        case 18:
        {
            const size_t k = size_t(r.range(0, n > 100 ? 2 : 6));
            d += vh::fmt("|repeat(%zu)", k);
            o = (o | rpp::ops::repeat(k)).as_dynamic();
            if (k == 0)
            {
                t.end = Completes;
                break;
            }
            t.items = s.items;
            if (s.end == Completes)
                for (size_t i = 1; i < k; ++i)
                    t.items.insert(t.items.end(), s.items.begin(), s.items.end());
            break;
        }
        case 19:
        {
            const size_t k = r.chance(1, 8) ? SIZE_MAX - size_t(r.below(2)) : size_t(r.range(1, 5));
            if (s.end == Fails && k > 10)
            {
                t = s;
                break; // would never end
            }
            d += vh::fmt("|retry(%zu)", k);
            o = (o | rpp::ops::retry(k)).as_dynamic();
            t.items = s.items;
            if (s.end == Fails)
                for (size_t i = 0; i < k; ++i)
                    t.items.insert(t.items.end(), s.items.begin(), s.items.end());
            break;
        }
        case 20:
        {
            d += "|group_by";
            const int k = r.range(1, 5);
            o = (o | rpp::ops::group_by([k](const T& v) { return (M::num(v) % k + k) % k; }) | rpp::ops::flat_map([](const auto& g) { return g | rpp::ops::map([key = g.get_key(), k = 0](const T& v) { (void)key; return v; }); })).as_dynamic();
            t.items = s.items; // synchronous groups keep the order
            break;
        }
        default:
        {
            d += "|tap";
            auto seen = std::make_shared<std::vector<int>>();
            o         = (o | rpp::ops::tap([seen](const T& v) { seen->push_back(M::num(v)); })).as_dynamic();
            t.items   = s.items;
            after.push_back([seen, items = s.items] {
                if (seen->size() > items.size())
                {
                    vh::fail("typed-tap", "tap observed more items than the source emits");
                    return;
                }
                for (size_t i = 0; i < seen->size(); ++i)
                    if ((*seen)[i] != M::num(items[i]))
                    {
                        vh::fail("typed-tap", "tap observed other items than the source emits");
                        return;
                    }
            });
        }
        }
        s = std::move(t);
    }

    template<typename T>
    void one(vh::Rng& r, const char* tname)
    {
        using M = Make<T>;
        Seq<T>      s;
        const bool  longer = r.chance(1, 12);
        const int   n      = longer ? r.range(500, 5000) : r.below(14);
        const int   range  = r.chance(1, 3) ? 7000 : 21;
        std::string d      = tname;
        d += ":";
        int walk = r.below(range);
        const bool smooth = r.chance(1, 4);
        for (int i = 0; i < n; ++i)
        {
            walk = smooth ? std::abs(walk + r.range(-2, 3)) % 7000 : r.below(range);
            s.items.push_back(M::make(walk));
        }
        s.end  = r.chance(2, 3) ? Completes : End(r.range(1, 2));
        s.code = 700 + r.below(5);
        d += vh::fmt("%d items ", n);
        auto o   = source<T>(r, s, d);
        const int depth = r.range(1, 4);
        std::vector<std::function<void()>> after;
        for (int i = 0; i < depth; ++i)
        {
            if (s.items.size() > 20000)
                break;
            // side observers of an operator under repeat/retry see several passes
            if (!after.empty())
            {
                auto save = r;
                if (auto k = save.below(22); k == 18 || k == 19)
                    after.clear();
            }
            apply<T>(r, o, s, d, after);
        }
        std::vector<T> got;
        int            end = 0, code = 0, calls_after = 0;
        bool           bad = false;
        if (vh::G().opt.verbose)
            fprintf(stderr, "%s\n", d.c_str());
        auto on = [&](const T& v) {
            if (end)
                ++calls_after;
            got.push_back(v);
        };
        auto oe = [&](const std::exception_ptr& e) { if (end) ++calls_after; end = 2; code = code_of(e); };
        auto oc = [&]() { if (end) ++calls_after; end = 1; };
        try
        {
            if (r.chance(1, 2))
                o.subscribe(on, oe, oc);
            else
                o.subscribe([&](T v) { T mine = std::move(v); on(mine); }, oe, oc);
        }
        catch (const std::exception& e)
        {
            vh::fail("typed-escaped", vh::fmt("%s: exception escaped from subscribe: %s", d.c_str(), e.what()));
            return;
        }
        if (calls_after)
            vh::fail("typed-grammar", d + ": callback after the terminal event");
        if (got.size() != s.items.size())
            bad = true;
        else
            for (size_t i = 0; i < got.size(); ++i)
                bad |= !(M::num(got[i]) == M::num(s.items[i]) && bool(got[i] == s.items[i]));
        const int want = s.end == Completes ? 1 : s.end == Fails ? 2 : 0;
        if (bad)
        {
            size_t i = 0;
            while (i < got.size() && i < s.items.size() && got[i] == s.items[i])
                ++i;
            vh::fail("typed-mismatch", vh::fmt("%s: expected %zu items, observed %zu; first difference at %zu (%d / %d)", d.c_str(), s.items.size(), got.size(), i, i < s.items.size() ? M::num(s.items[i]) : -9, i < got.size() ? M::num(got[i]) : -9));
        }
        else if (want != end || (want == 2 && code != s.code))
            vh::fail("typed-end", vh::fmt("%s: expected end %d (%d), observed %d (%d)", d.c_str(), want, s.code, end, code));
        for (auto& f : after)
            f();
        vh::events(long(got.size()) + (end != 0));
        if (got.size() + size_t(end != 0) >= 2)
        {
            uint64_t h = std::hash<std::string>{}(d);
            for (auto&& v : got)
                h = vh::mix(h, uint64_t(M::num(v)));
            vh::sig(h);
            vh::count(std::string("typed cases over ") + tname);
            if (longer)
                vh::count("typed cases with 500-5000 items");
            vh::sample(d + vh::fmt(" => %zu items, end %d", got.size(), end));
        }
    }
} // namespace typed
