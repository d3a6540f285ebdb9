// P28: the way of subscribing and the static types involved change nothing.
#include "form.hpp"

namespace fm
{
    void chains_0(std::vector<Chain>&);
    void chains_1(std::vector<Chain>&);
    void chains_2(std::vector<Chain>&);
    void chains_3(std::vector<Chain>&);
    void chains_4(std::vector<Chain>&);
    void chains_5(std::vector<Chain>&);
    void chains_6(std::vector<Chain>&);
    void chains_7(std::vector<Chain>&);

    struct Res
    {
        std::string log;
        long        events;
        bool        released;
        bool        disposed; // the handle, if there is one, at the end of the script
    };

    Res run(const Cfg& c, const Form& f)
    {
        Res r;
        {
            World w{c};
            W() = &w;
            vclock::now_ns += 1000 * vclock::MS;
            vclock::now_ns -= vclock::now_ns % (1000 * vclock::MS);
            f.fn();
            w.add(" ;");
            for (auto& e : c.script)
            {
                vclock::now_ns += vclock::MS;
                auto all = [&](auto fn) {
                    for (size_t i = 0; i < w.probes.size(); ++i)
                    {
                        auto p = w.probes[i];
                        fn(p);
                    }
                    auto a = w.pub.get_observer();
                    fn(a);
                    auto b = w.ser.get_observer();
                    fn(b);
                    auto d = w.beh.get_observer();
                    fn(d);
                    auto g = w.rep.get_observer();
                    fn(g);
                };
                switch (e.what)
                {
                case 0: all([&](auto& o) { o.on_next(e.v); }); break;
                case 1: all([&](auto& o) { o.on_completed(); }); break;
                case 2: all([&](auto& o) { o.on_error(boom(3)); }); break;
                case 3:
                    if (w.handle)
                        w.handle->dispose();
                    break;
                case 4: w.other.get_observer().on_next(e.v); break;
                default: w.other.get_observer().on_completed();
                }
                w.add(" ;");
            }
            std::string up;
            for (auto& p : w.probes)
                up += p.is_disposed() ? 'x' : '-';
            w.add("  upstream " + up);
            r.disposed = w.handle && w.handle->is_disposed();
            const auto l = w.log;
            // everything ends, and what the user still holds goes away
            for (int i = 0; i < 4; ++i)
            {
                for (size_t q = 0; q < w.probes.size(); ++q)
                    rpp::dynamic_observer<int>{w.probes[q]}.on_completed();
                w.pub.get_observer().on_completed();
                w.ser.get_observer().on_completed();
                w.beh.get_observer().on_completed();
                w.rep.get_observer().on_completed();
                w.other.get_observer().on_completed();
            }
            if (w.handle)
                w.handle->dispose();
            w.probes.clear();
            w.pub = {};
            w.other = {};
            w.ser = {};
            w.beh = rpp::subjects::behavior_subject<int>{0};
            w.rep = {};
            w.handle.reset();
            r.released = w.tok.use_count() == 1;
            r.log      = l;
            r.events   = w.ev;
        }
        W() = nullptr;
        return r;
    }

    // an abandoned subscription without a handle dies with its source, one with a handle when that is used
    std::string without_cleanups(const std::string& s)
    {
        std::string r;
        for (size_t i = 0; i < s.size(); ++i)
            if (s[i] == '~')
                ++i;
            else if (s.compare(i, 2, " f") == 0)
                ++i;
            else
                r += s[i];
        return r;
    }

    std::string text(const Cfg& c)
    {
        std::string s = vh::fmt("n=%d m=%d k=%d pre=", c.n, c.m, c.k);
        for (int v : c.pre)
            s += vh::fmt("%d,", v);
        s += vh::fmt("end%d ups=%d%s din=%d tin=%d boom=%d script=", c.pre_end, c.ups, c.late ? "late" : "", c.dispose_in, c.throw_in, c.boom_at);
        for (auto& e : c.script)
            s += vh::fmt("%d:%d ", e.what, e.v);
        return s;
    }

    void one(vh::Rng& r, const std::vector<Chain>& all, long i)
    {
        const auto& ch = all[size_t(i / vh::G().opt.nshards + 17 * vh::G().opt.shard) % all.size()];
        Cfg         c;
        c.n = r.range(1, 3);
        c.m = r.range(0, 3);
        c.k = r.range(0, 2);
        for (int n = r.below(5); n > 0; --n)
            c.pre.push_back(r.below(7));
        c.pre_end = r.chance(1, 3) ? r.range(1, 2) : 0;
        c.ups     = r.below(4);
        c.late    = r.chance(1, 4);
        for (int n = r.range(2, 10); n > 0; --n)
        {
            const int k = r.below(20);
            c.script.push_back({k < 10 ? 0 : k < 15 ? 4 : k == 15 ? 1 : k == 16 ? 2 : k == 17 ? 3 : k == 18 ? 5 : 0, r.below(8)});
        }
        if (r.chance(1, 8))
            c.dispose_in = r.range(1, 4);
        else if (r.chance(1, 8))
            c.throw_in = r.range(1, 4);
        if (r.chance(1, 6))
            c.boom_at = r.range(1, 5);
        Cfg plain = c; // for the forms that give no handle before the first item
        plain.dispose_in = 0;
        Cfg none = plain; // and for those which give none
        std::erase_if(none.script, [](const Cfg::Ev& e) { return e.what == 3; });

        const auto a = run(c, ch.forms[0]), b = run(plain, ch.forms[0]), d = run(none, ch.forms[0]);
        for (size_t f = 0; f < ch.forms.size(); ++f)
        {
            const auto& fo   = ch.forms[f];
            const auto& cfg  = fo.early ? c : fo.handle ? plain : none;
            const auto& want = fo.early ? a : fo.handle ? b : d;
            const auto  got  = f ? run(cfg, fo) : a;
            vh::count("subscriptions");
            const bool ended = want.log.find_first_of("#|") != std::string::npos;
            if (fo.handle || ended ? got.log != want.log : without_cleanups(got.log) != without_cleanups(want.log))
                vh::fail("form-differs", std::string(ch.name) + " [" + fo.name + "] " + text(cfg) + " observed" + got.log + " expected" + want.log);
            else if (fo.handle && got.disposed != want.disposed && !c.throw_in)
                vh::fail("form-handle", std::string(ch.name) + " [" + fo.name + "] " + text(cfg) + " handle disposed: " + (got.disposed ? "yes" : "no"));
            if (!got.released)
                vh::fail("form-retains", std::string(ch.name) + " [" + fo.name + "] " + text(cfg) + " observed" + got.log);
            vh::events(got.events);
        }
        vh::sig(vh::mix(std::hash<std::string>{}(ch.name), std::hash<std::string>{}(a.log)));
        if (i < 8)
            vh::sample(std::string(ch.name) + " " + text(c) + " observed" + a.log);
    }
} // namespace fm

int main(int argc, char** argv)
{
    std::vector<fm::Chain> v;
    fm::chains_0(v);
    fm::chains_1(v);
    fm::chains_2(v);
    fm::chains_3(v);
    fm::chains_4(v);
    fm::chains_5(v);
    fm::chains_6(v);
    fm::chains_7(v);
    return vh::run_deep(argc, argv, [&](vh::Rng& r, long i) { fm::one(r, v, i); });
}
