// Shared by the single-threaded scheduler harness (h_sched): P15 P17 P18.
#pragma once
#include "val.hpp"
#include "vclock.hpp"
#include "vh.hpp"

#include <rpp/rpp.hpp>
#include <rpp/schedulers/test_scheduler.hpp>

#include <algorithm>
#include <deque>
#include <map>
#include <memory>
#include <optional>
#include <sstream>

namespace sc
{
    using Dobs = rpp::dynamic_observer<Val>;
    using Obs  = rpp::dynamic_observable<Val>;

    inline bool is(const char* p) { return vh::G().opt.mode == p || vh::G().opt.mode == "all"; }
    inline void failp(const char* p, const std::string& k, const std::string& m)
    {
        if (is(p))
            vh::fail(k, m);
    }
    struct Log
    {
        std::vector<std::string> v;
        void                     add(const std::string& s)
        {
            if (v.size() < 20000)
                v.push_back(s);
        }
        std::string str() const
        {
            std::string s;
            for (auto& x : v)
            {
                s += x + " ";
                if (s.size() > 1500)
                    return s + "...";
            }
            return s;
        }
    };
    inline void compare(const char* prop, const std::string& key, const std::string& what, const Log& m, const Log& r)
    {
        if (m.v == r.v)
            return;
        size_t i = 0;
        while (i < m.v.size() && i < r.v.size() && m.v[i] == r.v[i])
            ++i;
        failp(prop, key, "first difference at event " + std::to_string(i) + ": expected " + (i < m.v.size() ? m.v[i] : "nothing") + ", got " + (i < r.v.size() ? r.v[i] : "nothing") + " || " + what + " || expected " + m.str() + " || got " + r.str());
    }
    inline void observe(const std::string& what, const Log& l)
    {
        uint64_t h = 1;
        for (char c : what)
            h = vh::mix(h, uint64_t(c));
        for (auto& e : l.v)
            for (char c : e)
                h = vh::mix(h, uint64_t(c));
        if (!l.v.empty())
            vh::sig(h);
        vh::events(long(l.v.size()));
        vh::sample(what + " => " + l.str());
    }
    void case_p15(vh::Rng& r);
    void case_p17(vh::Rng& r);
    void case_p18(vh::Rng& r);
} // namespace sc
