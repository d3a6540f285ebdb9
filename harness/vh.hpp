// Common machinery of every harness: options, PRNG, case loop, violation log,
// coverage counters, hang watchdog and delay injection at function boundaries.
#pragma once
#include <atomic>
#include <chrono>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <functional>
#include <poll.h>
#include <pthread.h>
#include <mutex>
#include <string>
#include <thread>
#include <unordered_set>
#include <vector>

namespace vh
{
    struct Rng
    {
        uint64_t s;
        explicit Rng(uint64_t seed = 1)
            : s(seed * 0x9E3779B97F4A7C15ull + 0xD1B54A32D192ED03ull)
        {
            next();
            next();
        }
        uint64_t next()
        {
            uint64_t z = (s += 0x9E3779B97F4A7C15ull);
            z          = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
            z          = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
            return z ^ (z >> 31);
        }
        int  below(int n) { return n <= 0 ? 0 : int(next() % uint64_t(n)); }
        int  range(int a, int b) { return a + below(b - a + 1); } // inclusive
        bool chance(int num, int den) { return below(den) < num; }
    };

    inline uint64_t mix(uint64_t h, uint64_t v)
    {
        h ^= v + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2);
        h *= 0xff51afd7ed558ccdull;
        return h ^ (h >> 32);
    }

    struct Options
    {
        uint64_t    seed{1};
        std::string mode{};
        int         shard{0}, nshards{1};
        long        cases{100};
        long        only{-1};
        bool        thorough{false};
        bool        verbose{false};
        std::string out{};
        int         hang_s{60};
        int         inject{0}; // delay injection strength (0 = off)
        int         max_violations{25};
        int         soft_s{0}; // stop starting cases after that many seconds
    };

    struct Global
    {
        Options                      opt;
        std::mutex                   m;
        std::vector<std::string>     viol; // "key\tcase\tmessage"
        std::unordered_set<uint64_t> sigs;
        std::vector<std::string>     samples;
        std::atomic<long>            evaluations{0};
        std::atomic<long>            events{0};
        std::atomic<long>            nviol{0};
        std::vector<std::pair<std::string, long>> counters;
        std::atomic<long>            cur_case{-1};
        std::atomic<uint64_t>        beat{0};
        std::atomic<bool>            done{false};
        FILE*                        progress{nullptr};
    };
    inline Global& G()
    {
        static Global* g = new Global; // never destroyed: threads may outlive main
        return *g;
    }

    inline std::string fmt(const char* f, ...)
    {
        char    buf[4096];
        va_list ap;
        va_start(ap, f);
        vsnprintf(buf, sizeof buf, f, ap);
        va_end(ap);
        return buf;
    }

    inline void flush_out(const char* status);

    inline void fail(const std::string& key, const std::string& msg)
    {
        auto&           g = G();
        std::lock_guard l{g.m};
        const long      n = ++g.nviol;
        std::string     clean = msg;
        for (auto& c : clean)
            if (c == '\n' || c == '\t')
                c = ' ';
        if (n <= g.opt.max_violations)
        {
            g.viol.push_back(key + "\t" + std::to_string(g.cur_case.load()) + "\t" + clean);
            fprintf(stderr, "[violation] %s case=%ld %s\n", key.c_str(), g.cur_case.load(), clean.c_str());
        }
    }

    inline void count(const std::string& name, long n = 1)
    {
        auto&           g = G();
        std::lock_guard l{g.m};
        for (auto& p : g.counters)
            if (p.first == name)
            {
                p.second += n;
                return;
            }
        g.counters.emplace_back(name, n);
    }
    inline void sig(uint64_t h)
    {
        auto&           g = G();
        std::lock_guard l{g.m};
        g.sigs.insert(h);
    }
    inline void sample(const std::string& s)
    {
        auto&           g = G();
        std::lock_guard l{g.m};
        if (g.samples.size() < 3)
            g.samples.push_back(s);
    }
    inline void events(long n) { G().events += n; }

    inline std::string jesc(const std::string& s)
    {
        std::string r;
        for (unsigned char c : s)
        {
            if (c == '"' || c == '\\')
            {
                r += '\\';
                r += char(c);
            }
            else if (c < 0x20 || c >= 0x7f)
                r += ' ';
            else
                r += char(c);
        }
        return r;
    }

    inline void flush_out(const char* status)
    {
        auto& g = G();
        if (g.opt.out.empty())
            return;
        const std::string tmp = g.opt.out + ".tmp";
        FILE*             f   = fopen(tmp.c_str(), "w");
        if (!f)
            return;
        fprintf(f, "{\"status\":\"%s\",\"case\":%ld,\"evaluations\":%ld,\"events\":%ld,\"nviol\":%ld,\n\"violations\":[", status, g.cur_case.load(), g.evaluations.load(), g.events.load(), g.nviol.load());
        for (size_t i = 0; i < g.viol.size(); ++i)
            fprintf(f, "%s\"%s\"", i ? "," : "", [&] {
                std::string s = g.viol[i];
                for (auto& c : s)
                    if (c == '\t')
                        c = '\x1f';
                std::string r;
                for (unsigned char c : s)
                {
                    if (c == '\x1f')
                        r += "\\t";
                    else if (c == '"' || c == '\\')
                    {
                        r += '\\';
                        r += char(c);
                    }
                    else if (c < 0x20 || c >= 0x7f)
                        r += ' ';
                    else
                        r += char(c);
                }
                return r;
            }().c_str());
        fprintf(f, "],\n\"counters\":{");
        for (size_t i = 0; i < g.counters.size(); ++i)
            fprintf(f, "%s\"%s\":%ld", i ? "," : "", jesc(g.counters[i].first).c_str(), g.counters[i].second);
        fprintf(f, "},\n\"samples\":[");
        for (size_t i = 0; i < g.samples.size(); ++i)
            fprintf(f, "%s\"%s\"", i ? "," : "", jesc(g.samples[i]).c_str());
        fprintf(f, "],\n\"sigs\":[");
        bool first = true;
        for (auto h : g.sigs)
        {
            fprintf(f, "%s\"%llx\"", first ? "" : ",", (unsigned long long)h);
            first = false;
        }
        fprintf(f, "]}\n");
        fclose(f);
        rename(tmp.c_str(), g.opt.out.c_str());
    }

    // ---------------------------------------------------------------- watchdog
    // A case that makes no progress for hang_s seconds ends the process with
    // exit code 77; whether that is a violation is decided by the runner, which
    // re-runs it (a hang must repeat to be reported).
    inline void start_watchdog()
    {
        auto& g = G();
        std::thread([&g] {
            uint64_t last  = g.beat.load();
            int      quiet = 0;
            while (!g.done.load())
            {
                for (int i = 0; i < 10 && !g.done.load(); ++i)
                    poll(nullptr, 0, 100); // not sleep_for: harnesses may replace the clock
                const auto b = g.beat.load();
                if (b != last)
                {
                    last  = b;
                    quiet = 0;
                }
                else if (++quiet >= g.opt.hang_s)
                {
                    fprintf(stderr, "[hang] case=%ld\n", g.cur_case.load());
                    flush_out("hang");
                    _exit(77);
                }
            }
        }).detach();
    }

    inline void parse(int argc, char** argv)
    {
        auto& o = G().opt;
        for (int i = 1; i < argc; ++i)
        {
            std::string a   = argv[i];
            auto        val = [&] { return std::string(i + 1 < argc ? argv[++i] : ""); };
            if (a == "--seed")
                o.seed = strtoull(val().c_str(), nullptr, 10);
            else if (a == "--mode")
                o.mode = val();
            else if (a == "--shard")
                o.shard = atoi(val().c_str());
            else if (a == "--nshards")
                o.nshards = atoi(val().c_str());
            else if (a == "--cases")
                o.cases = atol(val().c_str());
            else if (a == "--only")
                o.only = atol(val().c_str());
            else if (a == "--out")
                o.out = val();
            else if (a == "--hang")
                o.hang_s = atoi(val().c_str());
            else if (a == "--inject")
                o.inject = atoi(val().c_str());
            else if (a == "--soft")
                o.soft_s = atoi(val().c_str());
            else if (a == "--thorough")
                o.thorough = true;
            else if (a == "--verbose")
                o.verbose = true;
            else
            {
                fprintf(stderr, "unknown option %s\n", a.c_str());
                exit(3);
            }
        }
    }

    inline void begin_case(long i)
    {
        auto& g    = G();
        g.cur_case = i;
        ++g.beat;
        if (!g.opt.out.empty())
        {
            if (!g.progress)
                g.progress = fopen((g.opt.out + ".progress").c_str(), "w");
            if (g.progress)
            {
                rewind(g.progress);
                fprintf(g.progress, "%-20ld\n", i);
                fflush(g.progress);
            }
        }
    }

    template<typename Fn>
    int run_cases(Fn&& fn)
    {
        auto& g = G();
        start_watchdog();
        const auto start = time(nullptr);
        auto one = [&](long i) {
            begin_case(i);
            Rng r(mix(mix(g.opt.seed, 0xABCDEF), uint64_t(i)));
            fn(r, i);
            ++g.evaluations;
        };
        if (g.opt.only >= 0)
            one(g.opt.only);
        else
            for (long i = g.opt.shard; i < g.opt.cases; i += g.opt.nshards)
            {
                one(i);
                if (g.nviol.load() >= g.opt.max_violations)
                    break;
                if (g.opt.soft_s && time(nullptr) - start > g.opt.soft_s)
                    break;
            }
        g.done = true;
        flush_out("ok");
        return g.nviol.load() ? 1 : 0;
    }

    // fn(Rng&, long case_index)
    template<typename Fn>
    int run(int argc, char** argv, Fn&& fn)
    {
        parse(argc, argv);
        return run_cases(std::forward<Fn>(fn));
    }

    // the same on a thread with a very large stack: deep synchronous recursion of
    // generated pipelines must not be mistaken for a defect
    template<typename Fn>
    int run_deep(int argc, char** argv, Fn&& fn)
    {
        parse(argc, argv);
        struct Arg
        {
            Fn* fn;
            int rc;
        } arg{&fn, 0};
        pthread_attr_t at;
        pthread_attr_init(&at);
        pthread_attr_setstacksize(&at, size_t(1) << 30);
        pthread_t t;
        if (pthread_create(&t, &at, [](void* p) -> void* { auto* a = static_cast<Arg*>(p); a->rc = run_cases(*a->fn); return nullptr; }, &arg))
        {
            fprintf(stderr, "cannot create the case thread\n");
            exit(3);
        }
        pthread_join(t, nullptr);
        return arg.rc;
    }
} // namespace vh
