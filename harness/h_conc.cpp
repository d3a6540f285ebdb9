// Concurrent scenarios; --mode selects the property whose oracle reports.
#include "conc.hpp"

int main(int argc, char** argv)
{
    vh::parse(argc, argv);
    std::vector<cc::Entry> all;
#ifdef VH_WORKERS_ONLY
    for (auto v : {cc::scenarios_f()})
#else
    for (auto v : {cc::scenarios_a(), cc::scenarios_b(), cc::scenarios_c(), cc::scenarios_d(), cc::scenarios_e(), cc::scenarios_f(), cc::scenarios_g()})
#endif
        all.insert(all.end(), v.begin(), v.end());
    std::string mode = vh::G().opt.mode, only_sc;
    if (auto p = mode.find(':'); p != std::string::npos)
    {
        only_sc          = mode.substr(p + 1);
        mode             = mode.substr(0, p);
        vh::G().opt.mode = mode;
    }
    std::vector<cc::Entry> use;
    for (auto& e : all)
        if ((only_sc.empty() || only_sc == e.name) && (mode == "P20" || mode == "P21" || mode == "P29" || mode == "all" || strstr(e.props, mode.c_str())))
            for (int i = 0; i < (mode == "P29" ? (strstr(e.props, "P29") ? 24 * e.weight : 1) : e.weight); ++i)
                use.push_back(e);
    if (use.empty())
    {
        fprintf(stderr, "no scenario for mode %s\n", mode.c_str());
        return 3;
    }
    const int rc = vh::run_cases([&](vh::Rng& r, long i) {
        cc::Ctx     c{r, i};
        const auto& e = use[size_t(i / vh::G().opt.nshards) % use.size()];
        c.desc        = e.name;
        vi::role(99);
        vi::begin(r.next());
        e.fn(c);
        vi::end();
        vh::count(std::string("cases ") + e.name);
        if (vh::G().opt.verbose)
            fprintf(stderr, "case %ld %s\n", i, c.desc.c_str());
    });
    vh::count("delays injected", vi::fired());
    vh::flush_out("ok");
    fflush(nullptr);
    _exit(rc); // library threads of static pools may still be parked
}
