// Schedulers and time on a virtual clock, single-threaded, against reference models.
#include "sched.hpp"

int main(int argc, char** argv)
{
    return vh::run_deep(argc, argv, [](vh::Rng& r, long i) {
        using namespace sc;
        auto& m = vh::G().opt.mode;
        if (m == "P15" || (m != "P17" && m != "P18" && i % 3 == 0))
            case_p15(r);
        else if (m == "P17" || (m != "P18" && i % 3 == 1))
            case_p17(r);
        else
            case_p18(r);
    });
}
