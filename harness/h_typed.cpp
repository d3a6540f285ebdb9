// Single-source operators as list functions over several item types.
#include "vh.hpp"

namespace typed
{
    void one_bool(vh::Rng&);
    void one_string(vh::Rng&);
    void one_double(vh::Rng&);
    void one_record(vh::Rng&);
    void one_pointer(vh::Rng&);
    void one_optional(vh::Rng&);
} // namespace typed

int main(int argc, char** argv)
{
    return vh::run_deep(argc, argv, [](vh::Rng& r, long) {
        switch (r.below(6))
        {
        case 0: typed::one_bool(r); break;
        case 1: typed::one_string(r); break;
        case 2: typed::one_double(r); break;
        case 3: typed::one_record(r); break;
        case 4: typed::one_pointer(r); break;
        default: typed::one_optional(r);
        }
    });
}
