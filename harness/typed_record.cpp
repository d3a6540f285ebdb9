#include "typed.hpp"
namespace typed
{
    void one_record(vh::Rng& r) { one<Rec>(r, "record"); }
} // namespace typed
