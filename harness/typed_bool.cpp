#include "typed.hpp"
namespace typed
{
    void one_bool(vh::Rng& r) { one<bool>(r, "bool"); }
} // namespace typed
