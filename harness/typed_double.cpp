#include "typed.hpp"
namespace typed
{
    void one_double(vh::Rng& r) { one<double>(r, "double"); }
} // namespace typed
