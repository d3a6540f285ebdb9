#include "typed.hpp"
namespace typed
{
    void one_pointer(vh::Rng& r) { one<std::shared_ptr<int>>(r, "pointer"); }
} // namespace typed
