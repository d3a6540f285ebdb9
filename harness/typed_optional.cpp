#include "typed.hpp"
namespace typed
{
    void one_optional(vh::Rng& r) { one<std::optional<int>>(r, "optional"); }
} // namespace typed
