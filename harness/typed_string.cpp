#include "typed.hpp"
namespace typed
{
    void one_string(vh::Rng& r) { one<std::string>(r, "string"); }
} // namespace typed
