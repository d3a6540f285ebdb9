#include "impl_fused.hpp"
namespace impl
{
    Obs build_fused3(const Node& n, World& w)
    {
        return n.a == 6 ? fused_row<6>(n, w) : fused_row<7>(n, w);
    }
} // namespace impl
