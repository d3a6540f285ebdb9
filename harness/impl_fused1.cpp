#include "impl_fused.hpp"
namespace impl
{
    Obs build_fused1(const Node& n, World& w)
    {
        return n.a == 2 ? fused_row<2>(n, w) : fused_row<3>(n, w);
    }
} // namespace impl
