#include "impl_fused.hpp"
namespace impl
{
    Obs build_fused0(const Node& n, World& w)
    {
        return n.a == 0 ? fused_row<0>(n, w) : fused_row<1>(n, w);
    }
} // namespace impl
