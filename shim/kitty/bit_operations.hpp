// Stand-in for kitty/bit_operations.hpp (absent offline)
#pragma once
#include "dynamic_truth_table.hpp"

namespace kitty
{
template <class TT>
auto get_bit(const TT& tt, uint64_t index)
{
    return (tt._bits[index >> 6] >> (index & 0x3f)) & 0x1;
}
}  // namespace kitty
