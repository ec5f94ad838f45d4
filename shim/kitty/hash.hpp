// Stand-in for kitty/hash.hpp (absent offline)
#pragma once
#include "dynamic_truth_table.hpp"

#include <cstddef>

namespace kitty
{
template <class T>
struct hash
{
    std::size_t operator()(const T& t) const { return t._bits[0] + t._num_vars; }
};
}  // namespace kitty
