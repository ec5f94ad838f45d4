// Stand-in for kitty/constructors.hpp (absent offline)
#pragma once
#include "dynamic_truth_table.hpp"

#include <string>

namespace kitty
{
// words are copied; bits beyond the table are dropped
template <class TT, class It>
void create_from_words(TT& tt, It begin, It end)
{
    for (auto& w : tt._bits) w = begin != end ? *begin++ : 0;
    tt.mask_bits();
}
// the last character is the value at the input pattern 0
template <class TT>
void create_from_binary_string(TT& tt, const std::string& s)
{
    for (auto& w : tt._bits) w = 0;
    for (uint64_t i = 0; i < s.size(); ++i)
        if (s[s.size() - 1 - i] == '1') tt._bits[i / 64] |= uint64_t{1} << (i % 64);
}
}  // namespace kitty
