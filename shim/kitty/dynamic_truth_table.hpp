// Stand-in for kitty's dynamic truth tables (absent offline): a table over n <= 6 variables is its bits, bit i being the
// value at the input pattern i.
#pragma once
#include <cstdint>
#include <vector>

namespace kitty
{
struct dynamic_truth_table
{
    dynamic_truth_table() : _bits(1) {}
    explicit dynamic_truth_table(uint32_t num_vars) : _bits(num_vars <= 6 ? 1 : uint64_t{1} << (num_vars - 6)), _num_vars{num_vars} {}
    uint32_t num_vars() const { return _num_vars; }
    uint64_t num_bits() const { return uint64_t{1} << _num_vars; }
    auto     begin() { return _bits.begin(); }
    auto     end() { return _bits.end(); }
    void     mask_bits()
    {
        if (_num_vars < 6) _bits[0] &= (uint64_t{1} << num_bits()) - 1;
    }
    bool operator==(const dynamic_truth_table& o) const { return _num_vars == o._num_vars && _bits == o._bits; }

    std::vector<uint64_t> _bits;
    uint32_t              _num_vars{0};
};
}  // namespace kitty
