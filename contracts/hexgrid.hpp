// ghost closed form of the hexagonal and shifted Cartesian grids: neighbours of a tile from the parity of its row or
// column
#pragma once
#include "fv.hpp"
#include <fiction/layouts/coordinates.hpp>
#include <fiction/layouts/hexagonal_layout.hpp>

namespace hg
{
using namespace fiction;
using oc                       = offset::ucoord_t;
static constexpr uint64_t MAXD = (1u << 30) - 1;
struct pos
{
    int64_t x, y;
};
template <class A>
constexpr bool pointy = std::is_same_v<typename A::orientation, pointy_top_hex>;
template <class A>
constexpr bool odd = std::is_same_v<A, odd_row_hex> || std::is_same_v<A, odd_column_hex>;

template <class L>
static L any_layout()
{
    return L{oc{fv::any_in<uint64_t>("X", 0, MAXD), fv::any_in<uint64_t>("Y", 0, MAXD), fv::any_in<uint64_t>("Z", 0, 1)}};
}
static oc any_tile(const char* x, const char* y, const char* z, uint64_t mx, uint64_t my, uint64_t mz)
{
    const auto ax = fv::any_in<uint64_t>(x, 0, mx), ay = fv::any_in<uint64_t>(y, 0, my), az = fv::any_in<uint64_t>(z, 0, mz);
    return oc{ax, ay, az};
}
// tile whose row (column) has the given parity: the parity bit is concrete on each path
template <class A>
static oc parity_tile(int p, const char* x, const char* y, const char* z, uint64_t mx, uint64_t my, uint64_t mz)
{
    if constexpr (pointy<A>)
    {
        const auto h = fv::any_in<uint64_t>(y, 0, MAXD / 2);
        ASSUME(2 * h + static_cast<uint64_t>(p) <= my);
        return oc{fv::any_in<uint64_t>(x, 0, mx), 2 * h + static_cast<uint64_t>(p), fv::any_in<uint64_t>(z, 0, mz)};
    }
    else
    {
        const auto h = fv::any_in<uint64_t>(x, 0, MAXD / 2);
        ASSUME(2 * h + static_cast<uint64_t>(p) <= mx);
        return oc{2 * h + static_cast<uint64_t>(p), fv::any_in<uint64_t>(y, 0, my), fv::any_in<uint64_t>(z, 0, mz)};
    }
}
// directions: 0/1 east/west (north/south), 2/3 north-east/south-west, 4/5 north-west/south-east
template <class A>
static pos spec_step(int k, int p, int64_t x, int64_t y)
{
    const int64_t sh = odd<A> ? p : 1 - p;
    if constexpr (pointy<A>)
        switch (k)
        {
            case 0: return {x + 1, y};
            case 1: return {x - 1, y};
            case 2: return {x + sh, y - 1};
            case 3: return {x - 1 + sh, y + 1};
            case 4: return {x - 1 + sh, y - 1};
            default: return {x + sh, y + 1};
        }
    else
        switch (k)
        {
            case 0: return {x, y - 1};
            case 1: return {x, y + 1};
            case 2: return {x + 1, y - 1 + sh};
            case 3: return {x - 1, y + sh};
            case 4: return {x - 1, y - 1 + sh};
            default: return {x + 1, y + sh};
        }
}
template <class A, class L>
static oc code_step(const L& l, int k, const oc& t)
{
    switch (k)
    {
        case 0: return pointy<A> ? l.east(t) : l.north(t);
        case 1: return pointy<A> ? l.west(t) : l.south(t);
        case 2: return l.north_east(t);
        case 3: return l.south_west(t);
        case 4: return l.north_west(t);
        default: return l.south_east(t);
    }
}
}  // namespace hg
