// C05 (shifted) Cartesian layouts: neighbours, adjacency, borders, bounds and elevation are those of the grid
#include "fv.hpp"
#include "coords.hpp"
#include "hexgrid.hpp"
#include <fiction/layouts/cartesian_layout.hpp>
#include <fiction/layouts/shifted_cartesian_layout.hpp>
#include <vector>
//FV: shim = .
//FV: pipe = inline
//FV: trust = mockturtle::detail::foreach_element is replaced by a stand-in with its documented meaning
//FV: assume = tiles have non-negative components and lie inside the layout; shifted layouts have at most 2^30 columns and rows
using namespace fiction;
using namespace cs;
using i64 = int64_t;

template <class C>
constexpr bool is_siqad = std::is_same_v<C, sqd>;

template <class C>
static C make(i64 x, i64 y, i64 z)
{
    return C{x, y, z};
}
// a layout of any dimensions and a tile of it
#define LAYOUT(C)                                                                                                      \
    const auto                ar = BOX(C, ar);                                                                         \
    const cartesian_layout<C> l{ar};                                                                                   \
    const i64                 MX = X(ar), MY = Y(ar), MZ = is_siqad<C> ? 1 : Z(ar)
#define TILE(C, c)                                                                                                     \
    const auto c = BOX(C, c);                                                                                          \
    ASSUME(X(c) <= MX && Y(c) <= MY && Z(c) <= MZ)

template <class C>
static bool is(const C& a, i64 x, i64 y, i64 z)
{
    return !a.is_dead() && X(a) == x && Y(a) == y && Z(a) == z;
}
template <class C>
static void dims()
{
    LAYOUT(C);
    CHECKN("the layout has the given dimensions", static_cast<i64>(l.x()) == MX && static_cast<i64>(l.y()) == MY && static_cast<i64>(l.z()) == MZ);
    CHECK(l.area() == fiction::area(C{MX, MY, MZ}));
    cartesian_layout<C> k{C{0, 0, 0}};
    k.resize(ar);
    CHECKN("resizing gives the new dimensions", static_cast<i64>(k.x()) == MX && static_cast<i64>(k.y()) == MY && static_cast<i64>(k.z()) == MZ);
    const auto m = k.clone();
    k.resize(C{0, 0, 0});
    CHECKN("a clone is independent", static_cast<i64>(m.x()) == MX && static_cast<i64>(m.y()) == MY);
    const auto c = k.coord(MX, MY, MZ);
    CHECK(is(c, MX, MY, MZ));
}
template <class C>
static void neighbours()
{
    LAYOUT(C);
    TILE(C, c);
    const i64 x = X(c), y = Y(c), z = Z(c);
    const bool n = y > 0, s = y < MY, w = x > 0, e = x < MX;
    CHECK(is(l.north(c), x, n ? y - 1 : y, z));
    CHECK(is(l.south(c), x, s ? y + 1 : y, z));
    CHECK(is(l.west(c), w ? x - 1 : x, y, z));
    CHECK(is(l.east(c), e ? x + 1 : x, y, z));
    CHECK(is(l.north_east(c), n && e ? x + 1 : x, n && e ? y - 1 : y, z));
    CHECK(is(l.north_west(c), n && w ? x - 1 : x, n && w ? y - 1 : y, z));
    CHECK(is(l.south_east(c), s && e ? x + 1 : x, s && e ? y + 1 : y, z));
    CHECK(is(l.south_west(c), s && w ? x - 1 : x, s && w ? y + 1 : y, z));
    CHECKN("above and below change only the layer", is(l.above(c), x, y, z < MZ ? z + 1 : z) && is(l.below(c), x, y, z > 0 ? z - 1 : z));
    if (n) CHECKN("opposite steps cancel", same(l.south(l.north(c)), c));
    if (s) CHECKN("opposite steps cancel", same(l.north(l.south(c)), c));
    if (w) CHECKN("opposite steps cancel", same(l.east(l.west(c)), c));
    if (e) CHECKN("opposite steps cancel", same(l.west(l.east(c)), c));
    if (n && e) CHECKN("opposite steps cancel", same(l.south_west(l.north_east(c)), c));
    if (n && w) CHECKN("opposite steps cancel", same(l.south_east(l.north_west(c)), c));
}
template <class C>
static void predicates()
{
    LAYOUT(C);
    TILE(C, a);
    TILE(C, b);
    const i64  dx = X(b) - X(a), dy = Y(b) - Y(a), dz = Z(b) - Z(a);
    const bool flat = dz == 0;
    CHECK(l.is_north_of(a, b) == (flat && dx == 0 && dy == -1));
    CHECK(l.is_south_of(a, b) == (flat && dx == 0 && dy == 1));
    CHECK(l.is_west_of(a, b) == (flat && dx == -1 && dy == 0));
    CHECK(l.is_east_of(a, b) == (flat && dx == 1 && dy == 0));
    const bool step = (dx == 0 && (dy == 1 || dy == -1)) || (dy == 0 && (dx == 1 || dx == -1));
    CHECKN("adjacent means one cardinal step apart", l.is_adjacent_of(a, b) == (flat && step));
    CHECKN("adjacency across layers", l.is_adjacent_elevation_of(a, b) == (step && dz >= -1 && dz <= 1));
    CHECK(l.is_above(a, b) == (dx == 0 && dy == 0 && dz == 1));
    CHECK(l.is_below(a, b) == (dx == 0 && dy == 0 && dz == -1));
    CHECK(l.is_northwards_of(a, b) == (flat && dx == 0 && dy < 0));
    CHECK(l.is_southwards_of(a, b) == (flat && dx == 0 && dy > 0));
    CHECK(l.is_westwards_of(a, b) == (flat && dx < 0 && dy == 0));
    CHECK(l.is_eastwards_of(a, b) == (flat && dx > 0 && dy == 0));
}
template <class C, class L>
static void border_contract(const L& l, const C& c, i64 MX, i64 MY, i64 MZ)
{
    const i64 x = X(c), y = Y(c), z = Z(c);
    CHECK(l.is_at_northern_border(c) == (y == 0));
    CHECK(l.is_at_southern_border(c) == (y == MY));
    CHECK(l.is_at_western_border(c) == (x == 0));
    CHECK(l.is_at_eastern_border(c) == (x == MX));
    CHECKN("at any border", l.is_at_any_border(c) == (y == 0 || y == MY || x == 0 || x == MX));
    CHECK(is(l.northern_border_of(c), x, 0, z));
    CHECK(is(l.southern_border_of(c), x, MY, z));
    CHECK(is(l.western_border_of(c), 0, y, z));
    CHECK(is(l.eastern_border_of(c), MX, y, z));
    CHECK(l.is_ground_layer(c) == (z == 0));
    CHECK(l.is_crossing_layer(c) == (z > 0));
    CHECKN("within bounds", l.is_within_bounds(c) == (x <= MX && y <= MY && z <= MZ));
}
template <class C>
static void borders()
{
    LAYOUT(C);
    border_contract(l, BOX(C, c), MX, MY, MZ);  // any coordinate, inside or outside
}
template <class C>
static void enumeration()
{
    LAYOUT(C);
    TILE(C, c);
    TILE(C, o);
    const i64      dx = X(o) - X(c), dy = Y(o) - Y(c);
    const bool     adj  = Z(o) == Z(c) && ((dx == 0 && (dy == 1 || dy == -1)) || (dy == 0 && (dx == 1 || dx == -1)));
    const bool     n = Y(c) > 0, s = Y(c) < MY, w = X(c) > 0, e = X(c) < MX;
    unsigned       count = 0, hits = 0;
    l.foreach_adjacent_coordinate(c, [&](const auto& a) { ++count; hits += same(a, o) ? 1u : 0u; });
    CHECKN("exactly the adjacent tiles are enumerated, each once", count == 0u + n + s + w + e && hits == (adj ? 1u : 0u));
    unsigned pairs = 0;
    l.foreach_adjacent_opposite_coordinates(c, [&](const auto& p) {
        ++pairs;
        CHECKN("opposite pairs lie on either side of the tile", Z(p.first) == Z(c) && Z(p.second) == Z(c) && X(p.first) + X(p.second) == 2 * X(c) && Y(p.first) + Y(p.second) == 2 * Y(c) && (X(p.first) != X(c)) != (Y(p.first) != Y(c)));
    });
    CHECKN("every pair of opposite neighbours is enumerated", pairs == 0u + (n && s) + (w && e));
    CHECK(l.adjacent_coordinates(c).size() == 0u + n + s + w + e);
    CHECK(l.adjacent_opposite_coordinates(c).size() == 0u + (n && s) + (w && e));
}
template <class C>
static void iteration()
{
    LAYOUT(C);
    TILE(C, s);
    TILE(C, t);
    {
        const auto r = l.coordinates();
        CHECKN("iteration over all tiles starts at the origin", is(*r.begin(), 0, 0, 0));
        CHECKN("iteration ends after the last tile", r.begin() != r.end() && ++coord_iterator<C>{C{MX, MY, MZ}, C{MX, MY, MZ}} == r.end());
        const auto q = l.coordinates(s, t);
        CHECKN("iteration over a range starts and stops there", same(*q.begin(), s) && same(*q.end(), t));
        const auto u = l.coordinates(s);
        CHECK(same(*u.begin(), s) && u.end() == r.end());
        // from any tile but the last, the iteration moves on and does not end
        auto it = u.begin();
        ++it;
        const bool last = X(s) == MX && Y(s) == MY && Z(s) == MZ;
        CHECKN("the iteration ends exactly after the last tile", (it == r.end()) == last);
    }
    {
        const auto r = l.ground_coordinates();
        CHECKN("iteration over the ground layer starts at the origin", is(*r.begin(), 0, 0, 0));
        if (!is_siqad<C> && Z(s) == 0)
        {
            const auto q  = l.ground_coordinates(s);
            auto       it = q.begin();
            CHECK(same(*it, s));
            ++it;
            const bool last = X(s) == MX && Y(s) == MY;
            CHECKN("the iteration over the ground layer stays there and ends after its last tile", last ? it == r.end() : it != r.end() && Z(*it) == 0);
        }
    }
}
FV_PROOF(dims_offset) { dims<ucoord>(); }
FV_PROOF(dims_cube) { dims<cs::cube>(); }
FV_PROOF(dims_siqad) { dims<sqd>(); }
FV_PROOF(neighbours_offset) { neighbours<ucoord>(); }
FV_PROOF(neighbours_cube) { neighbours<cs::cube>(); }
FV_PROOF(neighbours_siqad) { neighbours<sqd>(); }
FV_PROOF(predicates_offset) { predicates<ucoord>(); }
FV_PROOF(predicates_cube) { predicates<cs::cube>(); }
FV_PROOF(predicates_siqad) { predicates<sqd>(); }
FV_PROOF(borders_offset) { borders<ucoord>(); }
FV_PROOF(borders_cube) { borders<cs::cube>(); }
FV_PROOF(borders_siqad) { borders<sqd>(); }
FV_PROOF(enumeration_offset) { enumeration<ucoord>(); }
FV_PROOF(enumeration_cube) { enumeration<cs::cube>(); }
FV_PROOF(enumeration_siqad) { enumeration<sqd>(); }
FV_PROOF(iteration_offset) { iteration<ucoord>(); }
FV_PROOF(iteration_cube) { iteration<cs::cube>(); }
FV_PROOF(iteration_siqad) { iteration<sqd>(); }

// ---- shifted Cartesian layouts: rows or columns are displaced by half a tile
template <class S, class A>
static void shifted(int p)
{
    const auto l = hg::any_layout<shifted_cartesian_layout<ucoord, S>>();
    const auto c = hg::parity_tile<A>(p, "x", "y", "z", l.x(), l.y(), l.z());
    const i64  MX = l.x(), MY = l.y(), x = X(c), y = Y(c), z = Z(c);
    for (int k = 0; k < 6; ++k)
    {
        const auto s    = hg::spec_step<A>(k, p, x, y);
        const bool here = s.x >= 0 && s.y >= 0 && s.x <= MX && s.y <= MY;
        CHECKN("a step leads to the neighbour inside the layout and stays put at the border", is(hg::code_step<A>(l, k, c), here ? s.x : x, here ? s.y : y, z));
    }
    CHECK(is(l.north(c), x, y > 0 ? y - 1 : y, z) && is(l.south(c), x, y < MY ? y + 1 : y, z));
    CHECK(is(l.west(c), x > 0 ? x - 1 : x, y, z) && is(l.east(c), x < MX ? x + 1 : x, y, z));
    CHECK(is(l.above(c), x, y, z < static_cast<i64>(l.z()) ? z + 1 : z) && is(l.below(c), x, y, z > 0 ? z - 1 : z));
    border_contract(l, hg::any_tile("ox", "oy", "oz", hg::MAXD, hg::MAXD, 1), MX, MY, l.z());
}
template <class S, class A>
static void any_parity()
{
    const bool p = fv::any<bool>("parity");
    if (p) shifted<S, A>(1);
    else shifted<S, A>(0);
}
FV_PROOF(shifted_odd_row) { any_parity<odd_row_cartesian, odd_row_hex>(); }
FV_PROOF(shifted_even_row) { any_parity<even_row_cartesian, even_row_hex>(); }
FV_PROOF(shifted_odd_column) { any_parity<odd_column_cartesian, odd_column_hex>(); }
FV_PROOF(shifted_even_column) { any_parity<even_column_cartesian, even_column_hex>(); }
