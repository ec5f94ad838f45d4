// C06 hexagonal layouts: offset/cube conversion and neighbourhood
#include "fv.hpp"
#include <fiction/layouts/coordinates.hpp>
#include <fiction/layouts/hexagonal_layout.hpp>
#include "hexgrid.hpp"
#include <vector>
//FV: shim = .
//FV: pipe = inline
//FV: trust = mockturtle::detail::foreach_element is replaced by a stand-in with its documented meaning
//FV: assume = layouts have at most 2^30 columns and rows (beyond that, cube coordinates overflow 32 bits)
using namespace fiction;
using namespace hg;

template <class A>
using hex = hexagonal_layout<oc, A>;
template <class A>
static void conversion()
{
    const hex<A> l{oc{1, 1}};
    const auto   c  = any_tile("x", "y", "z", MAXD, MAXD, 0);
    const auto   q  = l.to_cube_coordinate(c);
    CHECKN("cube components sum to zero", int64_t{q.x} + int64_t{q.y} + int64_t{q.z} == 0);
    const auto b = l.to_offset_coordinate(q);
    CHECKN("converting back returns the original", b.x == c.x && b.y == c.y && b.z == 0);
    CHECK(!b.is_dead() && !q.is_dead());
    const auto d = any_tile("x2", "y2", "z2", MAXD, MAXD, 0);
    const auto r = l.to_cube_coordinate(d);
    if (!(c == d)) CHECKN("different tiles have different cube coordinates", !(q == r));
    // every cube coordinate of a tile comes from that tile
    const auto e = l.to_cube_coordinate(l.to_offset_coordinate(r));
    CHECK(e == r);
}
FV_PROOF(conversion_odd_row) { conversion<odd_row_hex>(); }
FV_PROOF(conversion_even_row) { conversion<even_row_hex>(); }
FV_PROOF(conversion_odd_column) { conversion<odd_column_hex>(); }
FV_PROOF(conversion_even_column) { conversion<even_column_hex>(); }

// 1: the real neighbour functions are the closed form inside the layout and the identity at its borders
template <class A>
static void steps(int p)
{
    const auto l = any_layout<hex<A>>();
    const auto c = parity_tile<A>(p, "x", "y", "z", l.x(), l.y(), l.z());
    const auto o = any_tile("x2", "y2", "z2", l.x(), l.y(), l.z());
    bool       some = false;
    unsigned   want = 0;
    for (int k = 0; k < 6; ++k)
    {
        const auto s    = spec_step<A>(k, p, c.x, c.y);
        const bool here = s.x >= 0 && s.y >= 0 && s.x <= static_cast<int64_t>(l.x()) && s.y <= static_cast<int64_t>(l.y());
        const auto n    = code_step<A>(l, k, c);
        CHECKN("a step leads to the neighbour inside the layout and stays put at the border", !n.is_dead() && n.z == c.z && (here ? static_cast<int64_t>(n.x) == s.x && static_cast<int64_t>(n.y) == s.y : n.x == c.x && n.y == c.y));
        some = some || (here && static_cast<int64_t>(o.x) == s.x && static_cast<int64_t>(o.y) == s.y && o.z == c.z);
        want += here ? 1 : 0;
    }
    bool     found = false;
    unsigned count = 0;
    l.foreach_adjacent_coordinate(c,
                                  [&](const auto& a)
                                  {
                                      found = found || a == o;
                                      ++count;
                                  });
    CHECKN("exactly the neighbours inside the layout are enumerated", found == some && count == want);
    CHECKN("adjacency is being a neighbour", l.is_adjacent_of(c, o) == some);
    if constexpr (std::is_same_v<A, odd_row_hex>)
        CHECKN("adjacency of elevations is adjacency in the same or a neighbouring layer", l.is_adjacent_elevation_of(c, o) == (l.is_adjacent_of(c, o) || l.is_adjacent_of(l.above(c), o) || l.is_adjacent_of(l.below(c), o)));
    CHECK(l.adjacent_coordinates(c).size() == want);
}
// 2: cube coordinates in closed form
template <class A>
static void cubes(int p)
{
    const hex<A>  l{oc{1, 1}};
    const auto    c = parity_tile<A>(p, "x", "y", "z", MAXD, MAXD, 1);
    const auto    q = l.to_cube_coordinate(c);
    const int64_t x = c.x, y = c.y, up = odd<A> ? 0 : p;
    if constexpr (pointy<A>) CHECKN("cube coordinates in closed form", q.x == x - (y - p) / 2 - up && q.z == y && q.y == -x + (y - p) / 2 + up - y);
    else CHECKN("cube coordinates in closed form", q.x == x && q.z == y - (x - p) / 2 - up && q.y == -x - y + (x - p) / 2 + up);
    const auto b = l.to_offset_coordinate(q);
    CHECK(b.x == c.x && b.y == c.y);
}
// 3: in the closed form, the neighbours are the tiles at cube distance one, and stepping is mutual
template <class A>
static void geometry(int p, int r)
{
    const auto h = fv::any_in<int64_t>("h", 0, MAXD / 2), k = fv::any_in<int64_t>("k", 0, MAXD / 2);
    const auto u = fv::any_in<int64_t>("u", 0, MAXD), v = fv::any_in<int64_t>("v", 0, MAXD);
    // tiles (u, 2h+p) and (v, 2k+r), or with rows and columns exchanged
    const int64_t y1 = 2 * h + p, y2 = 2 * k + r, e1 = u - h - (odd<A> ? 0 : p), e2 = v - k - (odd<A> ? 0 : r);
    const int64_t d1 = e2 - e1, d2 = y2 - y1, d3 = -d1 - d2;
    const bool    one = d1 >= -1 && d1 <= 1 && d2 >= -1 && d2 <= 1 && d3 >= -1 && d3 <= 1 && (d1 != 0 || d2 != 0);
    bool          some = false;
    for (int j = 0; j < 6; ++j)
    {
        const auto s   = pointy<A> ? spec_step<A>(j, p, u, y1) : spec_step<A>(j, p, y1, u);
        const bool hit = pointy<A> ? s.x == v && s.y == y2 : s.x == y2 && s.y == v;
        some           = some || hit;
        if (hit)
        {
            const auto back = pointy<A> ? spec_step<A>(j ^ 1, r, v, y2) : spec_step<A>(j ^ 1, r, y2, v);
            CHECKN("the opposite step leads back", pointy<A> ? back.x == u && back.y == y1 : back.x == y1 && back.y == u);
        }
    }
    CHECKN("the neighbours are the tiles at cube distance one", some == one);
}
#define BOTH(f, A)                                   \
    const bool p = fv::any<bool>("parity");          \
    if (p) f<A>(1);                                  \
    else f<A>(0)
FV_PROOF(steps_odd_row) { BOTH(steps, odd_row_hex); }
FV_PROOF(steps_even_row) { BOTH(steps, even_row_hex); }
FV_PROOF(steps_odd_column) { BOTH(steps, odd_column_hex); }
FV_PROOF(steps_even_column) { BOTH(steps, even_column_hex); }
FV_PROOF(cubes_odd_row) { BOTH(cubes, odd_row_hex); }
FV_PROOF(cubes_even_row) { BOTH(cubes, even_row_hex); }
FV_PROOF(cubes_odd_column) { BOTH(cubes, odd_column_hex); }
FV_PROOF(cubes_even_column) { BOTH(cubes, even_column_hex); }
template <class A>
static void geometry_all()
{
    const auto p = fv::any_in<uint8_t>("parities", 0, 3);
    if (p == 0) geometry<A>(0, 0);
    else if (p == 1) geometry<A>(0, 1);
    else if (p == 2) geometry<A>(1, 0);
    else geometry<A>(1, 1);
}
FV_PROOF(geometry_odd_row) { geometry_all<odd_row_hex>(); }
FV_PROOF(geometry_even_row) { geometry_all<even_row_hex>(); }
FV_PROOF(geometry_odd_column) { geometry_all<odd_column_hex>(); }
FV_PROOF(geometry_even_column) { geometry_all<even_column_hex>(); }

template <class A>
static void opposite()
{
    const auto     l = any_layout<hex<A>>();
    const auto     c = any_tile("x", "y", "z", l.x(), l.y(), l.z());
    oc             n[6];
    for (int k = 0; k < 6; ++k) n[k] = code_step<A>(l, k, c);
    unsigned       want = 0, seen = 0;
    for (int k = 0; k < 6; k += 2) want += !(n[k] == c) && !(n[k + 1] == c) ? 1 : 0;
    l.foreach_adjacent_opposite_coordinates(c,
                                            [&](const auto& p)
                                            {
                                                bool ok = false;
                                                for (int k = 0; k < 6; k += 2) ok = ok || (p.first == n[k] && p.second == n[k + 1]);
                                                CHECKN("opposite pairs are a direction and its opposite", ok);
                                                CHECK(!(p.first == c) && !(p.second == c));
                                                ++seen;
                                            });
    CHECKN("every pair of opposite neighbours is enumerated once", seen == want);
}
FV_PROOF(opposite_odd_row) { opposite<odd_row_hex>(); }
FV_PROOF(opposite_even_row) { opposite<even_row_hex>(); }
FV_PROOF(opposite_odd_column) { opposite<odd_column_hex>(); }
FV_PROOF(opposite_even_column) { opposite<even_column_hex>(); }

// layers: adjacency across layers means a neighbour in the same layer or in the one above or below
template <class A>
static void elevation()
{
    const auto l = any_layout<hex<A>>();
    const auto c = any_tile("x", "y", "z", l.x(), l.y(), l.z());
    const auto o = any_tile("x2", "y2", "z2", l.x(), l.y(), l.z());
    const auto a = l.above(c), b = l.below(c);
    CHECKN("above and below change only the layer", a.x == c.x && a.y == c.y && b.x == c.x && b.y == c.y && a.z == (c.z < l.z() ? c.z + 1 : c.z) && b.z == (c.z > 0 ? c.z - 1 : 0) && !a.is_dead() && !b.is_dead());
    CHECK(l.is_above(c, o) == (o.x == c.x && o.y == c.y && o.z == c.z + 1u));
    CHECK(l.is_below(c, o) == (o.x == c.x && o.y == c.y && o.z + 1u == c.z));
}
FV_PROOF(elevation_even_row) { elevation<even_row_hex>(); }
FV_PROOF(elevation_odd_column) { elevation<odd_column_hex>(); }
