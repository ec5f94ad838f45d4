// C17 positions and distances of dangling bonds
#include "fv.hpp"
#include "coords.hpp"
#include <fiction/layouts/cartesian_layout.hpp>
#include <fiction/layouts/cell_level_layout.hpp>
#include <fiction/layouts/clocked_layout.hpp>
#include <fiction/technology/cell_technologies.hpp>
#include <fiction/technology/sidb_lattice.hpp>
#include <fiction/technology/sidb_lattice_orientations.hpp>
#include <fiction/technology/sidb_nm_distance.hpp>
#include <fiction/technology/sidb_nm_position.hpp>
#include <cmath>
//FV: shim = .
//FV: pipe = inline
//FV: trust = phmap's hash maps and sets are replaced by a stand-in with their mathematical meaning; no proof here depends on their contents
//FV: trust = std::hypot: depends on the magnitudes of its arguments only and is symmetric (C11 F.10.4.3); otherwise uninterpreted
using namespace fiction;
using namespace cs;
using qube = cs::cube;

template <class C>
using plain = cell_level_layout<sidb_technology, clocked_layout<cartesian_layout<C>>>;
template <class O, class C>
using lattice = sidb_lattice<O, plain<C>>;
template <class L>
struct orient
{
    using type = sidb_100_lattice;
};
template <class O, class C>
struct orient<sidb_lattice<O, plain<C>>>
{
    using type = O;
};
// equality, natively up to rounding, so that another order of the operations is not reported
static bool eq(double a, double b)
{
#ifdef FV_SYMBOLIC
    return fv::same(a, b);
#else
    return std::abs(a - b) <= 1e-12 * (1.0 + std::abs(a) + std::abs(b));
#endif
}
// the lattice constants in Angstrom, written down from the literature the headers quote
template <class O>
struct geometry;
template <>
struct geometry<sidb_100_lattice>
{
    static constexpr double a = 3.84, b = 7.68, cx = 0.0, cy = 2.25;
};
template <>
struct geometry<sidb_111_lattice>
{
    static constexpr double a = 6.65, b = 3.84, cx = 3.3255, cy = 1.92;
};
// column, dimer row and dimer of a site in either coordinate system
template <class C>
struct site
{
    int64_t x, y, z;
};
template <class C>
static site<C> site_of(const C& c)
{
    if constexpr (std::is_same_v<C, sqd>) return {c.x, c.y, c.z};
    else
    {
        const auto    y = static_cast<int64_t>(c.y);
        const int64_t f = y >= 0 ? y / 2 : -((-y + 1) / 2);  // floor
        return {static_cast<int64_t>(c.x), f, y - 2 * f};
    }
}
template <class L, class C>
static void position(const L& l, const C& c)
{
    using G      = geometry<typename orient<L>::type>;
    const auto s = site_of(c);
    const auto p = sidb_nm_position<L>(l, c);
    CHECKN("the horizontal position", eq(p.first, (static_cast<double>(static_cast<int32_t>(s.x)) * G::a + static_cast<double>(static_cast<int32_t>(s.z)) * G::cx) * 0.1));
    CHECKN("the vertical position", eq(p.second, (static_cast<double>(static_cast<int32_t>(s.y)) * G::b + static_cast<double>(static_cast<int32_t>(s.z)) * G::cy) * 0.1));
}
#ifdef FV_SYMBOLIC
#define SITE(n) LIVE(C, n)
#else
#define SITE(n) small<C>(#n)
template <class C>
static C small(const char* n)
{
    const auto v = fv::any_in<uint32_t>(n, 0, (1u << 16) - 1);
    const int  o = std::is_unsigned_v<decltype(C{}.x)> || std::is_same_v<C, ucoord> ? 0 : 60;
    return C{static_cast<int>(v & 127) - o, static_cast<int>((v >> 7) & 127) - o, std::is_same_v<C, sqd> ? static_cast<int>((v >> 14) & 1) : 0};
}
#endif
template <class C>
static bool ground(const C& c)
{
    if constexpr (std::is_same_v<C, sqd>) return true;
    else return c.z == 0;
}
template <class L, class C>
static void positions()
{
    const L l{BOX(C, ar)};
    const C c = SITE(c);
    ASSUME(ground(c));
    position(l, c);
}
FV_PROOF(position_siqad_100) { positions<lattice<sidb_100_lattice, sqd>, sqd>(); }
FV_PROOF(position_siqad_111) { positions<lattice<sidb_111_lattice, sqd>, sqd>(); }
FV_PROOF(position_siqad_plain) { positions<plain<sqd>, sqd>(); }
FV_PROOF(position_cube_100) { positions<lattice<sidb_100_lattice, qube>, qube>(); }
FV_PROOF(position_cube_111) { positions<lattice<sidb_111_lattice, qube>, qube>(); }
FV_PROOF(position_cube_plain) { positions<plain<qube>, qube>(); }
FV_PROOF(position_offset_100) { positions<lattice<sidb_100_lattice, ucoord>, ucoord>(); }
FV_PROOF(position_offset_111) { positions<lattice<sidb_111_lattice, ucoord>, ucoord>(); }
FV_PROOF(position_offset_plain) { positions<plain<ucoord>, ucoord>(); }

template <class L, class C>
static void distances()
{
    const L      l{BOX(C, ar)};
    const C      a = SITE(a), b = SITE(b);
    ASSUME(ground(a) && ground(b));
    const auto   p = sidb_nm_position<L>(l, a), q = sidb_nm_position<L>(l, b);
    const double d = sidb_nm_distance<L>(l, a, b);
    if (same(a, b)) CHECKN("zero for identical sites", d == 0.0);
    else CHECKN("the length of the line between the positions", eq(d, std::hypot(p.first - q.first, p.second - q.second)));
    CHECKN("symmetric", eq(sidb_nm_distance<L>(l, b, a), d));
}
FV_PROOF(distance_siqad_100) { distances<lattice<sidb_100_lattice, sqd>, sqd>(); }
FV_PROOF(distance_siqad_111) { distances<lattice<sidb_111_lattice, sqd>, sqd>(); }
FV_PROOF(distance_siqad_plain) { distances<plain<sqd>, sqd>(); }
FV_PROOF(distance_cube_100) { distances<lattice<sidb_100_lattice, qube>, qube>(); }
FV_PROOF(distance_cube_111) { distances<lattice<sidb_111_lattice, qube>, qube>(); }
FV_PROOF(distance_cube_plain) { distances<plain<qube>, qube>(); }
FV_PROOF(distance_offset_111) { distances<lattice<sidb_111_lattice, ucoord>, ucoord>(); }

// different sites lie at different positions
template <class L, class C>
static void distinct(int32_t n)
{
    const L    l{BOX(C, ar)};
    const C    a = SITE(a), b = SITE(b);
    ASSUME(ground(a) && ground(b) && !same(a, b));
    ASSUME(X(a) >= -n && X(a) < n && Y(a) >= -n && Y(a) < n);
    ASSUME(X(b) >= -n && X(b) < n && Y(b) >= -n && Y(b) < n);
    const auto p = sidb_nm_position<L>(l, a), q = sidb_nm_position<L>(l, b);
    CHECKN("different sites have different positions", !(p.first == q.first && p.second == q.second));
}
//FV: fp@distinct_100 = fp
//FV: fp@distinct_111 = fp
//FV: bounded@distinct_100 = columns and dimer rows in [-256, 256)
//FV: bounded@distinct_111 = columns and dimer rows in [-256, 256)
FV_PROOF(distinct_100) { distinct<lattice<sidb_100_lattice, sqd>, sqd>(1 << 8); }
FV_PROOF(distinct_111) { distinct<lattice<sidb_111_lattice, sqd>, sqd>(1 << 8); }
