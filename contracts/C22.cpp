// C22 obstruction bookkeeping: one arbitrary operation on a layout with arbitrary obstructions
#include "fv.hpp"
#include "coords.hpp"
#include <fiction/layouts/cartesian_layout.hpp>
#include <fiction/layouts/cell_level_layout.hpp>
#include <fiction/layouts/clocked_layout.hpp>
#include <fiction/layouts/hexagonal_layout.hpp>
#include <fiction/layouts/obstruction_layout.hpp>
#include <fiction/technology/cell_technologies.hpp>
//FV: shim = .
//FV: pipe = inline
//FV: cxx = -fno-access-control
//FV: trust = phmap's hash maps and sets are replaced by a stand-in with their mathematical meaning; that the keys' hashes respect equality is C02 and C26
using namespace fiction;
using namespace cs;
using qube = cs::cube;

template <class C>
using plain = obstruction_layout<cartesian_layout<C>>;

// a layout in which anything may be obstructed already: every history leads to one of these
template <class C>
static void marked(plain<C>& l)
{
#ifdef FV_SYMBOLIC
    l.obstr_strg->obstructed_coordinates.fv_arbitrary(1);
    l.obstr_strg->obstructed_connections.fv_arbitrary(2);
#else
    // natively a short history over a small box, so that coordinates coincide
    for (uint32_t k = 0; k < 6; ++k)
    {
        const auto v = fv::any_in<uint32_t>(("h" + std::to_string(k)).c_str(), 0, 63);
        C          p{static_cast<decltype(C{}.x)>(v & 1), static_cast<decltype(C{}.y)>((v >> 1) & 1), 0}, q{static_cast<decltype(C{}.x)>((v >> 2) & 1), static_cast<decltype(C{}.y)>((v >> 3) & 1), 0};
        if (((v >> 4) & 3) == 1) l.obstruct_coordinate(p);
        if (((v >> 4) & 3) == 2) l.obstruct_connection(p, q);
        if (((v >> 4) & 3) == 3) l.obstruct_connection(q, p);
    }
#endif
}
#ifdef FV_SYMBOLIC
#define TILE(n) LIVE(C, n)
#else
#define TILE(n) small<C>(#n)
template <class C>
static C small(const char* n)
{
    const auto v = fv::any_in<uint32_t>(n, 0, 3);
    return C{static_cast<decltype(C{}.x)>(v & 1), static_cast<decltype(C{}.y)>((v >> 1) & 1), 0};
}
#endif
template <class C>
static void coordinates()
{
    plain<C> l{cartesian_layout<C>{BOX(C, ar)}};
    marked<C>(l);
    const C    a = TILE(a), b = TILE(b), s = TILE(s), t = TILE(t);
    const bool ob = l.is_obstructed_coordinate(b), oc = l.is_obstructed_connection(s, t);
    l.obstruct_coordinate(a);
    CHECKN("a coordinate is obstructed once it has been obstructed", l.is_obstructed_coordinate(a));
    if (!(a == b)) CHECKN("obstructing a coordinate changes no other", l.is_obstructed_coordinate(b) == ob);
    CHECKN("obstructing a coordinate changes no connection", l.is_obstructed_connection(s, t) == oc);
    l.obstruct_coordinate(a);
    l.clear_obstructed_coordinate(a);
    CHECKN("clearing undoes obstructing, however often", !l.is_obstructed_coordinate(a));
    if (!(a == b)) CHECKN("clearing a coordinate changes no other", l.is_obstructed_coordinate(b) == ob);
    CHECKN("clearing a coordinate changes no connection", l.is_obstructed_connection(s, t) == oc);
    l.obstruct_coordinate(b);
    l.clear_obstructed_coordinates();
    CHECKN("clearing all coordinates clears each", !l.is_obstructed_coordinate(b) && !l.is_obstructed_coordinate(a));
    CHECKN("clearing all coordinates changes no connection", l.is_obstructed_connection(s, t) == oc);
    l.obstruct_coordinate(a);
    CHECKN("coordinates can be obstructed again", l.is_obstructed_coordinate(a));
}
FV_PROOF(coordinates_offset) { coordinates<ucoord>(); }
FV_PROOF(coordinates_cube) { coordinates<qube>(); }
FV_PROOF(coordinates_siqad) { coordinates<sqd>(); }

template <class C>
static void connections()
{
    plain<C> l{cartesian_layout<C>{BOX(C, ar)}};
    marked<C>(l);
    const C    a = TILE(a), b = TILE(b), s = TILE(s), t = TILE(t), c = TILE(c);
    const bool other = !(a == s) || !(b == t);
    const bool oc = l.is_obstructed_connection(s, t), oo = l.is_obstructed_coordinate(c);
    l.obstruct_connection(a, b);
    CHECKN("a connection is obstructed once it has been obstructed", l.is_obstructed_connection(a, b));
    if (other) CHECKN("obstructing a connection changes no other, the opposite direction included", l.is_obstructed_connection(s, t) == oc);
    CHECKN("obstructing a connection changes no coordinate", l.is_obstructed_coordinate(c) == oo);
    l.obstruct_connection(a, b);
    l.clear_obstructed_connection(a, b);
    CHECKN("clearing undoes obstructing, however often", !l.is_obstructed_connection(a, b));
    if (other) CHECKN("clearing a connection changes no other, the opposite direction included", l.is_obstructed_connection(s, t) == oc);
    CHECKN("clearing a connection changes no coordinate", l.is_obstructed_coordinate(c) == oo);
    l.obstruct_connection(s, t);
    l.clear_obstructed_connections();
    CHECKN("clearing all connections clears each", !l.is_obstructed_connection(s, t) && !l.is_obstructed_connection(a, b));
    CHECKN("clearing all connections changes no coordinate", l.is_obstructed_coordinate(c) == oo);
}
FV_PROOF(connections_offset) { connections<ucoord>(); }
FV_PROOF(connections_cube) { connections<qube>(); }
FV_PROOF(connections_siqad) { connections<sqd>(); }

// nothing is obstructed in a layout nothing has been done to
template <class L, class C>
static void fresh()
{
    const L l{};
    const C a = TILE(a), b = TILE(b);
    CHECKN("nothing is obstructed at first", !l.is_obstructed_coordinate(a) && !l.is_obstructed_connection(a, b));
}
FV_PROOF(fresh_offset) { fresh<plain<ucoord>, ucoord>(); }
FV_PROOF(fresh_hexagonal) { fresh<obstruction_layout<hexagonal_layout<ucoord, even_row_hex>>, ucoord>(); }

// on top of cells
using cells = cell_level_layout<qca_technology, clocked_layout<cartesian_layout<ucoord>>>;
FV_PROOF(cells_obstruct)
{
    using C = ucoord;
    cells      base{ucoord{1, 1}};
    const auto p = TILE(p), a = TILE(a), b = TILE(b), c = TILE(c);
    const auto ty = fv::any<qca_technology::cell_type>("ty");
#ifdef FV_SYMBOLIC
    base.strg->cell_type_map.fv_arbitrary(3);
#endif
    base.assign_cell_type(p, ty);
    obstruction_layout<cells> l{base};
#ifdef FV_SYMBOLIC
    l.obstr_strg->obstructed_coordinates.fv_arbitrary(1);
    l.obstr_strg->obstructed_connections.fv_arbitrary(2);
#endif
    const bool ob = l.is_obstructed_coordinate(b), oc = l.is_obstructed_connection(a, b);
    const bool cell = base.get_cell_type(a) != qca_technology::cell_type::EMPTY;
    if (cell) CHECKN("cells obstruct their coordinates", l.is_obstructed_coordinate(a));
    l.clear_obstructed_coordinate(a);
    CHECKN("what is not marked is obstructed exactly if there is a cell", l.is_obstructed_coordinate(a) == cell);
    if (!(a == b)) CHECKN("clearing changes no other coordinate", l.is_obstructed_coordinate(b) == ob);
    CHECKN("clearing leaves the cell", (l.get_cell_type(a) != qca_technology::cell_type::EMPTY) == cell);
    l.obstruct_coordinate(c);
    CHECKN("marking obstructs, cell or not", l.is_obstructed_coordinate(c));
    CHECKN("connections between cells are not obstructed by them", l.is_obstructed_connection(a, b) == oc);
    l.clear_obstructed_coordinates();
    CHECKN("only cells obstruct once everything is cleared", l.is_obstructed_coordinate(a) == cell);
}
// a layout that knows about obstructions already is left as it is
FV_PROOF(layered_twice)
{
    using C = ucoord;
    plain<ucoord> l{cartesian_layout<ucoord>{BOX(ucoord, ar)}};
    marked<ucoord>(l);
    const auto                              a = TILE(a), b = TILE(b);
    const obstruction_layout<plain<ucoord>> m{l};
    CHECKN("obstructions are those of the layout below", m.is_obstructed_coordinate(a) == l.is_obstructed_coordinate(a) && m.is_obstructed_connection(a, b) == l.is_obstructed_connection(a, b));
}
