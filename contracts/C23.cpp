// C23 cell-level layouts: one arbitrary operation on a layout with arbitrary contents
#include "fv.hpp"
#include "coords.hpp"
#include <fiction/layouts/cartesian_layout.hpp>
#include <fiction/layouts/cell_level_layout.hpp>
#include <fiction/layouts/clocked_layout.hpp>
#include <fiction/technology/cell_technologies.hpp>
#include <string>
#include <vector>
//FV: shim = .
//FV: pipe = inline
//FV: cxx = -fno-access-control
//FV: trust = phmap's hash maps and sets are replaced by a stand-in with their mathematical meaning; that the keys' hashes respect equality is C02
//FV: trust = mockturtle::detail::foreach_element_transform is replaced by a stand-in with its documented meaning
//FV: loop@member_inputs = std::ranges::__find_fn::operator\(\)< ## 0:find
//FV: loop@member_outputs = std::ranges::__find_fn::operator\(\)< ## 0:find
using namespace fiction;
using namespace cs;
using qube = cs::cube;

template <class Tech, class C>
using cells = cell_level_layout<Tech, clocked_layout<cartesian_layout<C>>>;
using qca   = qca_technology;

// ---- values stored in an arbitrary layout
template <class T>
constexpr bool is_type_v = std::is_same_v<T, qca::cell_type> || std::is_same_v<T, mol_qca_technology::cell_type> || std::is_same_v<T, inml_technology::cell_type> || std::is_same_v<T, sidb_technology::cell_type>;
namespace phmap
{
template <class T>
    requires is_type_v<T>
struct fv_admit<T>
{
    static void assume(const T& t) { ASSUME(t != T::EMPTY); }  // empty cells are not stored
};
template <class T>
struct fv_value<T, std::enable_if_t<std::is_empty_v<T>>>
{
    static T make(uint64_t, uint64_t, uint64_t, uint64_t) { return {}; }
};
template <>
struct fv_value<std::string>
{
    static std::string make(uint64_t id, uint64_t a, uint64_t b, uint64_t c) { return std::string(1, static_cast<char>(__fv_uf4("fvname", id, a, b, c))); }
};
}  // namespace phmap
// a layout with any contents: every history leads to one of these
template <class L>
static void filled(L& l, uint64_t id = 10)
{
#ifdef FV_SYMBOLIC
    l.strg->cell_type_map.fv_arbitrary(id);
    l.strg->cell_mode_map.fv_arbitrary(id + 1);
    l.strg->cell_name_map.fv_arbitrary(id + 2);
    l.strg->inputs.fv_arbitrary(id + 3);
    l.strg->outputs.fv_arbitrary(id + 4);
#else
    using tech = typename L::technology;
    static constexpr typename tech::cell_type T[4]{tech::cell_type::EMPTY, tech::cell_type::INPUT, tech::cell_type::OUTPUT, static_cast<typename tech::cell_type>(120)};
    for (uint32_t k = 0; k < 6; ++k)
    {
        const auto                     v = fv::any_in<uint32_t>(("h" + std::to_string(k)).c_str(), 0, 255);
        const typename L::cell p{static_cast<int>(v & 1), static_cast<int>((v >> 1) & 1), 0};
        l.assign_cell_type(p, T[(v >> 2) & 3]);
        if constexpr (std::is_enum_v<typename tech::cell_mode>) l.assign_cell_mode(p, static_cast<typename tech::cell_mode>((v >> 4) & 3));
        l.assign_cell_name(p, ((v >> 6) & 1) != 0 ? "n" : "m");
    }
#endif
}
template <class L, class C>
static bool in(const L& l, const C& c)
{
    return l.strg->inputs.contains(c);
}
template <class L, class C>
static bool out(const L& l, const C& c)
{
    return l.strg->outputs.contains(c);
}
// the invariant at a position: inputs and outputs are the cells of these types
template <class L, class C>
static bool consistent(const L& l, const C& c)
{
    using type = typename L::cell_type;
    return in(l, c) == (l.get_cell_type(c) == type::INPUT) && out(l, c) == (l.get_cell_type(c) == type::OUTPUT);
}
#ifdef FV_SYMBOLIC
#define TILE(n) LIVE(C, n)
#else
#define TILE(n) small<C>(#n)
template <class C>
static C small(const char* n)
{
    const auto v = fv::any_in<uint32_t>(n, 0, 3);
    return C{static_cast<int>(v & 1), static_cast<int>((v >> 1) & 1), 0};
}
#endif
// ---- types
template <class Tech, class C>
static void types()
{
    using L    = cells<Tech, C>;
    using type = typename Tech::cell_type;
    L l{BOX(C, ar)};
    filled(l);
    const C a = TILE(a), b = TILE(b);
    ASSUME(consistent(l, a) && consistent(l, b));
    const auto ty = fv::any<type>("type"), tz = fv::any<type>("type2");
    const auto tb = l.get_cell_type(b);
    l.assign_cell_type(a, ty);
    CHECKN("empty cells are not stored", !l.strg->cell_type_map.contains(a) || ty != type::EMPTY);
    CHECKN("reading a cell returns the type assigned", l.get_cell_type(a) == ty);
    CHECKN("a cell is empty exactly if its type is", l.is_empty_cell(a) == (ty == type::EMPTY));
    CHECKN("inputs and outputs are the cells of these types", consistent(l, a));
    if (!(a == b))
    {
        CHECKN("assigning a type changes no other cell", l.get_cell_type(b) == tb);
        CHECKN("assigning a type changes no other input or output", consistent(l, b));
    }
    l.assign_cell_type(a, tz);
    CHECKN("the type assigned last counts", l.get_cell_type(a) == tz);
    CHECKN("inputs and outputs follow reassignment", consistent(l, a));
}
FV_PROOF(types_qca_offset) { types<qca, ucoord>(); }
FV_PROOF(types_qca_cube) { types<qca, qube>(); }
FV_PROOF(types_mol_qca) { types<mol_qca_technology, ucoord>(); }
FV_PROOF(types_inml) { types<inml_technology, ucoord>(); }
FV_PROOF(types_sidb_siqad) { types<sidb_technology, sqd>(); }

// ---- modes
template <class Tech, class C>
static void modes()
{
    using L    = cells<Tech, C>;
    using type = typename Tech::cell_type;
    using mode = typename Tech::cell_mode;
    L l{BOX(C, ar)};
    filled(l);
    const C    a = TILE(a), b = TILE(b);
    const auto m = fv::any<mode>("mode"), mb = l.get_cell_mode(b);
    const auto ta = l.get_cell_type(a), tb = l.get_cell_type(b);
    l.assign_cell_mode(a, m);
    CHECKN("reading a cell returns the mode assigned", l.get_cell_mode(a) == m);
    if (!(a == b)) CHECKN("assigning a mode changes no other", l.get_cell_mode(b) == mb);
    CHECKN("assigning a mode changes no type", l.get_cell_type(a) == ta && l.get_cell_type(b) == tb);
    const auto ty = fv::any<type>("type");
    l.assign_cell_type(a, ty);
    if (ty != type::EMPTY) CHECKN("assigning a type that is not empty leaves the mode", l.get_cell_mode(a) == m);
    else CHECKN("removing a cell removes its mode", l.get_cell_mode(a) == mode::NORMAL);
    if (!(a == b)) CHECKN("assigning a type changes no other mode", l.get_cell_mode(b) == mb);
}
FV_PROOF(modes_qca) { modes<qca, ucoord>(); }
FV_PROOF(modes_mol_qca) { modes<mol_qca_technology, ucoord>(); }

// ---- names
//FV: bounded@names_others = histories of at most four assignments
//FV: bounded@names_same = histories of at most four assignments
//FV: bounded@names_siqad = histories of at most four assignments
template <class C>
static void names_others()
{
    cells<qca, C> l{BOX(C, ar)};
    const C       a = LIVE(C, a), b = LIVE(C, b), c = LIVE(C, c);
    ASSUME(!(a == b) && !(a == c) && !(b == c));
    const std::string x(1, fv::any<char>("x")), y(3, fv::any<char>("y"));
    l.assign_cell_name(a, x);
    CHECKN("the name assigned is returned", l.get_cell_name(a) == x);
    CHECKN("a cell that was not named has no name", l.get_cell_name(b).empty());
    l.assign_cell_name(b, y);
    CHECKN("naming a cell changes no other name", l.get_cell_name(a) == x && l.get_cell_name(b) == y && l.get_cell_name(c).empty());
    l.assign_cell_name(a, "");
    CHECKN("the empty name removes the name of that cell only", l.get_cell_name(a).empty() && l.get_cell_name(b) == y);
    CHECKN("names change no type", l.is_empty_cell(a) && l.is_empty_cell(b));
    l.assign_cell_type(c, fv::any<qca::cell_type>("type"));
    CHECKN("assigning a type changes no name of another cell", l.get_cell_name(a).empty() && l.get_cell_name(b) == y);
    auto k = l.clone();
    CHECKN("a clone has the same names", k.get_cell_name(b) == y && k.get_cell_name(a).empty());
    k.assign_cell_name(b, x);
    CHECKN("naming a cell of a clone leaves the original alone", l.get_cell_name(b) == y && k.get_cell_name(b) == x);
}
FV_PROOF(names_others) { names_others<ucoord>(); }
FV_PROOF(names_siqad) { names_others<sqd>(); }
FV_PROOF(names_same)
{
    cells<qca, ucoord> l{BOX(ucoord, ar)};
    const auto         a = LIVE(ucoord, a);
    const std::string  x(1, fv::any<char>("x")), y(3, fv::any<char>("y"));
    l.assign_cell_name(a, x);
    l.assign_cell_name(a, y);
    CHECKN("the name assigned last counts", l.get_cell_name(a) == y);
    l.assign_cell_name(a, "");
    l.assign_cell_name(a, "");
    CHECKN("the empty name removes the name", l.get_cell_name(a).empty());
    l.assign_cell_name(a, "a longer name than fits in place");
    CHECKN("a cell can be named again", l.get_cell_name(a) == "a longer name than fits in place");
    l.assign_cell_type(a, qca::cell_type::INPUT);
    CHECKN("assigning a type keeps the name of the cell", l.get_cell_name(a) == "a longer name than fits in place");
}

// ---- clones
template <class C, bool ORIGINAL>
static void clones()
{
    using L = cells<qca, C>;
    L l{BOX(C, ar), "layout", 3, 4};
    filled(l);
    const C a = TILE(a), b = TILE(b);
    ASSUME(consistent(l, a) && consistent(l, b));
    const auto        tb = l.get_cell_type(b);
    const auto        mb = l.get_cell_mode(b);
    const bool        ib = in(l, b), ob = out(l, b);
    L                 k  = l.clone();
    CHECKN("a clone has the same cells", k.get_cell_type(b) == tb && k.get_cell_mode(b) == mb && in(k, b) == ib && out(k, b) == ob);
    CHECKN("a clone has the same extent and properties", k.x() == l.x() && k.y() == l.y() && k.z() == l.z() && k.get_tile_size_x() == 3 && k.get_tile_size_y() == 4 && k.get_layout_name() == "layout");
    const auto ty = fv::any<qca::cell_type>("type");
    const auto m  = fv::any<qca::cell_mode>("mode");
    const auto f  = [&](L& w, const L& o)
    {
        w.assign_cell_mode(a, m);
        w.assign_cell_type(a, ty);
        w.set_tile_size_x(7);
        w.set_layout_name("other");
        CHECKN("changing a layout or its clone leaves the other alone", o.get_cell_type(b) == tb && o.get_cell_mode(b) == mb && in(o, b) == ib && out(o, b) == ob && o.get_tile_size_x() == 3 && o.get_layout_name() == "layout");
    };
    if constexpr (ORIGINAL) f(l, k);
    else f(k, l);
}
FV_PROOF(clones_original) { clones<ucoord, true>(); }
FV_PROOF(clones_clone) { clones<ucoord, false>(); }
FV_PROOF(clones_siqad) { clones<sqd, false>(); }

// ---- clock zones are those of the tile a cell belongs to
template <class C>
static uint8_t FN(const C& c)
{
    const auto v = static_cast<uint8_t>(__fv_uf3("FN", static_cast<uint64_t>(X(c)), static_cast<uint64_t>(Y(c)), static_cast<uint64_t>(Z(c))));
    ASSUME(v < 4);
    return v;
}
template <class C>
static void zones()
{
    const auto           tx = fv::any_in<uint16_t>("tx", 1, 65535), ty = fv::any_in<uint16_t>("ty", 1, 65535);
    const cells<qca, C>  l{BOX(C, ar), clocking_scheme<C>{"SOME", [](const C& c) { return FN(c); }, 1, 1, 4, true}, "", tx, ty};
    const C              a = BOX(C, a);
    const C              t{static_cast<int32_t>(a.x) / static_cast<int32_t>(tx), static_cast<int32_t>(a.y) / static_cast<int32_t>(ty), static_cast<int32_t>(Z(a))};
    CHECKN("tile sizes are those given", l.get_tile_size_x() == tx && l.get_tile_size_y() == ty);
    CHECKN("a cell has the zone of its tile", l.get_clock_number(a) == FN(t));
}
FV_PROOF(zones_offset) { zones<ucoord>(); }
FV_PROOF(zones_siqad) { zones<sqd>(); }

// ---- membership tests over arbitrary sets
static ucoord SOUGHT;
#ifdef FV_SYMBOLIC
using S     = phmap::flat_hash_set<ucoord>;
static const S* SET;
FV_INV(find)(const void*, const void*, const S::const_iterator* first, const void*, const void*)
{
    const auto i = first->i;
    SET->fv_enumerates(SOUGHT);
    const auto p = SET->fv_position(SOUGHT), n = SET->size();
    const bool in = SET->contains(SOUGHT);
    return i <= n && (!in || i <= p);
}
template <bool PIS>
static void member()
{
    using C = ucoord;
    cells<qca, ucoord> l{ucoord{1, 1}};
    S&                 s = PIS ? l.strg->inputs : l.strg->outputs;
    s.fv_arbitrary(1, true);
    SET    = &s;
    SOUGHT = TILE(c);
    if (PIS ? l.is_pi(SOUGHT) : l.is_po(SOUGHT)) CHECKN("no other cell is recognised", s.contains(SOUGHT));
    else CHECKN("inputs and outputs are recognised", !s.contains(SOUGHT));
    CHECKN("inputs and outputs are counted", (PIS ? l.num_pis() : l.num_pos()) == static_cast<uint32_t>(s.size()));
}
FV_PROOF(member_inputs) { member<true>(); }
FV_PROOF(member_outputs) { member<false>(); }
#else
static void member()
{
    using C = ucoord;
    cells<qca, ucoord> l{ucoord{1, 1}};
    filled(l);
    uint32_t n = 0, m = 0;
    for (uint32_t k = 0; k < 4; ++k)
    {
        const ucoord c{k & 1, k >> 1};
        CHECKN("inputs are recognised", l.is_pi(c) == (l.get_cell_type(c) == qca::cell_type::INPUT));
        CHECKN("outputs are recognised", l.is_po(c) == (l.get_cell_type(c) == qca::cell_type::OUTPUT));
        n += l.is_pi(c);
        m += l.is_po(c);
    }
    CHECKN("inputs and outputs are counted", l.num_pis() == n && l.num_pos() == m);
}
FV_PROOF(member_inputs) { member(); }
FV_PROOF(member_outputs) { member(); }
#endif

// ---- enumerating cells, inputs and outputs
//FV: bounded@listing = layouts of at most three cells with histories of four assignments
template <class L, class C>
static void listing()
{
    using type = qca::cell_type;
    L       l{ucoord{3, 3}};
    const C a = LIVE(C, a), b = LIVE(C, b), c = LIVE(C, c);
    ASSUME(!(a == b) && !(a == c) && !(b == c));
    l.assign_cell_type(a, type::INPUT);
    l.assign_cell_type(b, type::OUTPUT);
    l.assign_cell_type(c, type::NORMAL);
    CHECKN("cells are counted", l.num_cells() == 3 && !l.is_empty() && l.num_pis() == 1 && l.num_pos() == 1);
    int na = 0, nb = 0, nc = 0, n = 0;
    l.foreach_cell([&](const C& p) { ++n; na += p == a; nb += p == b; nc += p == c; });
    CHECKN("every cell is visited once", n == 3 && na == 1 && nb == 1 && nc == 1);
    n = na = nb = 0;
    l.foreach_pi([&](const C& p) { ++n; na += p == a; });
    l.foreach_po([&](const C& p) { ++n; nb += p == b; });
    CHECKN("every input and output is visited once", n == 2 && na == 1 && nb == 1);
    CHECKN("cells are found by type", l.get_cells_by_type(type::INPUT).size() == 1 && l.get_cells_by_type(type::INPUT)[0] == a && l.get_cells_by_type(type::NORMAL)[0] == c && l.num_cells_of_given_type(type::OUTPUT) == 1 && l.num_cells_of_given_type(type::CONST_0) == 0);
    l.assign_cell_type(a, type::NORMAL);
    CHECKN("a cell that is no input any more is not counted as one", l.num_pis() == 0 && l.num_cells() == 3 && l.num_cells_of_given_type(type::NORMAL) == 2 && !l.is_pi(a) && l.is_po(b));
    l.assign_cell_type(b, type::EMPTY);
    CHECKN("a removed cell is not counted", l.num_pos() == 0 && l.num_cells() == 2 && !l.is_po(b));
    n = nb = 0;
    l.foreach_cell([&](const C& p) { ++n; nb += p == b; });
    CHECKN("a removed cell is not visited", n == 2 && nb == 0);
    l.assign_cell_type(a, type::EMPTY);
    l.assign_cell_type(c, type::EMPTY);
    CHECKN("a layout without cells is empty", l.is_empty() && l.num_cells() == 0);
}
FV_PROOF(listing) { listing<cells<qca, ucoord>, ucoord>(); }
