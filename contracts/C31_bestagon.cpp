// C31 Bestagon library: the gate chosen for a tile fits the tile's function and routing
#include "rbtree.hpp"
#include "hashpolicy.hpp"
#include "fv.hpp"
#include <fiction/layouts/hexagonal_layout.hpp>
#include <fiction/layouts/clocked_layout.hpp>
#include <fiction/technology/sidb_bestagon_library.hpp>
#include <fiction/technology/sidb_skeleton_bestagon_library.hpp>
#include <memory>
//FV: shim = .
//FV: pipe = inline
//FV: ctors = _MAP
//FV: replace = ^std::hash<std::array<std::array<fiction::sidb_technology::cell_type, 60ul>, 46ul> >::operator\(\) -> fvspec_hash
//FV: trust = gates are hashed by some function of their cells (the real one respects equality by C15; it is replaced by a cheaper one)
//FV: trust = phmap's hash maps are replaced by a stand-in with their mathematical meaning; that the keys' hashes respect equality is C15
//FV: trust = libstdc++ hash containers may choose any number of buckets (contracts/hashpolicy.hpp)
//FV: trust = libstdc++ red-black tree primitives keep the in-order sequence (contracts/rbtree.hpp)
//FV: trust = a gate-level layout answers for a tile which function it has and on which sides signals come in and go out (stand-in class hex_lyt); mockturtle is absent
using namespace fiction;
using lib  = sidb_bestagon_library;
using gate = lib::fcn_gate;

enum function : uint8_t
{
    BUF, INV, AND, OR, NAND, NOR, XOR, XNOR, FANOUT2, MAJ
};
enum side : uint8_t
{
    NW = 1, NE = 2, SE = 4, SW = 8
};
// what a layout says about one tile and the wire above it
struct hex_lyt : clocked_layout<hexagonal_layout<offset::ucoord_t, even_row_hex>>
{
    using base_t    = clocked_layout<hexagonal_layout<offset::ucoord_t, even_row_hex>>;
    using T         = offset::ucoord_t;
    using tile      = T;
    using base_type = hex_lyt;
    using signal    = uint64_t;
    using node      = uint64_t;
    using storage   = std::shared_ptr<int>;
    function f;
    uint8_t  ports;
    bool     crossed;
    uint8_t  above_ports;
    hex_lyt(function fn, uint8_t p, bool c = false, uint8_t a = 0) : base_t({1, 1, 1}), f{fn}, ports{p}, crossed{c}, above_ports{a} {}
    uint8_t at(const T& t) const { return t.z == 0 ? ports : above_ports; }
    node get_node(const T& t) const { return t.z == 0 ? 5 : 6; }
    bool is_wire_tile(const T& t) const { return crossed && t.z == 1; }
    bool is(node n, function g) const { return n == 5 ? f == g : g == BUF; }
    bool is_pi(node) const { return false; }
    bool is_po(node) const { return false; }
    bool is_buf(node n) const { return is(n, BUF) || is(n, FANOUT2); }
    bool is_fanout(node n) const { return is(n, FANOUT2); }
    uint32_t fanout_size(node n) const { return is(n, FANOUT2) ? 2 : 1; }
    bool is_inv(node n) const { return is(n, INV); }
    bool is_and(node n) const { return is(n, AND); }
    bool is_or(node n) const { return is(n, OR); }
    bool is_nand(node n) const { return is(n, NAND); }
    bool is_nor(node n) const { return is(n, NOR); }
    bool is_xor(node n) const { return is(n, XOR); }
    bool is_xnor(node n) const { return is(n, XNOR); }
    bool is_maj(node n) const { return is(n, MAJ); }
    bool has_north_western_incoming_signal(const T& t) const { return (at(t) & NW) != 0; }
    bool has_north_eastern_incoming_signal(const T& t) const { return (at(t) & NE) != 0; }
    bool has_south_eastern_outgoing_signal(const T& t) const { return (at(t) & SE) != 0; }
    bool has_south_western_outgoing_signal(const T& t) const { return (at(t) & SW) != 0; }
    bool has_no_incoming_signal(const T& t) const { return (at(t) & (NW | NE)) == 0; }
    bool has_no_outgoing_signal(const T& t) const { return (at(t) & (SE | SW)) == 0; }
};
static_assert(is_gate_level_layout_v<hex_lyt> && is_hexagonal_layout_v<hex_lyt>);
static_assert(has_is_fanout_v<hex_lyt> && has_is_buf_v<hex_lyt> && has_is_inv_v<hex_lyt> && has_is_nand_v<hex_lyt> && has_is_xnor_v<hex_lyt> && mockturtle::has_is_xor_v<hex_lyt>);

static int count(uint8_t m) { return (m & 1) + ((m >> 1) & 1) + ((m >> 2) & 1) + ((m >> 3) & 1); }
static int inputs(uint8_t p) { return count(p & (NW | NE)); }
static int outputs(uint8_t p) { return count(p & (SE | SW)); }
static uint8_t mirrored(uint8_t p) { return static_cast<uint8_t>(((p & NW) ? NE : 0) | ((p & NE) ? NW : 0) | ((p & SE) ? SW : 0) | ((p & SW) ? SE : 0)); }

struct result
{
    gate g;
    int  status;  // 0: a gate, 1: unsupported orientation, 2: unsupported type, 3: an exception naming another tile
};
static result gate_for(const hex_lyt& l, const offset::ucoord_t& t = {1, 0})
{
    result r{};
    try
    {
        r.g      = lib::set_up_gate(l, t);
        r.status = 0;
    }
    catch (const unsupported_gate_orientation_exception<offset::ucoord_t, port_direction>& e)
    {
        r.status = e.where() == t ? 1 : 3;
    }
    catch (const unsupported_gate_type_exception<offset::ucoord_t>& e)
    {
        r.status = e.where() == t ? 2 : 3;
    }
    return r;
}
static bool full(function f, uint8_t p)
{
    return inputs(p) == (f == BUF || f == INV || f == FANOUT2 ? 1 : 2) && outputs(p) == (f == FANOUT2 ? 2 : 1);
}
// the standard wire that leads from the centre to a side
static bool wire_to(const gate& g, uint8_t s)
{
    constexpr int ys[4] = {6, 8, 10, 12}, xs[4] = {16, 18, 22, 24};
    bool          all = true, none = true;
    for (int k = 0; k < 4; ++k)
    {
        const int  y = (s & (NW | NE)) != 0 ? ys[k] : 44 - ys[k];
        const int  x = (s & (NW | SW)) != 0 ? xs[k] : 58 - xs[k];
        const bool c = g[y][x] == sidb_technology::cell_type::NORMAL;
        all          = all && c;
        none         = none && !c;
    }
    return all;
}
static bool blank(const gate& g)
{
    for (const auto& r : g)
        for (const auto c : r)
            if (c != sidb_technology::cell_type::EMPTY) return false;
    return true;
}
static bool is_mirror(const gate& a, const gate& b)
{
    for (int y = 0; y < 46; ++y)
    {
        for (int x = 0; x < 59; ++x)
            if (a[y][x] != b[y][58 - x]) return false;
        if (a[y][59] != b[y][59]) return false;
    }
    return true;
}
template <function F>
static void fits()
{
    bool offered = true, sides = true, mirror = true, open_ends = true, refused = true;
    for (uint8_t p = 0; p < 16; ++p)
    {
        const auto r = gate_for({F, p});
        if (full(F, p))
        {
            offered = offered && r.status == 0;
            for (uint8_t s = 1; s < 16; s <<= 1) sides = sides && wire_to(r.g, s) == ((p & s) != 0);
            mirror = mirror && is_mirror(r.g, gate_for({F, mirrored(p)}).g);
        }
        else if ((F == BUF || F == INV) && inputs(p) <= 1 && outputs(p) <= 1 && p != 0)
        {
            // the open side is led out somewhere
            open_ends = open_ends && r.status == 0;
            int n     = 0;
            for (uint8_t s = 1; s < 16; s <<= 1)
            {
                n += wire_to(r.g, s) ? 1 : 0;
                open_ends = open_ends && (wire_to(r.g, s) || (p & s) == 0);
            }
            open_ends = open_ends && n == 2;
        }
        else if (inputs(p) > 0 && outputs(p) > 0) refused = refused && r.status == 1;
    }
    CHECKN("every routing the function needs is offered", offered);
    CHECKN("wires lead to the connected sides and to no others", sides);
    CHECKN("a mirrored routing gets the mirrored gate", mirror);
    if constexpr (F == BUF || F == INV) CHECKN("open ends get a gate for the connected side", open_ends);
    CHECKN("other routings are refused", refused);
}
FV_PROOF(bestagon_wire) { fits<BUF>(); }
FV_PROOF(bestagon_inverter) { fits<INV>(); }
FV_PROOF(bestagon_and) { fits<AND>(); }
FV_PROOF(bestagon_or) { fits<OR>(); }
FV_PROOF(bestagon_nand) { fits<NAND>(); }
FV_PROOF(bestagon_nor) { fits<NOR>(); }
FV_PROOF(bestagon_xor) { fits<XOR>(); }
FV_PROOF(bestagon_xnor) { fits<XNOR>(); }
FV_PROOF(bestagon_fanout) { fits<FANOUT2>(); }
FV_PROOF(bestagon_maj) { CHECKN("a function the library lacks is refused", gate_for({MAJ, NW | NE | SE}).status == 2); }
// a wire over a wire
FV_PROOF(bestagon_crossing)
{
    constexpr uint8_t routes[4] = {NW | SW, NE | SE, NW | SE, NE | SW};
    bool              offered = true, sides = true, upper = true, refused = true;
    for (int a = 0; a < 4; ++a)
        for (int b = 0; b < 4; ++b)
        {
            const hex_lyt l{BUF, routes[a], true, routes[b]};
            const auto    r = gate_for(l);
            upper           = upper && gate_for(l, {1, 0, 1}).status == 0 && blank(gate_for(l, {1, 0, 1}).g);
            if ((routes[a] & routes[b]) != 0)
            {
                refused = refused && r.status == 1;
                continue;
            }
            offered = offered && r.status == 0;
            for (uint8_t s = 1; s < 16; s <<= 1) sides = sides && wire_to(r.g, s);
        }
    CHECKN("two wires that share no side fit one tile", offered);
    CHECKN("their wires lead to all sides", sides);
    CHECKN("wires that share a side are refused", refused);
    CHECKN("the upper wire is drawn by the lower one", upper);
    const auto par = gate_for({BUF, NW | SW, true, NE | SE}), rap = gate_for({BUF, NE | SE, true, NW | SW});
    const auto cro = gate_for({BUF, NW | SE, true, NE | SW}), orc = gate_for({BUF, NE | SW, true, NW | SE});
    CHECKN("which of the wires is on top does not matter", par.g == rap.g && cro.g == orc.g);
    CHECKN("parallel wires are not crossing ones", par.g != cro.g);
}

#ifdef FV_SYMBOLIC
extern "C" __attribute__((used)) std::size_t fvspec_hash(const void*, const gate& g)
{
    std::size_t h = 0;
    for (int y = 14; y < 32; y += 2) h = h * 3 + static_cast<std::size_t>(g[y][29]) + static_cast<std::size_t>(g[y][28]) * 5;
    return h + static_cast<std::size_t>(g[6][16]) + static_cast<std::size_t>(g[38][16]) * 7;
}
#endif
// the library's own listing of implementations and ports
static kitty::dynamic_truth_table table_of(function f)
{
    switch (f)
    {
        case INV: return create_not_tt();
        case AND: return create_and_tt();
        case OR: return create_or_tt();
        case NAND: return create_nand_tt();
        case NOR: return create_nor_tt();
        case XOR: return create_xor_tt();
        case XNOR: return create_xnor_tt();
        default: return create_id_tt();
    }
}
static bool listed(const lib::gate_functions& all, function f, const gate& g)
{
    const auto it = all.find(table_of(f));
    if (it == all.end()) return false;
    for (const auto& h : it->second)
        if (h == g) return true;
    return false;
}
FV_PROOF(bestagon_functions)
{
    const auto all  = lib::get_functional_implementations();
    bool       ours = true, others = true;
    for (const auto f : {BUF, INV, AND, OR, NAND, NOR, XOR, XNOR, FANOUT2})
        for (uint8_t p = 0; p < 16; ++p)
        {
            if (!full(f, p)) continue;
            const auto g = gate_for({f, p}).g;
            for (const auto h : {BUF, INV, AND, OR, NAND, NOR, XOR, XNOR})
            {
                const bool same = h == f || (h == BUF && f == FANOUT2);
                (same ? ours : others) = (same ? ours : others) && listed(all, h, g) == same;
            }
        }
    CHECKN("the gate is listed as an implementation of the tile's function", ours);
    CHECKN("the gate is not listed as an implementation of another function", others);
    CHECKN("so are crossing and parallel wires", listed(all, BUF, gate_for({BUF, NW | SW, true, NE | SE}).g) && listed(all, BUF, gate_for({BUF, NW | SE, true, NE | SW}).g));
}
FV_PROOF(bestagon_ports)
{
    using c          = port_direction::cardinal;
    const auto ports = lib::get_gate_ports();
    bool       all   = true;
    for (const auto f : {BUF, INV, AND, OR, NAND, NOR, XOR, XNOR, FANOUT2})
        for (uint8_t p = 0; p < 16; ++p)
        {
            if (!full(f, p)) continue;
            port_list<port_direction> l{};
            if (p & NW) l.inp.emplace(c::NORTH_WEST);
            if (p & NE) l.inp.emplace(c::NORTH_EAST);
            if (p & SE) l.out.emplace(c::SOUTH_EAST);
            if (p & SW) l.out.emplace(c::SOUTH_WEST);
            const auto it = ports.find(gate_for({f, p}).g);
            bool       in = false;
            if (it != ports.end())
                for (const auto& q : it->second) in = in || q == l;
            all = all && in;
        }
    CHECKN("the routing is listed among the ports of the gate", all);
}
// every implementation listed has its ports listed, and its cells lead to them
template <class L>
static void listing()
{
    using c          = port_direction::cardinal;
    const auto all   = L::get_functional_implementations();
    const auto ports = L::get_gate_ports();
    bool       present = true, led = true, exact = true, arity = true;
    for (const auto& [tt, gates] : all)
        for (const auto& g : gates)
        {
            const auto it = ports.find(g);
            present       = present && it != ports.end() && !it->second.empty();
            if (it == ports.end()) continue;
            bool some = false;
            for (const auto& q : it->second)
            {
                uint8_t m = 0;
                for (const auto& d : q.inp) m |= d.dir == c::NORTH_WEST ? NW : d.dir == c::NORTH_EAST ? NE : 16;
                for (const auto& d : q.out) m |= d.dir == c::SOUTH_EAST ? SE : d.dir == c::SOUTH_WEST ? SW : 16;
                bool same = true;
                for (uint8_t s = 1; s < 16; s <<= 1)
                {
                    led  = led && ((m & s) == 0 || wire_to(g, s));
                    same = same && wire_to(g, s) == ((m & s) != 0);
                }
                led   = led && (m & 16) == 0;
                arity = arity && (tt.num_vars() == 1 || inputs(m) == static_cast<int>(tt.num_vars()));
                some  = some || same;
            }
            exact = exact && some;
        }
    CHECKN("every implementation has its ports listed", present);
    CHECKN("wires lead to the sides listed", led);
    CHECKN("the sides with wires are listed together", exact);
    CHECKN("functions of two variables have two inputs", arity);
}
FV_PROOF(bestagon_listing) { listing<lib>(); }
FV_PROOF(skeleton_listing) { listing<sidb_skeleton_bestagon_library>(); }
