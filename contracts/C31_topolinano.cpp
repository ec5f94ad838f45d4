// C31 ToPoliNano library: the gate chosen for a tile fits the tile's function and routing
#include "rbtree.hpp"
#include "fv.hpp"
#include <fiction/layouts/shifted_cartesian_layout.hpp>
#include <fiction/layouts/clocked_layout.hpp>
#include <fiction/technology/inml_topolinano_library.hpp>
#include <memory>
//FV: shim = .
//FV: pipe = inline
//FV: ctors = _MAP
//FV: trust = phmap's hash maps are replaced by a stand-in with their mathematical meaning; that the keys' hashes respect equality is C15
//FV: trust = libstdc++ red-black tree primitives keep the in-order sequence (contracts/rbtree.hpp)
//FV: trust = a gate-level layout answers for a tile which function it has and on which sides signals come in and go out (stand-in class mag_lyt); mockturtle is absent
using namespace fiction;
using lib  = inml_topolinano_library;
using gate = lib::fcn_gate;
using ct   = inml_technology::cell_type;

enum function : uint8_t
{
    BUF, INV, AND, OR, MAJ, FANOUT2, PI, PO, OTHER
};
// sides of a tile in a layout of shifted columns
enum side : uint8_t
{
    N = 1, NE = 2, SE = 4, S = 8, SW = 16, NW = 32
};
// what a layout says about one tile, its predecessors and successors, and the wire above it
struct mag_lyt : clocked_layout<shifted_cartesian_layout<offset::ucoord_t, odd_column_cartesian>>
{
    using base_t    = clocked_layout<shifted_cartesian_layout<offset::ucoord_t, odd_column_cartesian>>;
    using T         = offset::ucoord_t;
    using tile      = T;
    using base_type = mag_lyt;
    using signal    = uint64_t;
    using node      = uint64_t;
    using storage   = std::shared_ptr<int>;
    static constexpr node OURS = 5, NORTH = 7, FANIN = 8, FANOUT = 9;
    function f, north_f{OTHER}, fanin_f{OTHER}, fanout_f{OTHER};
    uint8_t  in, out;
    bool     crossed{false};
    mag_lyt(function fn, uint8_t i, uint8_t o) : base_t({2, 2, 1}), f{fn}, in{i}, out{o} {}
    node get_node(const T& t) const { return t == T{1, 1} ? OURS : t == T{1, 0} ? NORTH : 6; }
    node get_node(node n) const { return n; }
    function of(node n) const { return n == OURS ? f : n == NORTH ? north_f : n == FANIN ? fanin_f : n == FANOUT ? fanout_f : OTHER; }
    bool is_wire_tile(const T& t) const { return crossed && t == T{1, 1, 1}; }
    bool is_pi(node n) const { return of(n) == PI; }
    bool is_po(node n) const { return of(n) == PO; }
    bool is_buf(node n) const { return of(n) == BUF || of(n) == PI || of(n) == PO || of(n) == FANOUT2; }
    bool is_fanout(node n) const { return of(n) == FANOUT2; }
    bool is_inv(node n) const { return of(n) == INV; }
    bool is_and(node n) const { return of(n) == AND; }
    bool is_or(node n) const { return of(n) == OR; }
    bool is_maj(node n) const { return of(n) == MAJ; }
    template <class F>
    void foreach_fanin(node, F f) const { f(FANIN); }
    template <class F>
    void foreach_fanout(node, F f) const { f(FANOUT); }
#define SIDE(name, s)                                                                 \
    bool has_##name##ern_incoming_signal(const T&) const { return (in & s) != 0; }    \
    bool has_##name##ern_outgoing_signal(const T&) const { return (out & s) != 0; }
    SIDE(north, N)
    SIDE(south, S)
    SIDE(north_west, NW)
    SIDE(north_east, NE)
    SIDE(south_west, SW)
    SIDE(south_east, SE)
};
static_assert(is_gate_level_layout_v<mag_lyt> && is_shifted_cartesian_layout_v<mag_lyt>);
static_assert(has_is_fanout_v<mag_lyt> && has_is_buf_v<mag_lyt> && has_is_inv_v<mag_lyt> && mockturtle::has_is_and_v<mag_lyt> && mockturtle::has_is_maj_v<mag_lyt>);
struct result
{
    gate g;
    int  status;  // 0: a gate, 1: unsupported orientation, 2: unsupported type, 3: an exception naming another tile
};
static result gate_for(const mag_lyt& l, const offset::ucoord_t& t = {1, 1})
{
    result r{};
    try
    {
        r.g      = lib::set_up_gate(l, t);
        r.status = 0;
    }
    catch (const unsupported_gate_orientation_exception<offset::ucoord_t, port_position>& e)
    {
        r.status = e.where() == t ? 1 : 3;
    }
    catch (const unsupported_gate_type_exception<offset::ucoord_t>& e)
    {
        r.status = e.where() == t ? 2 : 3;
    }
    return r;
}
// a row of a tile's first or last column, or none
using row = int;
static constexpr row NONE = -1;
// gates and fan-outs before and after a tile have their ports one row lower
static bool in_row(uint8_t s, function fanin, row& r)
{
    switch (s)
    {
        case N:
        case NW: r = 0; return true;
        case S: r = 3; return true;
        case SW: r = fanin == AND || fanin == OR || fanin == MAJ ? 3 : 2; return true;
        default: r = NONE; return false;
    }
}
static bool out_row(uint8_t s, function fanout, row& r)
{
    switch (s)
    {
        case N:
        case NE: r = 0; return true;
        case S: r = 3; return true;
        case SE: r = fanout == FANOUT2 ? 3 : 2; return true;
        default: r = NONE; return false;
    }
}
static bool filled(ct c) { return !inml_technology::is_empty_cell(c); }
// all cells are reached from (x, y) over edges, or corners if given
static bool all_reached(const gate& g, int x0, int y0, bool corners = false)
{
    bool seen[4][4]{};
    int  stack[16]{}, n = 0;
    const auto push = [&](int x, int y)
    {
        if (x < 0 || y < 0 || x > 3 || y > 3 || seen[y][x] || !filled(g[y][x])) return;
        seen[y][x] = true;
        stack[n++] = y * 4 + x;
    };
    push(x0, y0);
    while (n > 0)
    {
        const int x = stack[n - 1] % 4, y = stack[n - 1] / 4;
        --n;
        push(x + 1, y), push(x - 1, y), push(x, y + 1), push(x, y - 1);
        if (corners) push(x + 1, y + 1), push(x - 1, y - 1), push(x - 1, y + 1), push(x + 1, y - 1);
    }
    bool ok = true;
    for (int y = 0; y < 4; ++y)
        for (int x = 0; x < 4; ++x) ok = ok && seen[y][x] == filled(g[y][x]);
    return ok;
}
// the signal has no second way out of the port's column
static bool end_of(const gate& g, int x, int y) { return filled(g[y][x]) && !(y > 0 && y < 3 && filled(g[y - 1][x]) && filled(g[y + 1][x])); }
static int  count(const gate& g, ct c)
{
    int n = 0;
    for (int y = 0; y < 4; ++y)
        for (int x = 0; x < 4; ++x) n += g[y][x] == c ? 1 : 0;
    return n;
}
static int cells(const gate& g) { return 16 - count(g, ct::EMPTY); }

static constexpr uint8_t  INS[]   = {N, S, NW, SW}, OUTS[] = {N, S, NE, SE};
static constexpr function PREDS[] = {OTHER, BUF, INV, AND, OR, MAJ, FANOUT2};

FV_PROOF(topolinano_wire)
{
    bool offered = true, enters = true, leaves = true, connected = true, plain = true;
    for (const auto in : INS)
        for (const auto out : OUTS)
        {
            if ((in & out) != 0) continue;
            for (const auto fi : PREDS)
                for (const auto fo : {OTHER, FANOUT2})
                {
                    mag_lyt l{BUF, in, out};
                    l.fanin_f = fi, l.fanout_f = fo;
                    row i{}, o{};
                    in_row(in, fi, i);
                    out_row(out, fo, o);
                    const auto r = gate_for(l);
                    offered      = offered && r.status == 0;
                    enters       = enters && end_of(r.g, 0, i);
                    leaves       = leaves && end_of(r.g, 3, o);
                    connected    = connected && all_reached(r.g, 0, i);
                    plain        = plain && cells(r.g) == count(r.g, ct::NORMAL);
                }
        }
    CHECKN("every pair of sides is offered", offered);
    CHECKN("the wire starts where the signal comes in", enters);
    CHECKN("the wire ends where the signal goes out", leaves);
    CHECKN("the wire is in one piece", connected);
    CHECKN("a wire has no marked, fixed or inverting cells", plain);
    // below a majority gate, the wire leads to the gate's third input
    mag_lyt l{BUF, NW, N};
    l.north_f    = MAJ;
    const auto r = gate_for(l);
    CHECKN("a wire leads up into a majority gate", r.status == 0 && filled(r.g[0][0]) && filled(r.g[0][1]) && !filled(r.g[0][3]) && all_reached(r.g, 0, 0));
}
FV_PROOF(topolinano_inverter)
{
    bool offered = true, enters = true, leaves = true, connected = true, inverts = true;
    for (const auto in : {NW, SW})
        for (const auto out : {NE, SE})
            for (const auto fi : PREDS)
            {
                mag_lyt l{INV, in, out};
                l.fanin_f = fi;
                row i{}, o{};
                in_row(in, fi, i);
                out_row(out, OTHER, o);
                const auto r = gate_for(l);
                offered      = offered && r.status == 0;
                enters       = enters && end_of(r.g, 0, i);
                leaves       = leaves && r.g[o][3] == ct::INVERTER_MAGNET;
                connected    = connected && all_reached(r.g, 0, i);
                inverts      = inverts && count(r.g, ct::INVERTER_MAGNET) == 4 && cells(r.g) == 4 + count(r.g, ct::NORMAL) && r.g[o][0] == ct::INVERTER_MAGNET && r.g[o][1] == ct::INVERTER_MAGNET && r.g[o][2] == ct::INVERTER_MAGNET;
            }
    CHECKN("every pair of sides is offered", offered);
    CHECKN("the inverter starts where the signal comes in", enters);
    CHECKN("the inverter ends where the signal goes out", leaves);
    CHECKN("the inverter is in one piece", connected);
    CHECKN("a straight line of four inverting magnets", inverts);
}
FV_PROOF(topolinano_terminals)
{
    bool offered = true, connected = true, marked = true, plain = true;
    for (const auto s : {NE, SE})
        for (const auto fo : {OTHER, BUF, FANOUT2})
        {
            mag_lyt l{PI, 0, static_cast<uint8_t>(s)};
            l.fanout_f = fo;
            row o{};
            out_row(s, fo, o);
            if (fo == FANOUT2) o = 3;
            const auto r = gate_for(l);
            offered      = offered && r.status == 0;
            marked       = marked && r.g[o][0] == ct::INPUT && filled(r.g[o][3]);
            connected    = connected && all_reached(r.g, 0, o);
            plain        = plain && cells(r.g) == 1 + count(r.g, ct::NORMAL);
        }
    for (const auto s : {NW, SW})
        for (const auto fi : PREDS)
        {
            mag_lyt l{PO, static_cast<uint8_t>(s), 0};
            l.fanin_f = fi;
            row i{};
            in_row(s, fi, i);
            const auto r   = gate_for(l);
            const bool has = r.status == 0;
            // gates have their output in the middle of the last column: their successors are to their north-east
            if (s == NW && (fi == AND || fi == OR || fi == MAJ)) continue;
            offered        = offered && has;
            marked         = marked && r.g[i][3] == ct::OUTPUT && filled(r.g[i][0]);
            connected      = connected && all_reached(r.g, 0, i);
            plain          = plain && cells(r.g) == 1 + count(r.g, ct::NORMAL);
        }
    CHECKN("inputs and outputs are offered on both sides", offered);
    CHECKN("the marked cell is at the end away from the neighbouring tile", marked);
    CHECKN("the wire is in one piece", connected);
    CHECKN("one cell is marked", plain);
}
FV_PROOF(topolinano_gates)
{
    bool offered = true, inputs = true, output = true, slant = true, connected = true;
    for (const auto f : {AND, OR, MAJ, FANOUT2})
        for (const auto in : {NW | SW, NW | SW | S, NW + 0, SW + 0})
            for (const auto out : {NE + 0, SE + 0, NE | SE})
            {
                const auto r = gate_for(mag_lyt{f, static_cast<uint8_t>(in), static_cast<uint8_t>(out)});
                offered      = offered && r.status == 0;
                slant        = slant && count(r.g, ct::SLANTED_EDGE_DOWN_MAGNET) == (f == AND ? 3 : 0) && count(r.g, ct::SLANTED_EDGE_UP_MAGNET) == (f == OR ? 3 : 0) &&
                        (count(r.g, ct::FANOUT_COUPLER_MAGNET) > 0) == (f == FANOUT2) && count(r.g, ct::INVERTER_MAGNET) == 0 && count(r.g, ct::CROSSWIRE_MAGNET) == 0;
                if (f == FANOUT2) output = output && filled(r.g[0][3]) && filled(r.g[2][3]);
                else output = output && filled(r.g[f == MAJ ? 2 : 1][3]);
                inputs    = inputs && filled(r.g[0][0]) && filled(r.g[2][0]) && (f != MAJ || filled(r.g[3][1]));
                connected = connected && all_reached(r.g, 0, 0);
            }
    CHECKN("gates and fan-outs are offered", offered);
    CHECKN("magnets of the kind that computes the function", slant);
    CHECKN("the inputs are open", inputs);
    CHECKN("the outputs are open", output);
    CHECKN("the gate is in one piece", connected);
}
FV_PROOF(topolinano_crossing)
{
    bool ok = true, piece = true, above = true;
    for (const auto in : INS)
        for (const auto out : OUTS)
        {
            mag_lyt l{BUF, in, out};
            l.crossed    = true;
            const auto r = gate_for(l);
            ok           = ok && r.status == 0 && count(r.g, ct::CROSSWIRE_MAGNET) == 5 && filled(r.g[0][0]) && filled(r.g[2][0]) && filled(r.g[0][3]) && filled(r.g[2][3]);
            piece        = piece && all_reached(r.g, 0, 0, true);
            const auto u = gate_for(l, {1, 1, 1});
            above        = above && u.status == 0 && cells(u.g) == 0;
        }
    CHECKN("a wire under another is a crossing", ok);
    CHECKN("the crossing is in one piece", piece);
    CHECKN("the crossing layer has no cells of its own", above);
}
FV_PROOF(topolinano_other)
{
    bool ok = true;
    for (const auto in : INS)
        for (const auto out : OUTS) ok = ok && gate_for(mag_lyt{OTHER, in, out}).status == 2;
    CHECKN("a function the library lacks is refused", ok);
    CHECKN("a routing the library lacks is refused", gate_for(mag_lyt{INV, N, S}).status == 1 && gate_for(mag_lyt{INV, 0, 0}).status == 1 && gate_for(mag_lyt{PI, 0, N}).status == 1 && gate_for(mag_lyt{PO, S, 0}).status == 1);
}
