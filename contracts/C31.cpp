// C31 gate libraries: the gate chosen for a tile fits the tile's function and routing
#include "rbtree.hpp"
#include "fv.hpp"
#include <fiction/layouts/cartesian_layout.hpp>
#include <fiction/layouts/clocked_layout.hpp>
#include <fiction/technology/qca_one_library.hpp>
#include <fiction/technology/sim7_mol_library.hpp>
#include <memory>
//FV: shim = .
//FV: pipe = inline
//FV: ctors = _MAP
//FV: trust = phmap's hash maps are replaced by a stand-in with their mathematical meaning; that the keys' hashes respect equality is C15
//FV: trust = libstdc++ red-black tree primitives keep the in-order sequence (contracts/rbtree.hpp)
//FV: trust = a gate-level layout answers for a tile which function it has and on which sides signals come in and go out (stand-in class tile_lyt); mockturtle is absent
using namespace fiction;

enum function : uint8_t
{
    BUF, INV, AND, OR, MAJ, FANOUT2, FANOUT3, OTHER
};
enum side : uint8_t
{
    N = 1, E = 2, S = 4, W = 8
};
// what a layout says about one tile
struct tile_lyt : clocked_layout<cartesian_layout<offset::ucoord_t>>
{
    using base_t  = clocked_layout<cartesian_layout<offset::ucoord_t>>;
    using tile    = offset::ucoord_t;
    using signal  = uint64_t;
    using node    = uint64_t;
    using storage = std::shared_ptr<int>;
    function f;
    uint8_t  in, out;
    tile_lyt(function fn, uint8_t i, uint8_t o) : base_t({1, 1}), f{fn}, in{i}, out{o} {}
    using T = offset::ucoord_t;
    node get_node(const T&) const { return 5; }
    bool is_buf(node) const { return f == BUF || f == FANOUT2 || f == FANOUT3; }
    bool is_wire(node) const { return is_buf(0); }
    bool is_fanout(node) const { return f == FANOUT2 || f == FANOUT3; }
    template <bool = true>
    uint32_t fanout_size(node) const
    {
        return f == FANOUT2 ? 2 : f == FANOUT3 ? 3 : 1;
    }
    bool is_inv(node) const { return f == INV; }
    bool is_and(node) const { return f == AND; }
    bool is_or(node) const { return f == OR; }
    bool is_maj(node) const { return f == MAJ; }
#define SIDE(name, s)                                                                       \
    template <bool = true>                                                                  \
    bool has_##name##ern_incoming_signal(const T&) const { return (in & s) != 0; }          \
    template <bool = true>                                                                  \
    bool has_##name##ern_outgoing_signal(const T&) const { return (out & s) != 0; }
    SIDE(north, N)
    SIDE(east, E)
    SIDE(south, S)
    SIDE(west, W)
    template <bool = true>
    bool has_no_incoming_signal(const T&) const { return in == 0; }
    template <bool = true>
    bool has_no_outgoing_signal(const T&) const { return out == 0; }
};
static_assert(is_gate_level_layout_v<tile_lyt>);
static_assert(has_is_fanout_v<tile_lyt> && has_is_buf_v<tile_lyt> && has_is_inv_v<tile_lyt> && mockturtle::has_is_and_v<tile_lyt> && mockturtle::has_is_maj_v<tile_lyt>);

static int count(uint8_t m) { return (m & 1) + ((m >> 1) & 1) + ((m >> 2) & 1) + ((m >> 3) & 1); }

template <class L>
struct result
{
    typename L::fcn_gate g;
    int                  status;  // 0: a gate, 1: unsupported orientation, 2: unsupported type, 3: an exception naming another tile
};
template <class L>
static result<L> gate_for(function f, uint8_t in, uint8_t out)
{
    const tile_lyt         l{f, in, out};
    const offset::ucoord_t t{1, 0};
    result<L>              r{};
    try
    {
        r.g      = L::set_up_gate(l, t);
        r.status = 0;
    }
    catch (const unsupported_gate_orientation_exception<offset::ucoord_t, port_position>& e)
    {
        r.status = e.where() == t ? 1 : 3;
    }
    catch (const unsupported_gate_type_exception<offset::ucoord_t>& e)
    {
        r.status = e.where() == t ? 2 : 3;
    }
    return r;
}
// the routings a library must offer
static bool required(function f, uint8_t in, uint8_t out)
{
    switch (f)
    {
        case BUF: return count(in) <= 1 && count(out) <= 1 && count(in) + count(out) > 0;
        case INV: return count(in) <= 1 && count(out) <= 1 && count(in) + count(out) > 0;
        case AND:
        case OR: return count(in) == 2 && count(out) == 1;
        case MAJ: return count(in) == 3 && count(out) == 1;
        case FANOUT2: return count(in) == 1 && count(out) == 2;
        case FANOUT3: return count(in) == 1 && count(out) == 3;
        default: return false;
    }
}
static uint8_t turned(uint8_t m) { return static_cast<uint8_t>(((m << 1) | (m >> 3)) & 15); }

// QCA ONE: 5 by 5, ports in the middle of the sides
struct qca_spec
{
    using lib  = qca_one_library;
    using type = qca_technology::cell_type;
    static bool at_port(int x, int y, uint8_t m) { return ((m & N) != 0 && x == 2 && y == 0) || ((m & E) != 0 && x == 4 && y == 2) || ((m & S) != 0 && x == 2 && y == 4) || ((m & W) != 0 && x == 0 && y == 2); }
    static bool input(type c) { return c == type::NORMAL; }
    static bool output(type c) { return c == type::NORMAL; }
};
// SIM7: 10 by 10, ports two cells wide; signals enter in the first clock phase and leave in the last
struct mol_spec
{
    using lib  = sim7_mol_library;
    using type = mol_qca_technology::cell_type;
    static bool at_port(int x, int y, uint8_t m)
    {
        return ((m & N) != 0 && (x == 4 || x == 5) && y == 0) || ((m & E) != 0 && x == 9 && (y == 4 || y == 5)) || ((m & S) != 0 && (x == 4 || x == 5) && y == 9) || ((m & W) != 0 && x == 0 && (y == 4 || y == 5));
    }
    static bool input(type c) { return c == type::NORMAL1; }
    static bool output(type c) { return c == type::NORMAL4; }
};

// the cells reached from one port over shared edges include all ports
template <class Spec>
static bool wired(const typename Spec::lib::fcn_gate& g, uint8_t ports)
{
    using T         = typename Spec::lib::technology;
    constexpr int K = Spec::lib::gate_x_size();
    bool          seen[K][K]{};
    int           stack[K * K]{}, n = 0;
    const auto    push = [&](int x, int y)
    {
        if (x < 0 || y < 0 || x >= K || y >= K || seen[y][x] || T::is_empty_cell(g[y][x])) return;
        seen[y][x] = true;
        stack[n++] = y * K + x;
    };
    for (int y = 0; y < K && n == 0; ++y)
        for (int x = 0; x < K && n == 0; ++x)
            if (Spec::at_port(x, y, ports)) push(x, y);
    while (n > 0)
    {
        const int x = stack[n - 1] % K, y = stack[n - 1] / K;
        --n;
        push(x + 1, y), push(x - 1, y), push(x, y + 1), push(x, y - 1);
    }
    bool ok = true;
    for (int y = 0; y < K; ++y)
        for (int x = 0; x < K; ++x) ok = ok && (seen[y][x] || !Spec::at_port(x, y, ports));
    return ok;
}

template <class Spec, function F>
static void fits()
{
    using L          = typename Spec::lib;
    using T          = typename L::technology;
    constexpr int  K = L::gate_x_size();
    bool           offered = true, inputs = true, outputs = true, border = true, consts = true, rotation = true, refused = true, marks = true, connected = true;
    for (uint8_t in = 0; in < 16; ++in)
        for (uint8_t out = 0; out < 16; ++out)
        {
            if ((in & out) != 0) continue;
            const auto r = gate_for<L>(F, in, out);
            if (!required(F, in, out))
            {
                // either the routing is refused, naming the tile, or it is one with default ports
                if (in != 0 && out != 0 && F != MAJ && F != FANOUT3) refused = refused && r.status == 1;
                continue;
            }
            offered = offered && r.status == 0;
            int zeros = 0, ones = 0, pis = 0, pos = 0;
            for (int y = 0; y < K; ++y)
                for (int x = 0; x < K; ++x)
                {
                    const auto c    = r.g[y][x];
                    const bool edge = x == 0 || y == 0 || x == K - 1 || y == K - 1;
                    // at the end of a wire, the port itself may be the primary input or output
                    if (Spec::at_port(x, y, in)) inputs = inputs && (Spec::input(c) || (F == BUF && out == 0 && c == T::cell_type::OUTPUT));
                    else if (Spec::at_port(x, y, out)) outputs = outputs && (Spec::output(c) || (F == BUF && in == 0 && c == T::cell_type::INPUT));
                    else if (Spec::at_port(x, y, 15))
                    {
                        // a side that is not connected
                        if (F == AND) border = border && c == T::cell_type::CONST_0;
                        else if (F == OR) border = border && c == T::cell_type::CONST_1;
                        else if (F == BUF || F == FANOUT2) border = border && T::is_empty_cell(c);
                    }
                    else if (edge && (F == BUF || F == AND || F == OR || F == FANOUT2 || F == MAJ)) border = border && T::is_empty_cell(c);
                    zeros += c == T::cell_type::CONST_0 ? 1 : 0;
                    ones += c == T::cell_type::CONST_1 ? 1 : 0;
                    pis += c == T::cell_type::INPUT ? 1 : 0;
                    pos += c == T::cell_type::OUTPUT ? 1 : 0;
                }
            consts = consts && (F == AND ? zeros > 0 : zeros == 0) && (F == OR ? ones > 0 : ones == 0);
            marks  = marks && (pis > 0) == (F == BUF && in == 0) && (pos > 0) == (F == BUF && out == 0);
            if (F != INV) connected = connected && wired<Spec>(r.g, in | out);
            // a quarter turn of the routing is a quarter turn of the gate
            const auto q = gate_for<L>(F, turned(in), turned(out));
            for (int y = 0; y < K; ++y)
                for (int x = 0; x < K; ++x) rotation = rotation && q.g[x][K - 1 - y] == r.g[y][x];
        }
    CHECKN("every routing the function needs is offered", offered);
    CHECKN("signals come in at the input sides", inputs);
    CHECKN("signals go out at the output sides", outputs);
    if (F != INV) CHECKN("the ports are connected by cells", connected);
    CHECKN("nothing else touches the border but the fixed cell of a conjunction or disjunction", border);
    CHECKN("fixed cells are zero in conjunctions and one in disjunctions only", consts);
    CHECKN("only ends of wires are primary inputs and outputs", marks);
    CHECKN("turning the routing turns the gate", rotation);
    CHECKN("other routings are refused", refused);
}
FV_PROOF(qca_one_wire) { fits<qca_spec, BUF>(); }
FV_PROOF(qca_one_inverter) { fits<qca_spec, INV>(); }
FV_PROOF(qca_one_and) { fits<qca_spec, AND>(); }
FV_PROOF(qca_one_or) { fits<qca_spec, OR>(); }
FV_PROOF(qca_one_maj) { fits<qca_spec, MAJ>(); }
FV_PROOF(qca_one_fanout2) { fits<qca_spec, FANOUT2>(); }
FV_PROOF(qca_one_fanout3) { fits<qca_spec, FANOUT3>(); }
FV_PROOF(sim7_wire) { fits<mol_spec, BUF>(); }
FV_PROOF(sim7_inverter) { fits<mol_spec, INV>(); }
FV_PROOF(sim7_and) { fits<mol_spec, AND>(); }
FV_PROOF(sim7_or) { fits<mol_spec, OR>(); }
FV_PROOF(sim7_maj) { fits<mol_spec, MAJ>(); }
FV_PROOF(sim7_fanout2) { fits<mol_spec, FANOUT2>(); }
FV_PROOF(sim7_fanout3) { fits<mol_spec, FANOUT3>(); }
template <class L>
static void other()
{
    const auto r = gate_for<L>(OTHER, N, S);
    CHECKN("a function the library lacks is refused", r.status == 2);
}
FV_PROOF(qca_one_other) { other<qca_one_library>(); }
FV_PROOF(sim7_other) { other<sim7_mol_library>(); }
