// C18 gate libraries: transformations of gates' cell matrices
#include "fv.hpp"
#include <fiction/technology/cell_ports.hpp>
#include <fiction/technology/cell_technologies.hpp>
#include <fiction/technology/fcn_gate_library.hpp>
#include <vector>
//FV: shim = .
//FV: pipe = inline
//FV: cxx = -fno-access-control
//FV: loop@merge_any = fcn_gate_library<.*>::merge\( ## 2:merge
//FV: trust = kitty's truth tables are only named by the gate libraries, so a declaration stands in for them
using namespace fiction;

template <class Tech, uint16_t W, uint16_t H>
using lib = fcn_gate_library<Tech, W, H>;
using qca_lib  = lib<qca_technology, 5, 5>;
using inml_lib = lib<inml_technology, 4, 4>;
using mol_lib  = lib<mol_qca_technology, 10, 10>;
using sidb_lib = lib<sidb_technology, 60, 46>;

template <class L>
static typename L::fcn_gate any_gate(const char* n)
{
    fv::any_vector<typename L::fcn_gate> v{n, 1};
    return v.get()[0];
}
// the cell of a gate in a column and a row
template <class G>
static auto at(const G& g, uint64_t column, uint64_t row)
{
    return g[row][column];
}
// a statement about every position
template <class L, class F>
static bool all(F&& f)
{
    bool r = true;
    for (uint64_t y = 0; y < L::gate_y_size(); ++y)
        for (uint64_t x = 0; x < L::gate_x_size(); ++x) r = f(x, y) & r;
    return r;
}
template <class L>
static void reversals()
{
    constexpr uint64_t W = L::gate_x_size(), H = L::gate_y_size();
    const auto         g = any_gate<L>("g");
    const auto         c = L::reverse_columns(g), r = L::reverse_rows(g), t = L::rotate_180(g), u = L::rotate_180(t);
    CHECKN("reversed columns", all<L>([&](auto x, auto y) { return at(c, x, y) == at(g, W - 1 - x, y); }));
    CHECKN("reversed rows", all<L>([&](auto x, auto y) { return at(r, x, y) == at(g, x, H - 1 - y); }));
    CHECKN("half a turn", all<L>([&](auto x, auto y) { return at(t, x, y) == at(g, W - 1 - x, H - 1 - y); }));
    CHECKN("two half turns", all<L>([&](auto x, auto y) { return at(u, x, y) == at(g, x, y); }));
}
FV_PROOF(reversals_qca) { reversals<qca_lib>(); }
FV_PROOF(reversals_inml) { reversals<inml_lib>(); }
FV_PROOF(reversals_mol_qca) { reversals<mol_lib>(); }
FV_PROOF(reversals_sidb) { reversals<sidb_lib>(); }

template <class L>
static void turns()
{
    constexpr uint64_t N = L::gate_x_size();
    static_assert(N == L::gate_y_size());
    const auto g = any_gate<L>("g");
    const auto p = L::transpose(g), q = L::rotate_90(g), h = L::rotate_180(g), t = L::rotate_270(g), hq = L::rotate_90(q), hqq = L::rotate_90(hq);
    CHECKN("transposed", all<L>([&](auto x, auto y) { return at(p, x, y) == at(g, y, x); }));
    CHECKN("a quarter turn clockwise", all<L>([&](auto x, auto y) { return at(q, N - 1 - y, x) == at(g, x, y); }));
    CHECKN("three quarter turns clockwise", all<L>([&](auto x, auto y) { return at(t, y, N - 1 - x) == at(g, x, y); }));
    CHECKN("two quarter turns are half a turn", all<L>([&](auto x, auto y) { return at(hq, x, y) == at(h, x, y); }));
    CHECKN("three quarter turns one after the other", all<L>([&](auto x, auto y) { return at(hqq, x, y) == at(t, x, y); }));
}
FV_PROOF(turns_qca) { turns<qca_lib>(); }
FV_PROOF(turns_inml) { turns<inml_lib>(); }
FV_PROOF(turns_mol_qca) { turns<mol_lib>(); }

// ---- marks
template <class L>
static void marks()
{
    using mark = typename L::technology::cell_mark;
    using type = typename L::technology::cell_type;
    const auto          g = any_gate<L>("g");
    const port_position p{fv::any_in<uint16_t>("p.x", 0, L::gate_x_size() - 1), fv::any_in<uint16_t>("p.y", 0, L::gate_y_size() - 1)};
    const auto          m = fv::any<mark>("mark");
    const auto          r = L::mark_cell(g, p, m);
    CHECKN("the cell at the port is marked and no other changes",
           all<L>([&](auto x, auto y) { return at(r, x, y) == (x == p.x && y == p.y ? static_cast<type>(m) : at(g, x, y)); }));
}
FV_PROOF(marks_qca) { marks<qca_lib>(); }
FV_PROOF(marks_inml) { marks<inml_lib>(); }
FV_PROOF(marks_mol_qca) { marks<mol_lib>(); }
//FV: bounded@marks_rectangle = gates of 6 by 4 cells (the ones of SiDB libraries have 60 by 46)
FV_PROOF(marks_rectangle) { marks<lib<sidb_technology, 6, 4>>(); }

// ---- conversion of drawings
template <class L>
static void drawings()
{
    using type = typename L::technology::cell_type;
    fv::any_vector<typename L::template cell_list<char>> v{"drawing", 1};
    const auto d = v.get()[0];
    const auto g = L::cell_list_to_gate(d);
    const auto e = L::EMPTY_GATE;
    CHECKN("each character becomes the cell at its place", all<L>([&](auto x, auto y) { return at(g, x, y) == static_cast<type>(at(d, x, y)); }));
    CHECKN("the empty gate has no cells", all<L>([&](auto x, auto y) { return L::technology::is_empty_cell(at(e, x, y)); }));
}
FV_PROOF(drawings_qca) { drawings<qca_lib>(); }
FV_PROOF(drawings_inml) { drawings<inml_lib>(); }
FV_PROOF(drawings_mol_qca) { drawings<mol_lib>(); }
FV_PROOF(drawings_sidb) { drawings<sidb_lib>(); }

// ---- merging
template <class L, uint64_t N>
static void merged()
{
    using tech = typename L::technology;
    const std::vector<typename L::fcn_gate> v = [] {
        if constexpr (N == 0) return std::vector<typename L::fcn_gate>{};
        else if constexpr (N == 1) return std::vector<typename L::fcn_gate>{any_gate<L>("g0")};
        else if constexpr (N == 2) return std::vector<typename L::fcn_gate>{any_gate<L>("g0"), any_gate<L>("g1")};
        else return std::vector<typename L::fcn_gate>{any_gate<L>("g0"), any_gate<L>("g1"), any_gate<L>("g2")};
    }();
    const auto m    = L::merge(v);
    const auto none = [&](auto x, auto y) {
        bool r = true;
        for (uint64_t i = 0; i < N; ++i) r = r & tech::is_empty_cell(at(v[i], x, y));
        return r;
    };
    const auto one = [&](auto x, auto y) {
        bool r = false;
        for (uint64_t i = 0; i < N; ++i) r = r | (at(m, x, y) == at(v[i], x, y));
        return r;
    };
    CHECKN("a position is empty exactly if it is in all gates", all<L>([&](auto x, auto y) { return tech::is_empty_cell(at(m, x, y)) == none(x, y); }));
    CHECKN("a cell is one of those given at its position", all<L>([&](auto x, auto y) { return none(x, y) | one(x, y); }));
}
//FV: bounded@merge_none = the empty list
//FV: bounded@merge_one = one gate
//FV: bounded@merge_two = two gates
//FV: bounded@merge_two_mol_qca = two gates
//FV: bounded@merge_three = three gates
FV_PROOF(merge_none) { merged<qca_lib, 0>(); }
FV_PROOF(merge_one) { merged<inml_lib, 1>(); }
FV_PROOF(merge_two) { merged<qca_lib, 2>(); }
FV_PROOF(merge_two_mol_qca) { merged<mol_lib, 2>(); }
FV_PROOF(merge_three) { merged<inml_lib, 3>(); }

// any number of gates: a position, a gate, and what the first i gates have at the position
using many = std::vector<inml_lib::fcn_gate>;
static uint64_t gx, gy, gk;
#ifdef FV_SYMBOLIC
static bool seen(const many&, inml_technology::cell_type v, uint64_t i) { return (__fv_uf2("seen", static_cast<uint64_t>(v), i) & 1) != 0; }
#else
static bool seen(const many& g, inml_technology::cell_type v, uint64_t i)
{
    for (uint64_t k = 0; k < i; ++k)
        if (g[k][gx][gy] == v) return true;
    return false;
}
#endif
FV_INV(merge)(const many& gates, const inml_lib::fcn_gate* it, const inml_lib::fcn_gate& retval, uint64_t x, uint64_t y)
{
    const uint64_t i = static_cast<uint64_t>(it - gates.data());
    if (i > gates.size()) return false;
    if (x != gx || y != gy) return true;
    const auto c = retval[x][y];
    ASSUME(!seen(gates, c, 0));
    if (i < gates.size())
    {
        const auto d = gates[i][x][y];
        ASSUME(seen(gates, c, i + 1) == (seen(gates, c, i) || c == d));
        ASSUME(seen(gates, d, i + 1));
    }
    return c == inml_technology::cell_type::EMPTY ? gk >= i || gates[gk][x][y] == inml_technology::cell_type::EMPTY : seen(gates, c, i);
}
FV_DEC(merge)(const many& gates, const inml_lib::fcn_gate* it, const inml_lib::fcn_gate& retval, uint64_t x, uint64_t y) { return gates.size() - static_cast<uint64_t>(it - gates.data()); }
FV_PROOF(merge_any)
{
    const auto                        n = fv::any_size("n", 0, 1ull << 32, 6);
    fv::any_vector<inml_lib::fcn_gate> v{"g", n};
    gx = fv::any_in<uint64_t>("x", 0, 3);
    gy = fv::any_in<uint64_t>("y", 0, 3);
    gk = fv::any<uint64_t>("k");
    const auto m = inml_lib::merge(v.get());
    bool       kept = true, given = true;
    for (uint64_t x = 0; x < 4; ++x)
        for (uint64_t y = 0; y < 4; ++y)
            if (x == gx && y == gy)
            {
                const auto c = m[x][y];
                kept  = gk >= n || v.get()[gk][x][y] == inml_technology::cell_type::EMPTY || c != inml_technology::cell_type::EMPTY;
                given = c == inml_technology::cell_type::EMPTY || seen(v.get(), c, n);
            }
    CHECKN("no cell is lost", kept);
    CHECKN("a cell is one of those given at its position", given);
}
