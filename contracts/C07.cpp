// C07 clocking schemes: every built-in scheme is its published pattern, and overwriting a zone changes that zone only
#include "fv.hpp"
#include "coords.hpp"
#include <fiction/layouts/cartesian_layout.hpp>
#include <fiction/layouts/clocked_layout.hpp>
#include <fiction/layouts/clocking_scheme.hpp>
#include <fiction/layouts/hexagonal_layout.hpp>
#include <fiction/layouts/shifted_cartesian_layout.hpp>
//FV: shim = .
//FV: pipe = inline
//FV: cxx = -fno-access-control
//FV: trust = phmap's hash maps are replaced by a stand-in with their mathematical meaning
using namespace fiction;
using namespace cs;
using i64  = int64_t;
using qube = cs::cube;

template <class C>
using cart = clocked_layout<cartesian_layout<C>>;
template <class C, class A>
using hexl = clocked_layout<hexagonal_layout<C, A>>;

// mathematical remainder
static i64 mod(i64 a, i64 n)
{
    const i64 r = a % n;
    return r < 0 ? r + n : r;
}
#define SCHEME(make, phases, reg, zone)                                                                                 \
    const auto s = make;                                                                                               \
    const auto c = LIVE(C, c);                                                                                         \
    const i64  x = X(c), y = Y(c);                                                                                     \
    (void)x, (void)y;                                                                                                  \
    const auto v = s(c);                                                                                               \
    CHECKN("number of phases", s.num_clocks == (phases));                                                              \
    CHECKN("zone number below the number of phases", v < (phases));                                                    \
    CHECKN("zone number of the defining pattern, repeated in all directions", static_cast<i64>(v) == (zone));          \
    CHECKN("regular exactly if the zones follow from the position", s.is_regular() == (reg))

template <class L, class C, int N>
static void formulas()
{
    constexpr auto n = N == 3 ? num_clks::THREE : num_clks::FOUR;
    const auto     k = fv::any_in<uint8_t>("scheme", 0, 3);
    if (k == 0)
    {
        SCHEME(open_clocking<L>(n), N, false, 0);
    }
    else if (k == 1)
    {
        SCHEME(columnar_clocking<L>(n), N, true, mod(x, N));
    }
    else if (k == 2)
    {
        SCHEME(row_clocking<L>(n), N, true, mod(y, N));
    }
    else
    {
        SCHEME(twoddwave_clocking<L>(n), N, true, (mod(x, N) + mod(y, N)) % N);
    }
}
FV_PROOF(formulas3_offset) { formulas<cart<ucoord>, ucoord, 3>(); }
FV_PROOF(formulas4_offset) { formulas<cart<ucoord>, ucoord, 4>(); }
FV_PROOF(formulas3_cube) { formulas<cart<qube>, qube, 3>(); }
FV_PROOF(formulas4_cube) { formulas<cart<qube>, qube, 4>(); }
FV_PROOF(formulas3_siqad) { formulas<cart<sqd>, sqd, 3>(); }
FV_PROOF(formulas4_siqad) { formulas<cart<sqd>, sqd, 4>(); }

// patterns as published
static constexpr uint8_t USE[4][4]    = {{0, 1, 2, 3}, {3, 2, 1, 0}, {2, 3, 0, 1}, {1, 0, 3, 2}};
static constexpr uint8_t RES[4][4]    = {{3, 0, 1, 2}, {0, 1, 0, 3}, {1, 2, 3, 0}, {0, 3, 2, 1}};
static constexpr uint8_t ESR[4][4]    = {{3, 0, 1, 2}, {0, 1, 2, 3}, {1, 2, 3, 0}, {0, 3, 2, 1}};
static constexpr uint8_t CFE[4][4]    = {{0, 1, 0, 1}, {3, 2, 3, 2}, {0, 1, 0, 1}, {3, 2, 3, 2}};
static constexpr uint8_t SRS[4][4]    = {{1, 0, 3, 2}, {2, 3, 0, 1}, {3, 2, 3, 0}, {0, 1, 2, 1}};
static constexpr uint8_t RIPPLE[4][4] = {{0, 1, 2, 3}, {3, 2, 1, 0}, {0, 1, 2, 3}, {3, 2, 1, 0}};
static constexpr uint8_t BANCS[6][3]  = {{0, 1, 2}, {2, 1, 0}, {2, 0, 1}, {1, 0, 2}, {1, 2, 0}, {0, 2, 1}};

template <class L, class C>
static void tables()
{
    const auto k = fv::any_in<uint8_t>("scheme", 0, 6);
    if (k == 0)
    {
        SCHEME(use_clocking<L>(), 4, true, USE[mod(y, 4)][mod(x, 4)]);
    }
    else if (k == 1)
    {
        SCHEME(res_clocking<L>(), 4, true, RES[mod(y, 4)][mod(x, 4)]);
    }
    else if (k == 2)
    {
        SCHEME(esr_clocking<L>(), 4, true, ESR[mod(y, 4)][mod(x, 4)]);
    }
    else if (k == 3)
    {
        SCHEME(cfe_clocking<L>(), 4, true, CFE[mod(y, 4)][mod(x, 4)]);
    }
    else if (k == 4)
    {
        SCHEME(srs_clocking<L>(), 4, true, SRS[mod(y, 4)][mod(x, 4)]);
    }
    else if (k == 5)
    {
        SCHEME(ripple_clocking<L>(), 4, true, RIPPLE[mod(y, 4)][mod(x, 4)]);
    }
    else
    {
        SCHEME(bancs_clocking<L>(), 3, true, BANCS[mod(y, 6)][mod(x, 3)]);
    }
}
FV_PROOF(tables_offset) { tables<cart<ucoord>, ucoord>(); }
FV_PROOF(tables_cube) { tables<cart<qube>, qube>(); }
FV_PROOF(tables_siqad) { tables<cart<sqd>, sqd>(); }

// hexagonal 2DDWave: the zone grows by one to the east and to the south-east (resp. south and south-east/north-east...)
template <class C, class A>
static void hexagonal()
{
    using L               = hexl<C, A>;
    constexpr bool rows   = std::is_same_v<typename A::orientation, pointy_top_hex>;
    constexpr i64  odd    = std::is_same_v<A, odd_row_hex> || std::is_same_v<A, odd_column_hex> ? 1 : 0;
    const bool     three  = fv::any<bool>("three phases");
    if (three)
    {
        SCHEME(twoddwave_hex_clocking<L>(num_clks::THREE), 3, true, rows ? (mod(x, 3) + (mod(y, 6) + odd) / 2) % 3 : (mod(y, 3) + (mod(x, 6) + odd) / 2) % 3);
    }
    else
    {
        SCHEME(twoddwave_hex_clocking<L>(num_clks::FOUR), 4, true, rows ? (mod(x, 4) + (mod(y, 8) + odd) / 2) % 4 : (mod(y, 4) + (mod(x, 8) + odd) / 2) % 4);
    }
}
FV_PROOF(hex_odd_row) { hexagonal<ucoord, odd_row_hex>(); }
FV_PROOF(hex_even_row) { hexagonal<ucoord, even_row_hex>(); }
FV_PROOF(hex_odd_column) { hexagonal<ucoord, odd_column_hex>(); }
FV_PROOF(hex_even_column) { hexagonal<ucoord, even_column_hex>(); }
FV_PROOF(hex_odd_row_cube) { hexagonal<qube, odd_row_hex>(); }
FV_PROOF(hex_even_row_cube) { hexagonal<qube, even_row_hex>(); }
FV_PROOF(hex_odd_column_cube) { hexagonal<qube, odd_column_hex>(); }
FV_PROOF(hex_even_column_cube) { hexagonal<qube, even_column_hex>(); }

// ---- overwriting zones: from any state an object of the class can be in
template <class C>
static uint8_t FN(const C& c)
{
    return static_cast<uint8_t>(__fv_uf3("FN", static_cast<uint64_t>(X(c)), static_cast<uint64_t>(Y(c)), static_cast<uint64_t>(Z(c))));
}
template <class C>
static clocking_scheme<C> any_scheme()
{
    const auto         n = fv::any<uint8_t>("phases");
    const bool         r = fv::any<bool>("regular");
    clocking_scheme<C> s{"X", [](const C& c) { return FN(c); }, fv::any<uint8_t>("in"), fv::any<uint8_t>("out"), n, r};
    ASSUME(n > 0);
    if (!r) s.override.fv_arbitrary(1);  // a regular scheme has never been overwritten
    return s;
}
template <class C>
static void overwrite()
{
    auto       s = any_scheme<C>();
    const auto c = LIVE(C, c), d = LIVE(C, d);
    const auto v = fv::any<uint8_t>("v");
    const auto before = s(d);
    const bool reg    = s.is_regular();
    CHECKN("a scheme without overwritten zones follows its function", !reg || before == FN(d));
    s.override_clock_number(c, v);
    CHECKN("the overwritten zone has the given number modulo the number of phases", s(c) == v % s.num_clocks);
    if (!(c == d)) CHECKN("no other zone changes", s(d) == before);
    CHECKN("a scheme with an overwritten zone is not regular", !s.is_regular());
    // overwriting a second zone keeps the first one; overwriting the same zone again replaces it
    const auto w = fv::any<uint8_t>("w");
    s.override_clock_number(d, w);
    CHECK(s(d) == w % s.num_clocks);
    if (!(c == d)) CHECK(s(c) == v % s.num_clocks);
    CHECK(s(c) < s.num_clocks);
}
FV_PROOF(overwrite_offset) { overwrite<ucoord>(); }
FV_PROOF(overwrite_cube) { overwrite<qube>(); }
FV_PROOF(overwrite_siqad) { overwrite<sqd>(); }

// a copy of a scheme has the same zones and is independent of the original
template <class C>
static void copies()
{
    auto       s = any_scheme<C>();
    const auto c = LIVE(C, c), d = LIVE(C, d);
    auto       t = s;
    CHECKN("a copy has the same zones", t(d) == s(d) && t.is_regular() == s.is_regular() && t.num_clocks == s.num_clocks && t.max_in_degree == s.max_in_degree && t.max_out_degree == s.max_out_degree && t == std::string{s.name});
    const auto before = s(d);
    t.override_clock_number(c, fv::any<uint8_t>("v"));
    CHECKN("overwriting a copy leaves the original alone", s(d) == before);
}
FV_PROOF(copies_offset) { copies<ucoord>(); }
