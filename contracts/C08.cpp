// C08 clocking schemes: degrees, data flow, classification and lookup by name
#include "fv.hpp"
#include "coords.hpp"
#include "hexgrid.hpp"
#include <fiction/layouts/cartesian_layout.hpp>
#include <fiction/layouts/clocked_layout.hpp>
#include <fiction/layouts/clocking_scheme.hpp>
#include <fiction/layouts/hexagonal_layout.hpp>
#include <string>
//FV: shim = .
//FV: assume = hexagonal layouts have at most 2^30 columns and rows (beyond that, cube coordinates overflow 32 bits)
//FV: pipe = inline
//FV: trust = phmap's hash maps are replaced by a stand-in with their mathematical meaning
//FV: trust = mockturtle::detail::foreach_element is replaced by a stand-in with its documented meaning
using namespace fiction;
using namespace cs;

using cart = clocked_layout<cartesian_layout<ucoord>>;
using sch  = clocking_scheme<ucoord>;
template <class A>
using hexl = clocked_layout<hexagonal_layout<ucoord, A>>;

static constexpr int SCHEMES = 16;
static sch scheme(int k)
{
    switch (k)
    {
        case 0: return open_clocking<cart>(num_clks::THREE);
        case 1: return open_clocking<cart>(num_clks::FOUR);
        case 2: return columnar_clocking<cart>(num_clks::THREE);
        case 3: return columnar_clocking<cart>(num_clks::FOUR);
        case 4: return row_clocking<cart>(num_clks::THREE);
        case 5: return row_clocking<cart>(num_clks::FOUR);
        case 6: return twoddwave_clocking<cart>(num_clks::THREE);
        case 7: return twoddwave_clocking<cart>(num_clks::FOUR);
        case 8: return use_clocking<cart>();
        case 9: return res_clocking<cart>();
        case 10: return esr_clocking<cart>();
        case 11: return cfe_clocking<cart>();
        case 12: return ripple_clocking<cart>();
        case 13: return srs_clocking<cart>();
        case 14: return bancs_clocking<cart>();
        default: return twoddwave_hex_clocking<cart>();  // on a Cartesian layout, this is 2DDWAVE
    }
}
static constexpr const char* NAME[SCHEMES] = {"OPEN", "OPEN", "COLUMNAR", "COLUMNAR", "ROW", "ROW", "2DDWAVE", "2DDWAVE", "USE", "RES", "ESR", "CFE", "RIPPLE", "SRS", "BANCS", "2DDWAVE"};
static constexpr int         PHASES[SCHEMES] = {3, 4, 3, 4, 3, 4, 3, 4, 4, 4, 4, 4, 4, 4, 3, 4};
// is the declared degree attained?
static constexpr bool TIGHT[SCHEMES] = {false, false, false, false, false, false, true, true, true, true, true, false, true, true, true, true};

static uint8_t least(uint8_t a, uint8_t b)
{
    return a < b ? a : b;
}
#define LEMMA(...) do { const bool lemma = (__VA_ARGS__); CHECK(lemma); ASSUME(lemma); } while (false)
template <int64_t M>
static void step_of_remainder(int64_t a, int64_t b)
{
    const int64_t r = a % M;
    LEMMA(a == b || a + 1 == b || a - 1 == b);
    LEMMA(r >= 0 && r < M && b % M == (a == b ? r : b == a + 1 ? (r == M - 1 ? 0 : r + 1) : r == 0 ? M - 1 : r - 1));
}
// on a layout of any size, no tile has more incoming or outgoing zones than declared
template <int K>
static void degrees()
{
    const auto s = scheme(K);
    CHECKN("name of the scheme", s.name == NAME[K]);
    CHECKN("number of phases", s.num_clocks == PHASES[K]);
    const auto ar = BOX(ucoord, ar);
    const auto c  = BOX(ucoord, c);
    ASSUME(c.x <= ar.x && c.y <= ar.y && c.z <= ar.z);
    const cart l{ar, s};
    if constexpr (PHASES[K] == 3)
        l.foreach_adjacent_coordinate(c,
                                      [&](const auto& d)  // lemmas; everything after may use them
                                      {
                                          step_of_remainder<3>(c.x, d.x);
                                          step_of_remainder<K == 14 ? 6 : 3>(c.y, d.y);
                                      });
    CHECKN("no tile has more incoming zones than declared", l.in_degree(c) <= s.max_in_degree);
    CHECKN("no tile has more outgoing zones than declared", l.out_degree(c) <= s.max_out_degree);
    CHECKN("linear schemes are COLUMNAR, ROW, 2DDWAVE and 2DDWAVEHEX", is_linear_scheme<cart>(s) == ((K >= 2 && K <= 7) || K == 15));
    CHECKN("all but OPEN are regular", s.is_regular() == (K > 1));
    CHECKN("a layout reports the scheme it is clocked by", l.is_regularly_clocked() == s.is_regular() && l.num_clocks() == s.num_clocks && l.is_clocking_scheme(NAME[K]) && l.is_clocking_scheme("USE") == (K == 8));
    if (is_linear_scheme<cart>(s))
        l.foreach_outgoing_clocked_zone(c, [&](const auto& d) { CHECKN("data flow of linear schemes is to the east or to the south only", d == l.east(c) || d == l.south(c)); });
}
template <int K>
static void attained()
{
    const auto s = scheme(K);
    if constexpr (TIGHT[K])
    {
        const cart l{ucoord{9, 9}, s};
        uint8_t    in = 0, out = 0;
        for (uint64_t y = 1; y < 9; ++y)
            for (uint64_t x = 1; x < 9; ++x)
            {
                const auto a = l.in_degree(ucoord{x, y}), b = l.out_degree(ucoord{x, y});
                in  = in < a ? a : in;
                out = out < b ? b : out;
            }
        CHECKN("the declared in-degree is attained", in == s.max_in_degree);
        CHECKN("the declared out-degree is attained", out == s.max_out_degree);
    }
}
#define D(K) FV_PROOF(degrees_##K) { degrees<K>(); }
D(0) D(1) D(2) D(3) D(4) D(5) D(6) D(7) D(8) D(9) D(10) D(11) D(12) D(13) D(14) D(15)
FV_PROOF(attained_degrees)
{
    [&]<int... K>(std::integer_sequence<int, K...>) { (attained<K>(), ...); }(std::make_integer_sequence<int, SCHEMES>{});
}

// hexagonal 2DDWave: data flows to the east or in the two southern directions (rows), resp. to the south or in the two eastern ones
template <class A, int N, int P>
static void hexagonal()
{
    const auto s  = twoddwave_hex_clocking<hexl<A>>(N == 3 ? num_clks::THREE : num_clks::FOUR);
    CHECKN("name of the scheme", s.name == "2DDWAVEHEX");
    CHECKN("number of phases", s.num_clocks == N);
    CHECKN("2DDWAVEHEX is linear and regular", is_linear_scheme<hexl<A>>(s) && s.is_regular());
    const auto l = [&]
    {
        const auto mx = fv::any_in<uint64_t>("X", 0, hg::MAXD), my = fv::any_in<uint64_t>("Y", 0, hg::MAXD);
        const auto mz = fv::any_in<uint64_t>("Z", 0, 1);
        return hexl<A>{ucoord{mx, my, mz}, s};
    }();
    const auto c = hg::parity_tile<A>(P, "x", "y", "z", l.x(), l.y(), l.z());
    constexpr bool rows = std::is_same_v<typename A::orientation, pointy_top_hex>;
    const auto in2 = rows ? l.west(c) : l.north(c), out2 = rows ? l.east(c) : l.south(c), in1 = l.north_west(c), out1 = l.south_east(c);
    if constexpr (N == 3)
        l.foreach_adjacent_coordinate(c,
                                      [&](const auto& d)  // lemmas; everything after may use them
                                      {
                                          step_of_remainder<rows ? 3 : 6>(c.x, d.x);
                                          step_of_remainder<rows ? 6 : 3>(c.y, d.y);
                                          LEMMA(!l.is_incoming_clocked(c, d) || d == in1 || d == in2);
                                          LEMMA(!l.is_outgoing_clocked(c, d) || d == out1 || d == out2);
                                      });
    l.foreach_outgoing_clocked_zone(c, [&](const auto& d) { CHECKN("data flow of linear schemes is to the east or to the south only", d == l.south_east(c) || (rows ? d == l.east(c) || d == l.south_west(c) : d == l.south(c) || d == l.north_east(c))); });
    CHECKN("no tile has more incoming zones than declared", l.in_degree(c) <= s.max_in_degree);
    CHECKN("no tile has more outgoing zones than declared", l.out_degree(c) <= s.max_out_degree);
}
FV_PROOF(hex3_odd_row) { if (fv::any<bool>("parity")) hexagonal<odd_row_hex, 3, 1>(); else hexagonal<odd_row_hex, 3, 0>(); }
FV_PROOF(hex4_odd_row) { if (fv::any<bool>("parity")) hexagonal<odd_row_hex, 4, 1>(); else hexagonal<odd_row_hex, 4, 0>(); }
FV_PROOF(hex3_even_row) { if (fv::any<bool>("parity")) hexagonal<even_row_hex, 3, 1>(); else hexagonal<even_row_hex, 3, 0>(); }
FV_PROOF(hex4_even_row) { if (fv::any<bool>("parity")) hexagonal<even_row_hex, 4, 1>(); else hexagonal<even_row_hex, 4, 0>(); }
FV_PROOF(hex3_odd_column) { if (fv::any<bool>("parity")) hexagonal<odd_column_hex, 3, 1>(); else hexagonal<odd_column_hex, 3, 0>(); }
FV_PROOF(hex4_odd_column) { if (fv::any<bool>("parity")) hexagonal<odd_column_hex, 4, 1>(); else hexagonal<odd_column_hex, 4, 0>(); }
FV_PROOF(hex3_even_column) { if (fv::any<bool>("parity")) hexagonal<even_column_hex, 3, 1>(); else hexagonal<even_column_hex, 3, 0>(); }
FV_PROOF(hex4_even_column) { if (fv::any<bool>("parity")) hexagonal<even_column_hex, 4, 1>(); else hexagonal<even_column_hex, 4, 0>(); }

// ---- lookup by name
static constexpr int KEYS = 22;
struct entry
{
    const char* key;
    const char* name;
    uint8_t     phases;
};
static constexpr entry KEY[KEYS] = {{"OPEN", "OPEN", 4}, {"OPEN3", "OPEN", 3}, {"OPEN4", "OPEN", 4}, {"COLUMNAR", "COLUMNAR", 4}, {"COLUMNAR3", "COLUMNAR", 3}, {"COLUMNAR4", "COLUMNAR", 4}, {"ROW", "ROW", 4}, {"ROW3", "ROW", 3}, {"ROW4", "ROW", 4}, {"2DDWAVE", "2DDWAVE", 4}, {"2DDWAVE3", "2DDWAVE", 3}, {"2DDWAVE4", "2DDWAVE", 4}, {"2DDWAVEHEX", "2DDWAVEHEX", 4}, {"2DDWAVEHEX3", "2DDWAVEHEX", 3}, {"2DDWAVEHEX4", "2DDWAVEHEX", 4}, {"USE", "USE", 4}, {"RES", "RES", 4}, {"ESR", "ESR", 4}, {"CFE", "CFE", 4}, {"RIPPLE", "RIPPLE", 4}, {"SRS", "SRS", 4}, {"BANCS", "BANCS", 3}};
static char up(char c)
{
    return c >= 'a' && c <= 'z' ? static_cast<char>(c - 'a' + 'A') : c;
}
static constexpr const char* CH[13] = {"c0", "c1", "c2", "c3", "c4", "c5", "c6", "c7", "c8", "c9", "c10", "c11", "c12"};
// zones of tiles (0,1) and (1,2)
static constexpr uint8_t ZONE01[KEYS] = {0, 0, 0, 0, 0, 0, 1, 1, 1, 1, 1, 1, 0, 0, 0, 3, 0, 0, 3, 3, 2, 2};
static constexpr uint8_t ZONE12[KEYS] = {0, 0, 0, 1, 1, 1, 2, 2, 2, 3, 0, 3, 2, 2, 2, 3, 2, 2, 1, 1, 2, 0};
using hexag = hexl<even_row_hex>;
// every registered name, in any mixture of upper and lower case
template <int K>
static void registered()
{
    constexpr size_t n = std::char_traits<char>::length(KEY[K].key);
    char             b[n + 1];
    const auto       lower = fv::any<uint16_t>("lower");
    for (size_t i = 0; i < n; ++i)
    {
        const char c = KEY[K].key[i];
        b[i]         = (lower >> i & 1) != 0 && c >= 'A' ? static_cast<char>(c + 32) : c;
    }
    b[n] = 0;
    const auto s = get_clocking_scheme<hexag>(std::string_view{b, n});
    CHECKN("every scheme is found under its names, irrespective of case", s.has_value());
    CHECKN("the scheme found has the name asked for", s->name == KEY[K].name);
    CHECKN("the scheme found has the number of phases asked for", s->num_clocks == KEY[K].phases);
    CHECKN("the scheme found has the zones of the one asked for", (*s)(ucoord{0, 1}) == ZONE01[K] && (*s)(ucoord{1, 2}) == ZONE12[K]);
}
#define R(K) FV_PROOF(registered_##K) { registered<K>(); }
R(0) R(1) R(2) R(3) R(4) R(5) R(6) R(7) R(8) R(9) R(10) R(11) R(12) R(13) R(14) R(15) R(16) R(17) R(18) R(19) R(20) R(21)
// any other name of N characters
template <size_t N>
static void unregistered()
{
    char b[N + 1];
    for (size_t i = 0; i < N; ++i)
    {
        b[i] = static_cast<char>(fv::any<uint8_t>(CH[i]));
        ASSUME(static_cast<unsigned char>(b[i]) < 128);
    }
    b[N] = 0;
    for (int k = 0; k < KEYS; ++k)
    {
        if (std::char_traits<char>::length(KEY[k].key) != N) continue;
        bool eq = true;
        for (size_t i = 0; i < N; ++i) eq = eq & (up(b[i]) == KEY[k].key[i]);
        ASSUME(!eq);
    }
    CHECKN("no scheme is found under another name", !get_clocking_scheme<hexag>(std::string_view{b, N}).has_value());
}
#define U(N) FV_PROOF(unregistered_##N) { unregistered<N>(); }
U(0) U(1) U(2) U(3) U(4) U(5) U(6) U(7) U(8) U(9) U(10) U(11) U(12)
//FV: bounded@unregistered_0 = names of up to 12 characters
//FV: bounded@unregistered_1 = names of up to 12 characters
//FV: bounded@unregistered_2 = names of up to 12 characters
//FV: bounded@unregistered_3 = names of up to 12 characters
//FV: bounded@unregistered_4 = names of up to 12 characters
//FV: bounded@unregistered_5 = names of up to 12 characters
//FV: bounded@unregistered_6 = names of up to 12 characters
//FV: bounded@unregistered_7 = names of up to 12 characters
//FV: bounded@unregistered_8 = names of up to 12 characters
//FV: bounded@unregistered_9 = names of up to 12 characters
//FV: bounded@unregistered_10 = names of up to 12 characters
//FV: bounded@unregistered_11 = names of up to 12 characters
//FV: bounded@unregistered_12 = names of up to 12 characters
