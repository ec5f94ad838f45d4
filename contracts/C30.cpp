// C30 clocked layouts: data flow between neighbouring zones, zone assignment, deep copies
#include "fv.hpp"
#include "coords.hpp"
#include "hexgrid.hpp"
#include <fiction/layouts/cartesian_layout.hpp>
#include <fiction/layouts/clocked_layout.hpp>
#include <fiction/layouts/clocking_scheme.hpp>
#include <fiction/layouts/hexagonal_layout.hpp>
#include <string>
#include <string_view>
//FV: shim = .
//FV: pipe = inline
//FV: cxx = -fno-access-control
//FV: trust = phmap's hash maps are replaced by a stand-in with their mathematical meaning
//FV: trust = mockturtle::detail::foreach_element is replaced by a stand-in with its documented meaning
using namespace fiction;
using namespace cs;
using qube = cs::cube;

// zones are below the number of phases, as every scheme guarantees (C07)
static uint8_t PHASES;
template <class C>
static uint8_t FN(const C& c)
{
    const auto v = static_cast<uint8_t>(__fv_uf3("FN", static_cast<uint64_t>(X(c)), static_cast<uint64_t>(Y(c)), static_cast<uint64_t>(Z(c))));
    ASSUME(v < PHASES);
    return v;
}
template <class C>
static clocking_scheme<C> any_scheme(const char* name = "SOME")
{
    PHASES = fv::any<uint8_t>("phases");
    ASSUME(PHASES > 0);
    return clocking_scheme<C>{name, [](const C& c) { return FN(c); }, fv::any<uint8_t>("in"), fv::any<uint8_t>("out"), PHASES, fv::any<bool>("regular")};
}
template <class C>
static void flow()
{
    const auto                                ar = BOX(C, ar);
    const clocked_layout<cartesian_layout<C>> l{ar, any_scheme<C>()};
    const auto                                a = LIVE(C, a), b = LIVE(C, b);
    const int                                 za = FN(a), zb = FN(b), n = PHASES;
    CHECKN("a tile has the zone of its scheme", l.get_clock_number(a) == za);
    CHECKN("data flows into a tile from different tiles of the preceding zone", l.is_incoming_clocked(a, b) == (!(a == b) && (zb + 1 == za || (zb == n - 1 && za == 0))));
    CHECKN("data flows out of a tile to different tiles of the following zone", l.is_outgoing_clocked(a, b) == (!(a == b) && (za + 1 == zb || (za == n - 1 && zb == 0))));
    CHECKN("what flows out of one tile flows into the other", l.is_outgoing_clocked(a, b) == l.is_incoming_clocked(b, a));
}
FV_PROOF(flow_offset) { flow<ucoord>(); }
FV_PROOF(flow_cube) { flow<qube>(); }
FV_PROOF(flow_siqad) { flow<sqd>(); }

// the incoming (outgoing) zones of a tile are its neighbours that are clocked so, each once
template <class L, class C>
static void enumeration(const L& l, const C& c, const C& o)
{
    unsigned want_in = 0, want_out = 0;
    bool     oin = false, oout = false;
    l.foreach_adjacent_coordinate(c,
                                  [&](const auto& d)
                                  {
                                      const bool i = l.is_incoming_clocked(c, d), u = l.is_outgoing_clocked(c, d);
                                      want_in += i ? 1 : 0;
                                      want_out += u ? 1 : 0;
                                      oin  = oin || (i && d == o);
                                      oout = oout || (u && d == o);
                                  });
    bool     fin = false, fout = false;
    unsigned nin = 0, nout = 0;
    l.foreach_incoming_clocked_zone(c,
                                    [&](const auto& d)
                                    {
                                        fin = fin || d == o;
                                        ++nin;
                                    });
    l.foreach_outgoing_clocked_zone(c,
                                    [&](const auto& d)
                                    {
                                        fout = fout || d == o;
                                        ++nout;
                                    });
    CHECKN("exactly the neighbours that feed the tile are enumerated", fin == oin && nin == want_in);
    CHECKN("exactly the neighbours that the tile feeds are enumerated", fout == oout && nout == want_out);
    CHECKN("degrees count the enumerated neighbours", l.in_degree(c) == want_in && l.out_degree(c) == want_out && l.degree(c) == want_in + want_out);
}
#define CART(C)                                                                                                        \
    const auto                                ar = BOX(C, ar);                                                         \
    const clocked_layout<cartesian_layout<C>> l{ar, any_scheme<C>()};                                                  \
    const auto                                c = BOX(C, c), o = BOX(C, o);                                            \
    ASSUME(in_box(c, ar) && in_box(o, ar))
FV_PROOF(enumeration_offset) { CART(ucoord); enumeration(l, c, o); }
FV_PROOF(enumeration_cube) { CART(qube); enumeration(l, c, o); }
// the lists are what is enumerated: for every combination of neighbours that feed (are fed by) the tile
static void lists(bool incoming)
{
    const clocked_layout<cartesian_layout<ucoord>> l{ucoord{2, 2}, any_scheme<ucoord>()};
    const ucoord                                   c{1, 1};
    const ucoord                                   n[4] = {l.north(c), l.east(c), l.south(c), l.west(c)};
    const auto                                     m    = fv::any_in<uint8_t>("mask", 0, 15);
    for (unsigned k = 0; k < 16; ++k)
    {
        if (m != k) continue;
        for (unsigned i = 0; i < 4; ++i) ASSUME((incoming ? l.is_incoming_clocked(c, n[i]) : l.is_outgoing_clocked(c, n[i])) == ((k >> i & 1) != 0));
        const auto v = incoming ? l.incoming_clocked_zones(c) : l.outgoing_clocked_zones(c);
        CHECKN("the list has one entry for each zone", v.size() == static_cast<size_t>(__builtin_popcount(k)));
        for (unsigned i = 0; i < 4; ++i)
        {
            unsigned count = 0;
            for (const auto& d : v) count += d == n[i] ? 1 : 0;
            CHECKN("the list contains the zones that feed (are fed by) the tile", count == (k >> i & 1));
        }
    }
}
FV_PROOF(list_incoming) { lists(true); }
FV_PROOF(list_outgoing) { lists(false); }
template <class A>
static void hexagonal()
{
    using C       = ucoord;
    const auto ar = BOX(C, ar);
    ASSUME(ar.x < 1u << 30 && ar.y < 1u << 30);
    const clocked_layout<hexagonal_layout<C, A>> l{ar, any_scheme<C>()};
    const auto                                   c = BOX(C, c), o = BOX(C, o);
    ASSUME(in_box(c, ar) && in_box(o, ar));
    enumeration(l, c, o);
}
FV_PROOF(enumeration_even_row) { hexagonal<even_row_hex>(); }
FV_PROOF(enumeration_odd_column) { hexagonal<odd_column_hex>(); }

// assigning, replacing, cloning
template <class C>
static void assignment()
{
    const auto                          ar = BOX(C, ar);
    clocked_layout<cartesian_layout<C>> l{ar, any_scheme<C>()};
    const auto                          a = LIVE(C, a), b = LIVE(C, b);
    const auto                          before = l.get_clock_number(b);
    const auto                          v = fv::any<uint8_t>("v");
    auto                                k = l.clone();
    CHECKN("a clone has the same zones", k.get_clock_number(b) == before && k.num_clocks() == l.num_clocks() && k.is_regularly_clocked() == l.is_regularly_clocked() && k.is_clocking_scheme("SOME"));
    l.assign_clock_number(a, v);
    CHECKN("an assigned zone is the given number modulo the number of phases", l.get_clock_number(a) == v % PHASES);
    if (!(a == b)) CHECKN("assigning a zone changes no other", l.get_clock_number(b) == before);
    CHECKN("a layout with an assigned zone is not regularly clocked", !l.is_regularly_clocked());
    CHECKN("assigning a zone leaves clones alone", k.get_clock_number(b) == before);
    l.replace_clocking_scheme(columnar_clocking<clocked_layout<cartesian_layout<C>>>());
    CHECKN("replacing the scheme replaces all zones", l.is_clocking_scheme("COLUMNAR") && l.num_clocks() == 4 && l.get_clock_number(b) == static_cast<uint8_t>(X(b) & 3));
    CHECKN("replacing the scheme leaves clones alone", k.get_clock_number(b) == before);
}
FV_PROOF(assignment_offset) { assignment<ucoord>(); }
FV_PROOF(assignment_siqad) { assignment<sqd>(); }

template <class C>
static void clones()
{
    const auto                          ar = BOX(C, ar);
    clocked_layout<cartesian_layout<C>> l{ar, any_scheme<C>()};
    const auto                          a = LIVE(C, a), b = LIVE(C, b);
    const auto                          before = l.get_clock_number(b);
    auto                                k = l.clone();
    k.assign_clock_number(a, fv::any<uint8_t>("v"));
    CHECKN("assigning a zone of a clone leaves the original alone", l.get_clock_number(b) == before);
}
FV_PROOF(clones_offset) { clones<ucoord>(); }

// names that are part of a longer text
FV_PROOF(scheme_names)
{
    clocked_layout<cartesian_layout<ucoord>> l{ucoord{1, 1}, any_scheme<ucoord>("USE")};
    const std::string_view                   text{"USER"};
    const auto                               n = fv::any_in<uint8_t>("n", 0, 4);
    for (uint8_t i = 0; i <= 4; ++i)
        if (n == i) CHECKN("the scheme of a layout is recognised by its name", l.is_clocking_scheme(text.substr(0, i)) == (i == 3));
}
