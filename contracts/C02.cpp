// C02 coordinate comparisons: strict total order, agreement of all relational operators with ==, hashing
#include "coords.hpp"
using namespace cs;

template <class C>
static void order_contract(const C& a, const C& b, const C& c)
{
    CHECK((a < b) == spec_less(a, b));
    CHECK((a == b) == same(a, b));
    CHECK((a != b) == !(a == b));
    CHECK((a > b) == (b < a));
    CHECK((a <= b) == !(b < a));
    CHECK((a >= b) == !(a < b));
    CHECK(static_cast<int>(a < b) + static_cast<int>(b < a) + static_cast<int>(a == b) == 1);
    CHECK(!(a < b && b < c) || a < c);
    CHECK(!(a == b && b == c) || a == c);
    CHECK(!(a == b) || std::hash<C>{}(a) == std::hash<C>{}(b));
    // death matters for equality
    CHECK(a.get_dead() != b);
    CHECK((a.get_dead() == b.get_dead()) == (a == b));
}
FV_PROOF(offset_order) { order_contract(LIVE(ucoord, a), LIVE(ucoord, b), LIVE(ucoord, c)); }
FV_PROOF(cube_order) { order_contract(LIVE(cube, a), LIVE(cube, b), LIVE(cube, c)); }
FV_PROOF(siqad_order) { order_contract(LIVE(sqd, a), LIVE(sqd, b), LIVE(sqd, c)); }
FV_PROOF(offset_hash_injective)
{
    // std::hash of a live or dead offset coordinate is collision-free (identity on the packed representation)
    const ucoord a{fv::any<uint64_t>("a")}, b{fv::any<uint64_t>("b")};
    CHECK((a == b) == (std::hash<ucoord>{}(a) == std::hash<ucoord>{}(b)));
}
