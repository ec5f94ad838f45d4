// C01 packed coordinate representation is lossless
#include "coords.hpp"
using namespace cs;

FV_PROOF(offset_fields_preserved)
{
    const auto x = fv::any_in<uint32_t>("x", 0, U31), y = fv::any_in<uint32_t>("y", 0, U31), z = fv::any_in<uint32_t>("z", 0, 1);
    const ucoord c{x, y, z};
    CHECK(X(c) == x && Y(c) == y && Z(c) == z && !c.is_dead());
    const ucoord c2{x, y};
    CHECK(X(c2) == x && Y(c2) == y && Z(c2) == 0 && !c2.is_dead());
}
FV_PROOF(offset_encode_decode)
{
    const auto   c = LIVE(ucoord, c);
    const auto   t = static_cast<uint64_t>(c);
    const ucoord r{t};
    CHECK(same(r, c));
    CHECK(r == c);
    CHECK(c == t);
    CHECK((t >> 63) == 0);
    const auto   td = static_cast<uint64_t>(c.get_dead());
    const ucoord rd{td};
    CHECK(same(rd, c.get_dead()));
    CHECK(td != t);
}
FV_PROOF(offset_decode_encode)
{
    const auto   t = fv::any<uint64_t>("t");
    const ucoord c{t};
    CHECK(static_cast<uint64_t>(c) == t);
    CHECK(c.is_dead() == ((t >> 63) != 0));
    CHECK(c == t);
}
FV_PROOF(offset_encode_injective)
{
    const auto a = LIVE(ucoord, a), b = LIVE(ucoord, b);
    CHECK((static_cast<uint64_t>(a) == static_cast<uint64_t>(b)) == (X(a) == X(b) && Y(a) == Y(b) && Z(a) == Z(b)));
}
template <class C>
static void dead_contract(const C& c)
{
    const C d = c.get_dead();
    CHECK(!c.is_dead());
    CHECK(d.is_dead());
    CHECK(X(d) == X(c) && Y(d) == Y(c) && Z(d) == Z(c));
    CHECK(d != c);
    CHECK(same(d.get_dead(), d));
    const C e{};
    CHECK(e.is_dead() && X(e) == 0 && Y(e) == 0 && Z(e) == 0);
}
FV_PROOF(offset_dead) { dead_contract(LIVE(ucoord, c)); }
FV_PROOF(cube_dead) { dead_contract(LIVE(cube, c)); }
FV_PROOF(siqad_dead) { dead_contract(LIVE(sqd, c)); }
FV_PROOF(cube_fields_preserved)
{
    const auto x = fv::any<int32_t>("x"), y = fv::any<int32_t>("y"), z = fv::any<int32_t>("z");
    const cube c{x, y, z};
    CHECK(X(c) == x && Y(c) == y && Z(c) == z && !c.is_dead());
    const cube c2{x, y};
    CHECK(X(c2) == x && Y(c2) == y && Z(c2) == 0 && !c2.is_dead());
}
FV_PROOF(siqad_fields_preserved)
{
    const auto x = fv::any<int32_t>("x"), y = fv::any<int32_t>("y");
    const auto z = fv::any_in<uint32_t>("z", 0, 1);
    const sqd  c{x, y, z};
    CHECK(X(c) == x && Y(c) == y && Z(c) == z && !c.is_dead());
    const sqd c2{x, y};
    CHECK(X(c2) == x && Y(c2) == y && Z(c2) == 0 && !c2.is_dead());
}
FV_PROOF(offset_to_cube_preserves)
{
    const auto c = LIVE(ucoord, c);
    const auto q = fiction::offset_to_cube_coord(c);
    CHECK(!q.is_dead() && X(q) == X(c) && Y(q) == Y(c) && Z(q) == Z(c));
    CHECK(fiction::offset_to_cube_coord(c.get_dead()).is_dead());
}
