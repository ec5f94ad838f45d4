// C04 conversions between SiQAD and array coordinates, coordinate arithmetic, area and volume
#include "coords.hpp"
using namespace cs;
using fiction::area;
using fiction::volume;

// row number of a SiQAD coordinate: two rows per dimer pair
static int64_t row(const sqd& c) { return 2 * Y(c) + Z(c); }

FV_PROOF(to_fiction_cube_exact)
{
    const auto c = LIVE(sqd, c);
    const auto f = fiction::siqad::to_fiction_coord<cube>(c);
    CHECK(!f.is_dead());
    CHECK(X(f) == X(c) && Z(f) == 0);
    // exact where representable, saturating otherwise
    const int64_t r = row(c), lo = -2147483648ll, hi = 2147483647ll;
    CHECK(Y(f) == (r > hi ? hi : (r < lo ? lo : r)));
}
FV_PROOF(to_fiction_offset_exact)
{
    const auto c = LIVE(sqd, c);
    ASSUME(X(c) >= 0 && Y(c) >= 0 && row(c) <= 0x7fffffff);
    const auto f = fiction::siqad::to_fiction_coord<ucoord>(c);
    CHECK(!f.is_dead() && X(f) == X(c) && Y(f) == row(c) && Z(f) == 0);
}
FV_PROOF(to_fiction_dead)
{
    const auto c = LIVE(sqd, c);
    CHECK(fiction::siqad::to_fiction_coord<cube>(c.get_dead()).is_dead());
    CHECK(fiction::siqad::to_fiction_coord<ucoord>(c.get_dead()).is_dead());
}
FV_PROOF(to_siqad_cube)
{
    const auto x = fv::any<int32_t>("x"), y = fv::any<int32_t>("y");
    const cube f{x, y};
    const auto s = fiction::siqad::to_siqad_coord(f);
    CHECK(!s.is_dead() && X(s) == x);
    CHECK(row(s) == y);
    CHECK(fiction::siqad::to_fiction_coord<cube>(s) == f);
}
FV_PROOF(to_siqad_offset)
{
    const auto   x = fv::any_in<uint32_t>("x", 0, U31), y = fv::any_in<uint32_t>("y", 0, U31);
    const ucoord f{x, y};
    const auto   s = fiction::siqad::to_siqad_coord(f);
    CHECK(!s.is_dead() && X(s) == x && row(s) == y);
    CHECK(fiction::siqad::to_fiction_coord<ucoord>(s) == f);
}
FV_PROOF(siqad_roundtrip)
{
    const auto c = LIVE(sqd, c);
    ASSUME(row(c) >= -2147483648ll && row(c) <= 2147483647ll);
    CHECK(fiction::siqad::to_siqad_coord(fiction::siqad::to_fiction_coord<cube>(c)) == c);
}
static sqd small(const char* nx, const char* ny, const char* nz)
{
    const auto x = fv::any<int32_t>(nx), y = fv::any<int32_t>(ny);
    ASSUME(x > -0x20000000 && x < 0x20000000 && y > -0x20000000 && y < 0x20000000);
    return sqd{x, y, fv::any_in<uint32_t>(nz, 0, 1)};
}
FV_PROOF(siqad_arithmetic)
{
    const auto a = small("a.x", "a.y", "a.z"), b = small("b.x", "b.y", "b.z"), c = small("c.x", "c.y", "c.z");
    const auto s = a + b, d = a - b;
    CHECK(!s.is_dead() && !d.is_dead());
    CHECK(X(s) == X(a) + X(b) && row(s) == row(a) + row(b));
    CHECK(X(d) == X(a) - X(b) && row(d) == row(a) - row(b));
    CHECK(a + b == b + a);
    CHECK((a + b) - b == a);
    CHECK((a + b) + c == a + (b + c));
}
FV_PROOF(cube_arithmetic)
{
    const auto l = [](const char* n)
    {
        const auto v = fv::any<int32_t>(n);
        ASSUME(v > -0x20000000 && v < 0x20000000);
        return v;
    };
    const cube a{l("a.x"), l("a.y"), l("a.z")}, b{l("b.x"), l("b.y"), l("b.z")};
    const auto s = a + b, d = a - b;
    CHECK(!s.is_dead() && !d.is_dead());
    CHECK(X(s) == X(a) + X(b) && Y(s) == Y(a) + Y(b) && Z(s) == Z(a) + Z(b));
    CHECK(X(d) == X(a) - X(b) && Y(d) == Y(a) - Y(b) && Z(d) == Z(a) - Z(b));
    CHECK((a + b) - b == a);
}
static uint64_t mag(int64_t v) { return static_cast<uint64_t>(v < 0 ? -v : v); }

FV_PROOF(offset_area_volume)
{
    const auto c = LIVE(ucoord, c);
    CHECK(area(c) == (mag(X(c)) + 1) * (mag(Y(c)) + 1));
    CHECK(volume(c) == (mag(X(c)) + 1) * (mag(Y(c)) + 1) * (mag(Z(c)) + 1));
}
FV_PROOF(cube_area_volume)
{
    const auto c = LIVE(cube, c);
    // |INT32_MIN| is not representable in the component type
    ASSUME(X(c) > -2147483648ll && Y(c) > -2147483648ll && Z(c) > -2147483648ll);
    CHECK(area(c) == (mag(X(c)) + 1) * (mag(Y(c)) + 1));
    CHECK(volume(c) == (mag(X(c)) + 1) * (mag(Y(c)) + 1) * (mag(Z(c)) + 1));
}
FV_PROOF(siqad_area_volume)
{
    const auto c = LIVE(sqd, c);
    ASSUME(X(c) > -2147483648ll && Y(c) > -2147483648ll);
    CHECK(area(c) == (mag(X(c)) + 1) * (2 * mag(Y(c)) + mag(Z(c)) + 1));
    CHECK(volume(c) == area(c));
}
