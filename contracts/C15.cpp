// C15 cell ports: order, equality, hashing of positions and directions
#include "fv.hpp"
#include <fiction/technology/cell_ports.hpp>
using namespace fiction;

static port_position any_pos(const char* x, const char* y, const char* i, const char* o) { return port_position{fv::any<uint16_t>(x), fv::any<uint16_t>(y), fv::any<bool>(i), fv::any<bool>(o)}; }
static port_direction any_dir(const char* d, const char* i, const char* o)
{
    const auto v = fv::any_in<uint8_t>(d, 0, 8);
    return port_direction{static_cast<port_direction::cardinal>(v), fv::any<bool>(i), fv::any<bool>(o)};
}
FV_PROOF(construction)
{
    const auto x = fv::any<uint16_t>("x"), y = fv::any<uint16_t>("y");
    const auto i = fv::any<bool>("i"), o = fv::any<bool>("o");
    const port_position p{x, y, i, o};
    CHECK(p.x == x && p.y == y && p.pi == i && p.po == o);
    const port_position q{x, y};
    CHECK(q.x == x && q.y == y && !q.pi && !q.po);
    const port_direction d{port_direction::WEST, i, o};
    CHECK(d.dir == port_direction::WEST && d.pi == i && d.po == o);
    const port_position z{};
    CHECK(z.x == 0 && z.y == 0 && !z.pi && !z.po);
}
FV_PROOF(position_order)
{
    const auto a = any_pos("ax", "ay", "ai", "ao"), b = any_pos("bx", "by", "bi", "bo"), c = any_pos("cx", "cy", "ci", "co");
    // lexicographic by location, irrespective of the input/output flags
    CHECK((a == b) == (a.x == b.x && a.y == b.y));
    CHECK(static_cast<int>(a < b) + static_cast<int>(a == b) + static_cast<int>(b < a) == 1);
    CHECK(fv::implies(a < b && b < c, a < c));
    CHECK(fv::implies(a.x < b.x, a < b));
    CHECK(fv::implies(a.x == b.x && a.y < b.y, a < b));
    CHECK(!(a < a));
}
FV_PROOF(position_hash)
{
    const auto a = any_pos("ax", "ay", "ai", "ao"), b = any_pos("bx", "by", "bi", "bo");
    CHECK(fv::implies(a == b, std::hash<port_position>{}(a) == std::hash<port_position>{}(b)));
#ifndef FV_SYMBOLIC
    const port_position e{a.x, a.y, b.pi, b.po};
    CHECK(std::hash<port_position>{}(a) == std::hash<port_position>{}(e));
#endif
}
FV_PROOF(direction_order)
{
    const auto a = any_dir("a", "ai", "ao"), b = any_dir("b", "bi", "bo"), c = any_dir("c", "ci", "co");
    CHECK((a == b) == (a.dir == b.dir));
    CHECK(static_cast<int>(a < b) + static_cast<int>(a == b) + static_cast<int>(b < a) == 1);
    CHECK(fv::implies(a < b && b < c, a < c));
    CHECK((a < b) == (a.dir < b.dir));
    CHECK(fv::implies(a == b, std::hash<port_direction>{}(a) == std::hash<port_direction>{}(b)));
}
