// C15 port lists: equality, merging and hashing of collections of ports
#include "rbtree.hpp"
#include "fv.hpp"
#include <fiction/technology/cell_ports.hpp>
//FV: bounded@list_equality = at most 2 input and 1 output ports per list
//FV: bounded@list_merge = at most 2 input ports per list
//FV: trust = libstdc++ red-black tree primitives keep the in-order sequence (contracts/rbtree.hpp)
using namespace fiction;
using pl = port_list<port_direction>;

static port_direction dir(uint8_t v) { return port_direction{static_cast<port_direction::cardinal>(v)}; }
FV_PROOF(list_equality)
{
    const auto a = fv::any_in<uint8_t>("a", 0, 8), b = fv::any_in<uint8_t>("b", 0, 8), c = fv::any_in<uint8_t>("c", 0, 8);
    const auto x = fv::any_in<uint8_t>("x", 0, 8), y = fv::any_in<uint8_t>("y", 0, 8), z = fv::any_in<uint8_t>("z", 0, 8);
    const pl   p{{dir(a), dir(b)}, {dir(c)}};
    const pl   q{{dir(x), dir(y)}, {dir(z)}};
    // as sets: order and repetition do not matter
    const bool same = ((a == x && b == y) || (a == y && b == x) || (a == b && x == y && a == x)) && c == z;
    CHECK((p == q) == same);
    CHECK(fv::implies(p == q, std::hash<pl>{}(p) == std::hash<pl>{}(q)));
}
FV_PROOF(list_merge)
{
    const auto a = fv::any_in<uint8_t>("a", 0, 8), b = fv::any_in<uint8_t>("b", 0, 8), c = fv::any_in<uint8_t>("c", 0, 8), d = fv::any_in<uint8_t>("d", 0, 8);
    pl p{{dir(a)}, {dir(c)}};
    pl q{{dir(b)}, {dir(d)}};
    pl& r = (p += q);
    CHECK(&r == &p);
    const auto v = fv::any_in<uint8_t>("v", 0, 8);
    // the union on both sides, inputs and outputs kept apart
    CHECK(r.inp.contains(dir(v)) == (v == a || v == b));
    CHECK(r.out.contains(dir(v)) == (v == c || v == d));
    CHECK(r.inp.size() == (a == b ? 1u : 2u));
    CHECK(r.out.size() == (c == d ? 1u : 2u));
}
