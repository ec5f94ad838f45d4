// C26 hashing of composite values respects equality
#include "fv.hpp"
#include "rbtree.hpp"
#include <array>
#include <fiction/utils/hash.hpp>
#include <set>
#include <utility>
//FV: pipe = inline
using namespace fiction;

// elements with an arbitrary hash that only depends on the value
struct elem
{
    uint32_t v;
    bool     operator==(const elem& o) const { return v == o.v; }
    bool     operator<(const elem& o) const { return v < o.v; }
};
#ifdef FV_SYMBOLIC
static uint64_t HV(uint32_t v) { return __fv_uf1("elemhash", v); }
#else
static uint64_t HV(uint32_t v)
{
    uint64_t x = v + 0x9e3779b97f4a7c15ull;
    x          = (x ^ (x >> 29)) * 0xff51afd7ed558ccdull;
    x          = (x ^ (x >> 32)) * 0xc4ceb9fe1a85ec53ull;
    return x ^ (x >> 29);
}
#endif
template <>
struct std::hash<elem>
{
    size_t operator()(const elem& e) const noexcept { return HV(e.v); }
};
static elem any_elem(const char* n) { return elem{fv::any<uint32_t>(n)}; }

// combining is a function of the seed and the hash, and different hashes lead to different seeds
FV_PROOF(combine)
{
    const auto s = fv::any<uint64_t>("seed");
    const auto a = any_elem("a"), b = any_elem("b");
    uint64_t   x = s, y = s;
    hash_combine(x, a);
    hash_combine(y, b);
    CHECK((HV(a.v) == HV(b.v)) == (x == y));
    // several values at once are combined one after the other
    uint64_t z = s, w = s;
    hash_combine(z, a, b);
    hash_combine(w, a);
    hash_combine(w, b);
    CHECK(z == w);
}
static uint64_t unshift(uint64_t x, unsigned k)  // inverse of x ^ (x >> k) for k >= 22
{
    return x ^ (x >> k) ^ (2 * k < 64 ? x >> (2 * k) : 0);
}
FV_PROOF(combine_unordered)
{
    const auto s = fv::any<uint64_t>("seed");
    const auto a = any_elem("a"), b = any_elem("b"), c = any_elem("c");
    uint64_t   x = s, y = s, z = s;
    hash_combine_unordered(x, a);
    // the contribution does not depend on the seed ...
    uint64_t zero = 0;
    hash_combine_unordered(zero, a);
    CHECKN("contributions are added", x == s + zero);
    // ... and the order of contributions does not matter
    uint64_t p = s, q = s, r = s;
    hash_combine_unordered(p, a);
    hash_combine_unordered(p, b);
    hash_combine_unordered(p, c);
    hash_combine_unordered(q, c);
    hash_combine_unordered(q, a);
    hash_combine_unordered(q, b);
    hash_combine_unordered(r, b);
    hash_combine_unordered(r, a);
    hash_combine_unordered(r, c);
    CHECKN("the order does not matter", p == q && p == r);
    (void)y;
    (void)z;
}
// every value contributes: its contribution determines its hash
FV_PROOF(unordered_injective)
{
#ifdef FV_SYMBOLIC
    const auto a  = any_elem("a");
    uint64_t   m  = 0;
    hash_combine_unordered(m, a);
    uint64_t u = unshift(m, 31);
    u *= 0x319642b2d24d8ec3ull;  // inverse of 0x94d049bb133111eb
    u = unshift(u, 27);
    u *= 0x96de1b173f119089ull;  // inverse of 0xbf58476d1ce4e5b9
    u = unshift(u, 30);
    CHECKN("the contribution determines the hash", u == HV(a.v));
#else
    const auto a = any_elem("a"), b = any_elem("b");
    uint64_t   x = 0, y = 0;
    hash_combine_unordered(x, a);
    hash_combine_unordered(y, b);
    CHECKN("different hashes contribute differently", (HV(a.v) == HV(b.v)) == (x == y));
#endif
}
FV_PROOF(array_hash)
{
    std::array<elem, 3> a{any_elem("a0"), any_elem("a1"), any_elem("a2")};
    std::array<elem, 3> b{any_elem("b0"), any_elem("b1"), any_elem("b2")};
    const auto          i = fv::any_in<uint64_t>("i", 0, 2);
    const std::hash<std::array<elem, 3>> h{};
    if (a == b) CHECKN("equal arrays hash equally", h(a) == h(b));
#ifdef FV_SYMBOLIC
    // fold from the left, starting from zero
    uint64_t s = 0;
    for (const auto& e : a) hash_combine(s, e);
    CHECKN("every element is combined, in order", h(a) == s);
#else
    // one changed element changes the hash (a collision of a 64-bit hash would have to be hit by chance)
    auto c = a;
    c[i].v = b[i].v;
    CHECKN("every element is combined, in order", (a == c) == (h(a) == h(c)));
    auto e = a;
    std::swap(e[i], e[(i + 1) % 3]);
    CHECKN("the order of elements counts", (a == e) == (h(a) == h(e)));
#endif
    const std::hash<std::array<elem, 0>> h0{};
    CHECK(h0(std::array<elem, 0>{}) == h0(std::array<elem, 0>{}));
    (void)i;
}
FV_PROOF(pair_hash)
{
    const std::pair<elem, uint16_t> a{any_elem("a1"), fv::any<uint16_t>("a2")}, b{any_elem("b1"), fv::any<uint16_t>("b2")};
    const std::hash<std::pair<elem, uint16_t>> h{};
    if (a == b) CHECKN("equal pairs hash equally", h(a) == h(b));
    if (a.first == b.first && a.second != b.second) CHECKN("the second component contributes", h(a) != h(b));
}
// sets and multisets: contents in order, whatever the order of insertion
FV_PROOF(set_hash)
{
    const auto x = any_elem("x"), y = any_elem("y"), z = any_elem("z");
    std::set<elem> a, b;
    a.insert(x);
    a.insert(y);
    a.insert(z);
    b.insert(z);
    b.insert(y);
    b.insert(x);
    const std::hash<std::set<elem>> h{};
    CHECKN("the order of insertion does not matter", h(a) == h(b));
}
FV_PROOF(multiset_hash)
{
    const auto x = any_elem("x"), y = any_elem("y");
    std::multiset<elem> a, b;
    a.insert(x);
    a.insert(y);
    a.insert(x);
    b.insert(x);
    b.insert(x);
    b.insert(y);
    const std::hash<std::multiset<elem>> h{};
    CHECKN("the order of insertion does not matter", h(a) == h(b));
}
//FV: witness@unordered_injective = the inverse of the mixing function
//FV: witness@array_hash = the fold starts from zero
//FV: bounded@array_hash = arrays of 3 elements (the size is a template parameter), all values
//FV: bounded@set_hash = sets of at most 3 elements, all values
//FV: bounded@multiset_hash = multisets of 3 elements, all values
