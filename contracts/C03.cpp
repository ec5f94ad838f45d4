// C03 box enumeration: the coordinate iterator and wrap() visit each coordinate of the box exactly once, in order
#include "coords.hpp"
using namespace cs;
using fiction::coord_iterator;

// One iterator step from an arbitrary position in an arbitrary box. Together with "starts at the smallest coordinate" this
// is the inductive step of "visits every coordinate of the box exactly once in ascending order, then becomes dead".
template <class C>
static void step_contract(const C& ar, const C& cur, const C& k)
{
    ASSUME(in_box(cur, ar));
    ASSUME(in_box(k, ar));
    if constexpr (std::is_same_v<C, sqd>) ASSUME(Z(ar) == 1);  // layouts only use complete dimer rows
    coord_iterator<C> it{ar, cur};
    CHECK(same(*it, cur));
    coord_iterator<C> it0 = it;
    ++it;
    const C n = *it;
    if (same(cur, ar))
    {
        CHECK(n.is_dead());
        CHECK(same(n, ar.get_dead()));
        CHECK(!spec_less(cur, k));  // nothing was skipped
    }
    else
    {
        CHECK(in_box(n, ar));
        CHECK(spec_less(cur, n));
        CHECK(!(spec_less(cur, k) && spec_less(k, n)));
    }
    const C old = *(it0++);
    CHECK(same(old, cur));
    CHECK(same(*it0, n));
    CHECK(it0 == it);
    CHECK((it0 != it) == !(it0 == it));
}
FV_PROOF(offset_step) { step_contract(BOX(ucoord, ar), BOX(ucoord, cur), BOX(ucoord, k)); }
FV_PROOF(cube_step) { step_contract(BOX(cube, ar), BOX(cube, cur), BOX(cube, k)); }
FV_PROOF(siqad_step) { step_contract(BOX(sqd, ar), BOX(sqd, cur), BOX(sqd, k)); }

template <class C>
static void first_contract(const C& ar, const C& k)
{
    ASSUME(in_box(k, ar));
    coord_iterator<C> it{ar, C{0, 0, 0}};
    CHECK(in_box(*it, ar));
    CHECK(!spec_less(k, *it));
}
FV_PROOF(offset_first) { first_contract(BOX(ucoord, ar), BOX(ucoord, k)); }
FV_PROOF(cube_first) { first_contract(BOX(cube, ar), BOX(cube, k)); }
FV_PROOF(siqad_first) { first_contract(BOX(sqd, ar), BOX(sqd, k)); }

// wrapping a coordinate that overran the box in one dimension by the smallest possible amount
template <class C>
static void wrap_contract(const C& ar, const C& c0)
{
    ASSUME(X(c0) >= 0 && Y(c0) >= 0 && Z(c0) >= 0);
    if constexpr (std::is_same_v<C, sqd>) ASSUME(Z(ar) == 1);
    C c = c0;
    c.wrap(ar);
    CHECK(in_box(c, ar) || same(c, ar.get_dead()));
    if (in_box(c0, ar)) CHECK(same(c, c0));  // coordinates inside stay where they are
    else if (in_box(c, ar)) CHECK(spec_less(c0, c) || Y(c0) > Y(ar) || Z(c0) > Z(ar));
}
FV_PROOF(offset_wrap) { wrap_contract(BOX(ucoord, ar), BOX(ucoord, c)); }
FV_PROOF(cube_wrap) { wrap_contract(BOX(cube, ar), BOX(cube, c)); }
FV_PROOF(siqad_wrap) { wrap_contract(BOX(sqd, ar), BOX(sqd, c)); }

// out-of-range starting points are clamped to the box or yield an exhausted iterator
template <class C>
static void start_contract(const C& ar, const C& s)
{
    if constexpr (std::is_same_v<C, sqd>) ASSUME(Z(ar) == 1);
    ASSUME(X(s) < 0x7fffffff && Y(s) < 0x7fffffff && Z(s) < 0x7fffffff);
    coord_iterator<C> it{ar, s};
    const C           c = *it;
    CHECK(in_box(c, ar) || same(c, ar.get_dead()));
    const bool neg = X(s) < 0 || Y(s) < 0 || Z(s) < 0;
    if (in_box(s, ar)) CHECK(same(c, s));
    if constexpr (!std::is_same_v<C, ucoord>)
    if (neg && X(s) <= X(ar) && Y(s) <= Y(ar) && Z(s) <= Z(ar))
    {
        CHECK(X(c) == (X(s) < 0 ? 0 : X(s)));
        CHECK(Y(c) == (Y(s) < 0 ? 0 : Y(s)));
        CHECK(Z(c) == (Z(s) < 0 ? 0 : Z(s)));
    }
}
FV_PROOF(offset_start) { start_contract(BOX(ucoord, ar), LIVE(ucoord, s)); }
FV_PROOF(cube_start) { start_contract(BOX(cube, ar), LIVE(cube, s)); }
FV_PROOF(siqad_start) { start_contract(BOX(sqd, ar), LIVE(sqd, s)); }

// iterator comparison follows the coordinates
template <class C>
static void cmp_contract(const C& ar, const C& a, const C& b)
{
    ASSUME(in_box(a, ar) && in_box(b, ar));
    const coord_iterator<C> i{ar, a}, j{ar, b};
    CHECK((i == j) == same(a, b));
    CHECK((i < j) == spec_less(a, b));
    CHECK((i <= j) == !spec_less(b, a));
}
FV_PROOF(offset_cmp) { cmp_contract(BOX(ucoord, ar), BOX(ucoord, a), BOX(ucoord, b)); }
FV_PROOF(cube_cmp) { cmp_contract(BOX(cube, ar), BOX(cube, a), BOX(cube, b)); }
FV_PROOF(siqad_cmp) { cmp_contract(BOX(sqd, ar), BOX(sqd, a), BOX(sqd, b)); }
