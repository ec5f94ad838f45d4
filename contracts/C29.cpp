// C29 distances between tiles, distance functors and precomputed distances
#include "fv.hpp"
#include "coords.hpp"
#include <cmath>
#include <fiction/algorithms/path_finding/cost.hpp>
#include <fiction/algorithms/path_finding/distance.hpp>
#include <fiction/algorithms/path_finding/distance_map.hpp>
#include <fiction/layouts/cartesian_layout.hpp>
#include <limits>
//FV: shim = .
//FV: pipe = inline
//FV: trust = phmap's hash maps are replaced by a stand-in with their mathematical meaning
//FV: trust = std::hypot: symmetric in the signs of its arguments; otherwise uninterpreted
using namespace fiction;
using namespace cs;
using qube = cs::cube;

template <class C>
using lay = cartesian_layout<C>;
// an extent; the distances do not depend on it
template <class C>
static lay<C> any_layout()
{
    return lay<C>{BOX(C, ar)};
}
static uint64_t diff(int64_t a, int64_t b) { return a < b ? static_cast<uint64_t>(b) - static_cast<uint64_t>(a) : static_cast<uint64_t>(a) - static_cast<uint64_t>(b); }

// ---- Manhattan
template <class C>
static void manhattan()
{
    const auto l = any_layout<C>();
    const C    s = LIVE(C, s), t = LIVE(C, t);
    const auto d = manhattan_distance<lay<C>>(l, s, t);
    static_assert(std::is_same_v<decltype(d), const uint64_t>);
    CHECKN("columns plus rows in between", d == diff(X(s), X(t)) + diff(Y(s), Y(t)));
    CHECKN("symmetric", d == manhattan_distance<lay<C>>(l, t, s));
    CHECKN("zero exactly for the same column and row", (d == 0) == (X(s) == X(t) && Y(s) == Y(t)));
    CHECKN("the functor gives the same", (manhattan_distance_functor<lay<C>>{}(l, s, t) == d));
    CHECKN("other result types hold the same", (manhattan_distance<lay<C>, int64_t>(l, s, t) == static_cast<int64_t>(d)));
}
// the length of a shortest path: no step brings one closer by more than one, and some step does by one
template <class C, int DX, int DY>
static void step()
{
    const auto l = any_layout<C>();
    const C    s = LIVE(C, s), t = LIVE(C, t);
    C          u = s;
    ASSUME(X(s) + DX >= (std::is_same_v<C, ucoord> ? 0 : -0x7fffffff) && X(s) + DX < 0x7fffffff && Y(s) + DY >= (std::is_same_v<C, ucoord> ? 0 : -0x7fffffff) && Y(s) + DY < 0x7fffffff);
    u.x += DX;
    u.y += DY;
    ASSUME(X(u) == X(s) + DX && Y(u) == Y(s) + DY);
    const auto d = manhattan_distance<lay<C>>(l, s, t), e = manhattan_distance<lay<C>>(l, u, t);
    const bool towards = DX > 0 ? X(s) < X(t) : DX < 0 ? X(t) < X(s) : DY > 0 ? Y(s) < Y(t) : Y(t) < Y(s);
    if (towards) CHECKN("a step towards the target is closer by one", e + 1 == d);
    else CHECKN("a step away from the target is farther by one", e == d + 1);
}
template <class C>
static void steps()
{
    step<C, 1, 0>();
    step<C, -1, 0>();
    step<C, 0, 1>();
    step<C, 0, -1>();
}
FV_PROOF(steps_offset) { steps<ucoord>(); }
FV_PROOF(steps_cube) { steps<qube>(); }
FV_PROOF(steps_siqad) { steps<sqd>(); }
FV_PROOF(manhattan_offset) { manhattan<ucoord>(); }
FV_PROOF(manhattan_cube) { manhattan<qube>(); }
FV_PROOF(manhattan_siqad) { manhattan<sqd>(); }

// ---- Chebyshev
template <class C>
static void chebyshev()
{
    const auto l = any_layout<C>();
    const C    s = LIVE(C, s), t = LIVE(C, t);
    const auto d = chebyshev_distance<lay<C>>(l, s, t);
    const auto dx = diff(X(s), X(t)), dy = diff(Y(s), Y(t));
    CHECKN("the larger of columns and rows in between", d == (dx < dy ? dy : dx));
    CHECKN("symmetric", d == chebyshev_distance<lay<C>>(l, t, s));
    CHECKN("zero exactly for the same column and row", (d == 0) == (X(s) == X(t) && Y(s) == Y(t)));
    if (dx < dy) CHECKN("never longer than along the grid", d <= manhattan_distance<lay<C>>(l, s, t));
    else CHECKN("never longer than along the grid", d <= manhattan_distance<lay<C>>(l, s, t));
    CHECKN("the functor gives the same", (chebyshev_distance_functor<lay<C>>{}(l, s, t) == d));
}
FV_PROOF(chebyshev_offset) { chebyshev<ucoord>(); }
FV_PROOF(chebyshev_cube) { chebyshev<qube>(); }
FV_PROOF(chebyshev_siqad) { chebyshev<sqd>(); }

// ---- 2DDWave
template <class C>
static void twoddwave()
{
    const auto l = any_layout<C>();
    const C    s = LIVE(C, s), t = LIVE(C, t);
    const auto d    = twoddwave_distance<lay<C>>(l, s, t);
    const bool down = X(s) <= X(t) && Y(s) <= Y(t);
    if (down) CHECKN("the length of the way where data can flow", d == static_cast<uint64_t>(X(t) - X(s)) + static_cast<uint64_t>(Y(t) - Y(s)));
    else CHECKN("infinite where it cannot", d == std::numeric_limits<uint32_t>::max());
    CHECKN("the functor gives the same", (twoddwave_distance_functor<lay<C>>{}(l, s, t) == d));
}
FV_PROOF(twoddwave_offset) { twoddwave<ucoord>(); }
FV_PROOF(twoddwave_cube) { twoddwave<qube>(); }
FV_PROOF(twoddwave_siqad) { twoddwave<sqd>(); }

// ---- Euclidean
template <class C>
static void euclidean()
{
    const auto   l = any_layout<C>();
    const C      s = LIVE(C, s), t = LIVE(C, t);
    const double dx = static_cast<double>(s.x) - static_cast<double>(t.x), dy = static_cast<double>(s.y) - static_cast<double>(t.y);
    const auto   d = euclidean_distance<lay<C>>(l, s, t);
    CHECKN("the length of the straight line", fv::same(d, std::hypot(dx, dy)));
    CHECKN("the functor gives the same", (fv::same(euclidean_distance_functor<lay<C>>{}(l, s, t), d)));
}
FV_PROOF(euclidean_offset) { euclidean<ucoord>(); }
FV_PROOF(euclidean_siqad) { euclidean<sqd>(); }

template <class C>
static void squared()
{
    const auto l = any_layout<C>();
    const C    s = LIVE(C, s), t = LIVE(C, t);
    ASSUME(diff(X(s), X(t)) <= (1u << 26) && diff(Y(s), Y(t)) <= (1u << 26));  // all numbers are exact
    const double dx = static_cast<double>(s.x) - static_cast<double>(t.x), dy = static_cast<double>(s.y) - static_cast<double>(t.y);
    const auto   d = squared_euclidean_distance<lay<C>>(l, s, t);
    static_assert(std::is_same_v<decltype(d), const uint64_t>);
    CHECKN("the sum of the squares", d == static_cast<uint64_t>((dx * dx) + (dy * dy)));
    CHECKN("the functor gives the same", (squared_euclidean_distance_functor<lay<C>>{}(l, s, t) == d));
}
FV_PROOF(squared_offset) { squared<ucoord>(); }
FV_PROOF(squared_siqad) { squared<sqd>(); }
//FV: bounded@squared_exact = tiles in the first four columns and rows
//FV: fp@squared_exact = fp
FV_PROOF(squared_exact)
{
    const auto l = any_layout<ucoord>();
    const auto a = fv::any_in<uint32_t>("a", 0, 3), b = fv::any_in<uint32_t>("b", 0, 3), c = fv::any_in<uint32_t>("c", 0, 3), d = fv::any_in<uint32_t>("d", 0, 3);
    const auto r = squared_euclidean_distance<lay<ucoord>>(l, ucoord{a, b}, ucoord{c, d});
    const auto x = diff(a, c), y = diff(b, d);
    CHECKN("the sum of the squares, exactly", r == x * x + y * y);
}

static uint32_t CALLS;
static uint64_t FN(const ucoord& a, const ucoord& b)
{
    ++CALLS;
    return __fv_uf4("distance", a.x, a.y, b.x, b.y);
}
// ---- costs and user-defined functors
FV_PROOF(functors)
{
    const auto l = any_layout<ucoord>();
    const auto s = LIVE(ucoord, s), t = LIVE(ucoord, t);
    CHECKN("every step costs one", (unit_cost<lay<ucoord>>(s, t) == 1 && unit_cost_functor<lay<ucoord>>{}(s, t) == 1));
    const auto                              k = fv::any<uint64_t>("k");
    const distance_functor<lay<ucoord>, uint64_t> f{[k](const lay<ucoord>&, const ucoord& a, const ucoord& b) { return k ^ FN(a, b); }};
    CHECKN("a distance functor applies its function to source and target", f(l, s, t) == (k ^ FN(s, t)));
    const cost_functor<lay<ucoord>, uint64_t> c{[k](const ucoord& a, const ucoord& b) { return k ^ FN(a, b); }};
    CHECKN("a cost functor applies its function to source and target", c(s, t) == (k ^ FN(s, t)));
}
// ---- caches
FV_PROOF(cache)
{
    const auto                                          l = any_layout<ucoord>();
    smart_distance_cache_functor<lay<ucoord>, uint64_t> f{lay<ucoord>{ucoord{1, 1}}, [](const lay<ucoord>&, const ucoord& a, const ucoord& b) { return FN(a, b); }};
    const auto                                          a = LIVE(ucoord, a), b = LIVE(ucoord, b), c = LIVE(ucoord, c), d = LIVE(ucoord, d);
    ASSUME(a.z == 0 && b.z == 0 && c.z == 0 && d.z == 0);
    CALLS         = 0;
    const auto r1 = f(l, a, b);
    CHECKN("the distance", r1 == FN(a, b));
    const auto r2 = f(l, c, d);
    CHECKN("the distance of other tiles", r2 == FN(c, d));
    CALLS         = 0;
    const auto r3 = f(l, a, b);
    CHECKN("a distance is the same when asked for again", r3 == r1 && CALLS == 0);
}
//FV: bounded@maps = layouts of up to three columns and two rows
template <uint32_t W, uint32_t H>
static void maps()
{
    const lay<ucoord>                             l{ucoord{W, H}};
    const distance_functor<lay<ucoord>, uint64_t> f{[](const lay<ucoord>&, const ucoord& a, const ucoord& b) { return FN(a, b); }};
    const distance_map_functor<lay<ucoord>, uint64_t>        m{initialize_distance_map(l, f)};
    const sparse_distance_map_functor<lay<ucoord>, uint64_t> p{initialize_sparse_distance_map(l, f)};
    for (uint32_t i = 0; i < (W + 1) * (H + 1); ++i)
        for (uint32_t j = 0; j < (W + 1) * (H + 1); ++j)
        {
            const ucoord a{i % (W + 1), i / (W + 1)}, b{j % (W + 1), j / (W + 1)};
            CHECKN("a distance map holds the distances", m(l, a, b) == FN(a, b));
            CHECKN("a sparse distance map holds the distances", p(l, a, b) == FN(a, b));
        }
}
FV_PROOF(maps)
{
    maps<2, 1>();
    maps<0, 1>();
    maps<1, 0>();
}
