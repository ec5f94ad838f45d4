// C21 aspect ratio enumeration: all factor pairs of all numbers, in ascending order of the product
#include "coords.hpp"
#include <fiction/algorithms/iter/aspect_ratio_iterator.hpp>
//FV: max_iter = 4000
//FV: pipe = inline
//FV: native = 1
//FV: bounded@sequence = start values 1..40 and every step until the product reaches 48, enumerated completely
//FV: bounded@independent_copies = start values 1..24
//FV: bounded@comparisons = all pairs of iterators that start at 1..12 and take up to 3 steps
using namespace cs;
using ari = fiction::aspect_ratio_iterator<fiction::offset::ucoord_t>;

static uint64_t prod(const ucoord& c) { return (uint64_t{c.x} + 1) * (uint64_t{c.y} + 1); }

static void sequence_from(uint64_t start, uint64_t stop)
{
    ari      it{start};
    uint64_t n = start == 0 ? 1 : start;
    CHECK(it == n);
    for (; n <= stop; ++n)
    {
        // number of ordered factor pairs of n
        uint64_t cnt = 0;
        for (uint64_t d = 1; d <= n; ++d) cnt += n % d == 0;
        uint64_t seen_mask = 0;  // bit per x component (x < 64)
        for (uint64_t j = 0; j < cnt; ++j)
        {
            CHECK(it == n);
            CHECK(!(it != n));
            const auto c = *it;
            CHECK(c.z == 0 && !c.is_dead());
            CHECK(prod(c) == n);
            CHECK((seen_mask & (1ull << c.x)) == 0);
            seen_mask |= 1ull << c.x;
            ari& r = ++it;
            CHECK(&r == &it);
        }
        CHECK(it == n + 1);
    }
}
FV_PROOF(sequence)
{
    for (uint64_t s = 0; s <= 40; s += 8) sequence_from(s, 48);
}
FV_PROOF(independent_copies)
{
    for (uint64_t s = 1; s <= 24; ++s)
    {
        ari it{s};
        for (int j = 0; j < 3; ++j)
        {
            ari        copy = it;
            const auto v    = *it;
            CHECK(copy == it);
            const ari old = it++;
            CHECK(*old == v && old == copy);
            CHECK(*copy == v);
            ++copy;
            CHECK(copy == it && *copy == *it);
        }
    }
}
FV_PROOF(comparisons)
{
    for (uint64_t s = 1; s <= 12; s += 1)
        for (uint64_t t = 1; t <= 12; t += 1)
            for (int j = 0; j < 3; ++j)
            {
                ari a{s}, b{t};
                for (int q = 0; q < j; ++q) ++a;
                const uint64_t n = prod(*a), m = prod(*b);
                CHECK(a == n && b == m);
                CHECK((a == b) == (n == m && *a == *b));
                CHECK((a != b) == !(a == b));
                CHECK(!(n < m) || (a < b && a <= b && !(b < a) && !(b <= a)));
                CHECK((a <= b) == (a < b || a == b));
                CHECK((a < t) == (n < t) && (a <= t) == (n <= t) && (a != t) == (n != t));
            }
}
// large numbers, on the real code only by random inputs (symbolically the start value is fixed)
FV_PROOF(any_start)
{
#ifdef FV_SYMBOLIC
    const uint64_t s = 97;
#else
    uint64_t s = fv::any_in<uint64_t>("start", 1, 100000);
    if (fv::any<bool>("big"))
    {
        // products of two factors of similar size, squares, and neighbours of squares
        const uint64_t f = fv::any_in<uint64_t>("f", 2, 40000);
        s = f * (f + fv::any_in<uint64_t>("g", 0, 3)) + fv::any_in<uint64_t>("h", 0, 2);
    }
#endif
    ari      it{s};
    uint64_t cnt = 0;
    for (uint64_t d = 1; d * d <= s; ++d) cnt += s % d == 0 ? (d * d == s ? 1 : 2) : 0;
    for (uint64_t j = 0; j < cnt; ++j, ++it)
    {
        CHECK(it == s && prod(*it) == s);
    }
    CHECK(it == s + 1);
}
//FV: bounded@any_start = start value 97 symbolically; random start values up to 1.6e9 natively
