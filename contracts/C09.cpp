// C09 Gray code enumeration
#include "fv.hpp"
#include <fiction/algorithms/iter/gray_code_iterator.hpp>
using fiction::gray_code_iterator;

static uint64_t gray(uint64_t n) { return n ^ (n >> 1u); }
static bool     one_bit(uint64_t v) { return v != 0 && (v & (v - 1)) == 0; }
// inverse of the reflected binary Gray code
static uint64_t ungray(uint64_t g)
{
    g ^= g >> 32u;
    g ^= g >> 16u;
    g ^= g >> 8u;
    g ^= g >> 4u;
    g ^= g >> 2u;
    g ^= g >> 1u;
    return g;
}
static gray_code_iterator at(uint64_t start, uint64_t pos)
{
    gray_code_iterator it{start};
    it = pos;
    return it;
}

FV_PROOF(value_at_every_position)
{
    const auto s = fv::any<uint64_t>("start"), n = fv::any<uint64_t>("pos"), i = fv::any<uint64_t>("i");
    const gray_code_iterator fresh{s};
    CHECK(*fresh == gray(s));
    const auto it = at(s, n);
    CHECK(*it == gray(n));
    CHECK(ungray(*it) == n);   // bijection: no code is produced twice
    CHECK(it[i] == gray(s + i));
}
FV_PROOF(single_bit_steps)
{
    const auto s = fv::any<uint64_t>("start"), n = fv::any<uint64_t>("pos");
    auto       it  = at(s, n);
    const auto bef = *it;
    auto&      r   = ++it;
    CHECK(&r == &it);
    CHECK(one_bit(bef ^ *it));
    CHECK(*it == gray(n + 1));
    auto& q = --it;
    CHECK(&q == &it && *it == bef);
    const auto post = it++;
    CHECK(*post == bef && *it == gray(n + 1));
    const auto post2 = it--;
    CHECK(*post2 == gray(n + 1) && *it == bef);
    --it;
    CHECK(*it == gray(n - 1) && one_bit(bef ^ *it));
}
FV_PROOF(random_access)
{
    const auto s = fv::any<uint64_t>("start"), n = fv::any<uint64_t>("pos");
    const auto m = fv::any<int32_t>("m");
    const auto d = static_cast<uint64_t>(static_cast<int64_t>(m));
    const auto it = at(s, n);
    CHECK(*(it + m) == gray(n + d));
    CHECK(*(it - m) == gray(n - d));
    auto a = it;
    auto& ra = (a += m);
    CHECK(&ra == &a && *a == gray(n + d));
    auto& rb = (a -= m);
    CHECK(&rb == &a && *a == gray(n));
    CHECK(a == it);
    CHECK(it[0] == gray(s) && (it + m)[3] == gray(s + 3));
}
FV_PROOF(difference)
{
    const auto s = fv::any<uint64_t>("start"), t = fv::any<uint64_t>("start2");
    const auto n = fv::any<uint64_t>("n"), k = fv::any<uint64_t>("k");
    ASSUME(n < (1ull << 62) && k < (1ull << 62));
    CHECK((at(s, n) - at(t, k)) == static_cast<int64_t>(n) - static_cast<int64_t>(k));
}
FV_PROOF(compare_with_position)
{
    const auto s = fv::any<uint64_t>("start"), n = fv::any<uint64_t>("pos"), m = fv::any<uint64_t>("m");
    const auto it = at(s, n);
    CHECK((it == m) == (n == m));
    CHECK((it != m) == (n != m));
    CHECK((it < m) == (n < m));
    CHECK((it <= m) == (n <= m));
    CHECK((it > m) == (n > m));
    CHECK((it >= m) == (n >= m));
}
FV_PROOF(compare_iterators)
{
    const auto s = fv::any<uint64_t>("start"), n = fv::any<uint64_t>("n"), k = fv::any<uint64_t>("k");
    const auto a = at(s, n), b = at(s, k);
    CHECK((a == b) == (n == k));
    CHECK((a != b) == (n != k));
    // random-access iterator: ordering follows the position, consistent with the difference
    CHECK((a < b) == (n < k));
    CHECK((a <= b) == (n <= k));
}
