// C10 combinatorics: binomial coefficients, k-subsets, Cartesian products
#include "fv.hpp"
#include <fiction/utils/combination_utils.hpp>
#include <fiction/utils/math_utils.hpp>
#include <algorithm>
#include <vector>
//FV: inc = $REPO/vendors/combinations
//FV: pipe = inline
//FV: max_iter = 3000
//FV: weight@subsets = 9
//FV: weight@binomial_table = 9
//FV: bounded@binomial_table = every n <= 67 and every k <= n+2 (all n for which every coefficient fits into 64 bits), enumerated completely
//FV: bounded@subsets = every n <= 8 and every k <= n+1, enumerated completely
//FV: bounded@product_values = up to 3 sets of up to 3 elements with arbitrary values
using namespace fiction;

FV_PROOF(binomial_table)
{
    // Pascal's triangle as the definition
    uint64_t row[68];
    for (auto& r : row) r = 0;
    row[0] = 1;
    for (uint64_t n = 0; n <= 67; ++n)
    {
        if (n > 0)
            for (uint64_t k = n; k > 0; --k) row[k] += row[k - 1];
        for (uint64_t k = 0; k <= n + 2; ++k) CHECK(binomial_coefficient(n, k) == (k <= n ? row[k] : 0));
    }
}
FV_PROOF(binomial_edges)
{
    const auto n = fv::any<uint64_t>("n"), k = fv::any<uint64_t>("k");
    CHECK(binomial_coefficient(n, 0) == 1);
    CHECK(binomial_coefficient(n, n) == 1);
    if (k > n) CHECK(binomial_coefficient(n, k) == 0);
    if (n >= 1)
    {
        CHECK(binomial_coefficient(n, 1) == n);
        CHECK(binomial_coefficient(n, n - 1) == n);
    }
}
FV_PROOF(subsets)
{
    for (std::size_t n = 0; n <= 8; ++n)
        for (std::size_t k = 0; k <= n + 1; ++k)
        {
            const auto     c     = determine_all_combinations_of_distributing_k_entities_on_n_positions(k, n);
            const uint64_t count = (k == 0 || k > n) ? 0 : binomial_coefficient(n, k);
            CHECK(c.size() == count);
            uint64_t seen[4] = {0, 0, 0, 0};  // one bit per subset of {0..7}
            for (const auto& v : c)
            {
                CHECK(v.size() == k);
                uint64_t m = 0;
                for (const auto p : v)
                {
                    CHECK(p < n);
                    CHECK((m & (1ull << p)) == 0);  // no position occupied twice
                    m |= 1ull << p;
                }
                CHECK((seen[m / 64] & (1ull << (m % 64))) == 0);  // no distribution listed twice
                seen[m / 64] |= 1ull << (m % 64);
            }
        }
}
// many positions, few (or almost all) entities
FV_PROOF(subsets_many_positions)
{
#ifdef FV_SYMBOLIC
    const std::size_t n = 19;
    const std::size_t k = 18;
#else
    std::size_t n = fv::any_in<uint64_t>("n", 1, 700), k = fv::any_in<uint64_t>("k", 1, 4);
    if (k >= 3 && fv::any<bool>("most") && n > k) k = n - (k - 2);
    if (k > 2 && k + 2 < n) k = 2;
#endif
    const auto c = determine_all_combinations_of_distributing_k_entities_on_n_positions(k, n);
    CHECK(c.size() == binomial_coefficient(n, k));
    auto s = c;  // neither the order of the positions nor that of the distributions matters
    for (auto& v : s) std::sort(v.begin(), v.end());
    std::sort(s.begin(), s.end());
    for (std::size_t i = 0; i < s.size(); ++i)
    {
        CHECK(s[i].size() == k);
        for (std::size_t j = 0; j < k; ++j) CHECK(s[i][j] < n && (j == 0 || s[i][j - 1] < s[i][j]));
        CHECK(i == 0 || s[i - 1] < s[i]);
    }
}
//FV: bounded@subsets_many_positions = 18 of 19 positions symbolically; natively up to 700 positions with 1, 2, n-2 or n-1 entities
template <std::size_t... N>
static void product()
{
    constexpr std::size_t      D = sizeof...(N);
    constexpr std::size_t      sz[D + 1] = {N..., 0};
    std::vector<std::vector<int32_t>> sets(D);
    const char* nm[3][3] = {{"a0", "a1", "a2"}, {"b0", "b1", "b2"}, {"c0", "c1", "c2"}};
    std::size_t total = 1;
    for (std::size_t d = 0; d < D; ++d)
    {
        for (std::size_t j = 0; j < sz[d]; ++j) sets[d].push_back(fv::any<int32_t>(nm[d][j]));
        total *= sz[d];
    }
    const auto r = cartesian_combinations(sets);
    CHECK(r.size() == total);
    // lexicographic in the order of the sets: entry number i picks digit d of i
    for (std::size_t i = 0; i < total; ++i)
    {
        CHECK(r[i].size() == D);
        std::size_t q = total, rest = i;
        for (std::size_t d = 0; d < D; ++d)
        {
            q /= sz[d];
            CHECK(r[i][d] == sets[d][rest / q]);
            rest %= q;
        }
    }
}
FV_PROOF(product_values)
{
    product<>();
    product<1>();
    product<3>();
    product<2, 3>();
    product<3, 2>();
    product<2, 2, 3>();
    product<3, 1, 2>();
    product<0>();
    product<2, 0>();
    product<0, 3, 1>();
}
