// C27 array construction and conversion; tolerant lookup in maps
#include "fv.hpp"
#include "rbtree.hpp"
#include <array>
#include <cmath>
#include <fiction/technology/constants.hpp>
#include <fiction/utils/array_utils.hpp>
#include <fiction/utils/map_utils.hpp>
#include <map>
#include <utility>
//FV: pipe = inline
//FV: assume = std_map: two keys that compare equal are the same value (zeros of different sign as keys of one map are left out)
//FV: loop@tolerant_lookup = std::ranges::__find_if_fn::operator\(\)< ## 0:find!
//FV: loop@tolerant_lookup = fiction::find_key_with_tolerance< ## 0:find!
//FV: feas_from@std_map = 1
using namespace fiction;

// element type that records how it was made
struct made
{
    uint32_t from{};
    bool     cast{false};
    made() = default;
    explicit made(uint32_t v) : from{v}, cast{true} {}
};
FV_PROOF(create)
{
    const auto v = fv::any<uint64_t>("v");
    const auto a = create_array<5>(v);
    static_assert(a.size() == 5 && std::is_same_v<typename decltype(a)::value_type, uint64_t>);
    for (const auto e : a) CHECKN("every position holds the value", e == v);
    const auto b = create_array<1>(static_cast<uint8_t>(v));
    CHECK(b[0] == static_cast<uint8_t>(v));
    const auto c = create_array<2>(a);
    static_assert(c.size() == 2);
    for (const auto& row : c)
        for (const auto e : row) CHECKN("arrays are copied as values", e == v);
    static_assert(create_array<0>(1).size() == 0);
}
FV_PROOF(convert)
{
    const std::array<uint32_t, 4> a{fv::any<uint32_t>("a0"), fv::any<uint32_t>("a1"), fv::any<uint32_t>("a2"), fv::any<uint32_t>("a3")};
    const auto                    i = fv::any_in<uint64_t>("i", 0, 3);
    const auto                    m = convert_array<made>(a);
    static_assert(m.size() == 4);
    CHECKN("every position is the conversion of that position", m[i].cast && m[i].from == a[i]);
    const auto n = convert_array<uint8_t>(a);
    CHECKN("narrowing is that of static_cast", n[i] == static_cast<uint8_t>(a[i]));
    const auto w = convert_array<int64_t>(n);
    CHECK(w[i] == static_cast<int64_t>(static_cast<uint8_t>(a[i])));
    const auto s = convert_array<uint32_t>(a);
    CHECKN("conversion to the same type is the identity", s == a);
}
FV_PROOF(convert_nested)
{
    using arr = std::array<std::array<uint32_t, 3>, 2>;
    const arr  a{{{fv::any<uint32_t>("a00"), fv::any<uint32_t>("a01"), fv::any<uint32_t>("a02")},
                  {fv::any<uint32_t>("a10"), fv::any<uint32_t>("a11"), fv::any<uint32_t>("a12")}}};
    const auto i = fv::any_in<uint64_t>("i", 0, 1), j = fv::any_in<uint64_t>("j", 0, 2);
    const auto m = convert_array_of_arrays<made>(a);
    static_assert(m.size() == 2 && m[0].size() == 3);
    CHECKN("shape and positions are kept", m[i][j].cast && m[i][j].from == a[i][j]);
    // the shape of the fiction gate libraries
    const auto q = convert_array_of_arrays<int64_t>(m.size() == 2 ? arr{a[1], a[0]} : a);
    CHECK(q[i][j] == static_cast<int64_t>(a[1 - i][j]));
}

// ---- tolerant lookup
// a map as the function sees it: key_type, const_iterator, begin() and end() in key order (here any order: the result is the first in iteration order)
struct entry
{
    double   first;
    uint32_t second;
};
static const entry* E;
static uint64_t     N, J;
static double       KEY;
static bool near(uint64_t i) { return std::abs(E[i].first - KEY) < 1e-6; }
#ifdef FV_SYMBOLIC
struct any_map
{
    using key_type       = double;
    using const_iterator = const entry*;
    const entry *b, *e;
    const entry* begin() const { return b; }
    const entry* end() const { return e; }
    const entry* cbegin() const { return b; }
    const entry* cend() const { return e; }
};
static uint64_t CUR;
FV_INV(find)(const entry* cur)
{
    const auto i = static_cast<uint64_t>(cur - E);
    if (i > N) return false;
    CUR = i;
    return !(J < i) || !near(J);
}
FV_PROOF(tolerant_lookup)
{
    N   = fv::any_size("n", 0, 1ull << 40, 6);
    J   = fv::any_size("j", 0, 1ull << 40, 6);
    KEY = fv::any<double>("key");
    E   = static_cast<const entry*>(__fv_any_array("m", N, sizeof(entry)));
    const any_map m{E, E + N};
    const auto    r = static_cast<uint64_t>(find_key_with_tolerance(m, KEY) - E);
    CHECK(r <= N);
    if (r < N) CHECKN("the key found differs by less than the error margin", near(r));
    if (J < N && J < r) CHECKN("no earlier key does", !near(J));
}
#else
FV_PROOF(tolerant_lookup)
{
    // natively with real maps
    N   = fv::any_size("n", 0, 0, 6);
    KEY = static_cast<double>(fv::any_in<uint32_t>("key", 0, 40)) / 4.0 * 1e-6;
    std::map<double, uint32_t> m{};
    for (uint64_t k = 0; k < N; ++k) m.emplace(static_cast<double>(fv::any_in<uint32_t>(("m[" + std::to_string(k) + "]").c_str(), 0, 40)) / 4.0 * 1e-6, k);
    const auto it = find_key_with_tolerance(m, KEY);
    auto       ex = m.cbegin();
    for (; ex != m.cend() && !(std::abs(ex->first - KEY) < 1e-6); ++ex) {}
    CHECKN("the first key within the error margin is found", it == ex);
}
#endif
//FV: bounded@std_map = maps of at most 2 entries
FV_PROOF(std_map)
{
    const auto a = fv::any<double>("a"), b = fv::any<double>("b"), k = fv::any<double>("k");
    ASSUME(a == a && b == b && k == k && (a != b || fv::same(a, b)));
    std::map<double, uint32_t> m{};
    CHECK(find_key_with_tolerance(m, k) == m.cend());
    m.emplace(a, 1u);
    m.emplace(b, 2u);
    const auto it = find_key_with_tolerance(m, k);
    const bool na = std::abs(a - k) < 1e-6, nb = std::abs(b - k) < 1e-6;
    CHECKN("the end iterator exactly if no key is near", (it == m.cend()) == (!na && !nb));
    if (it != m.cend())
    {
        const auto f = it->first;
        CHECKN("the entry found is near", (f == a && na) || (f == b && nb));
        if (na && nb) CHECKN("it is the first one", f == (a < b ? a : b));
    }
}
// the margin itself
FV_PROOF(margin)
{
    CHECK(constants::ERROR_MARGIN == 1e-6);
}
