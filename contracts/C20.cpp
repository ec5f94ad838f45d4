// C20 searching: first shared two-element sub-sequence, searchable priority queue
#include "fv.hpp"
#include <fiction/utils/stl_utils.hpp>
#include <functional>
#include <vector>
//FV: pipe = inline
//FV: loop = fiction::find_first_two_of<.*\( ## 0:outer
//FV: loop = fiction::find_first_two_of<.*\( ## 1:inner
//FV: loop@queue_find = std::ranges::__find_fn::operator\(\)<.*\( ## 0:find
using namespace fiction;

// ---- find_first_two_of: unbounded
static uint64_t I, J;  // arbitrary positions
static bool hit(const uint32_t* a, const uint32_t* b, uint64_t i, uint64_t j) { return a[i] == b[j] && a[i + 1] == b[j + 1]; }
#ifdef FV_SYMBOLIC
static const uint32_t *A, *B;
static uint64_t N, M, CUR, CURJ;
using it = std::vector<uint32_t>::iterator;
#define POS(p, base) static_cast<uint64_t>((p) - (base))
// arguments: first last s_first s_last (iterators passed as pointers), then the loop variables
FV_INV(outer)(const uint32_t* f, const uint32_t* l, const uint32_t* sf, const uint32_t* sl, const uint32_t* cur)
{
    const auto i = POS(cur, A);
    if (i >= N) return false;
    CUR = i;
    return !(I < i && J + 1 < M) || !hit(A, B, I, J);
}
FV_INV(inner)(const uint32_t* f, const uint32_t* l, const uint32_t* sf, const uint32_t* sl, const uint32_t* cur)
{
    const auto j = POS(cur, B);
    if (j >= M || CUR + 1 >= N) return false;
    CURJ = j;
    return !(I == CUR && J < j && J + 1 < M) || !hit(A, B, I, J);
}
#endif
FV_PROOF(first_two)
{
    const auto n = fv::any_size("n", 0, 1ull << 40, 6), m = fv::any_size("m", 0, 1ull << 40, 5);
    I = fv::any_size("i", 0, 1ull << 40, 6);
    J = fv::any_size("j", 0, 1ull << 40, 5);
#ifdef FV_SYMBOLIC
    fv::any_vector<uint32_t> a{"a", n}, b{"b", m};
    auto &va = a.get(), &vb = b.get();
    A = va.data(), B = vb.data(), N = n, M = m;
#else
    std::vector<uint32_t> va(n), vb(m);
    for (uint64_t k = 0; k < n; ++k) va[k] = fv::any_in<uint32_t>(("a[" + std::to_string(k) + "]").c_str(), 0, 2);
    for (uint64_t k = 0; k < m; ++k) vb[k] = fv::any_in<uint32_t>(("b[" + std::to_string(k) + "]").c_str(), 0, 2);
#endif
    const auto r = static_cast<uint64_t>(find_first_two_of(va.begin(), va.end(), vb.begin(), vb.end()) - va.begin());
    CHECK(r == n || r + 1 < n);
#ifdef FV_SYMBOLIC
    if (r < n) CHECKN("a shared pair starts at the result", CURJ + 1 < m && hit(A, B, r, CURJ));
#else
    if (r < n)
    {
        bool any = false;
        for (uint64_t j = 0; j + 1 < m; ++j) any = any || hit(va.data(), vb.data(), r, j);
        CHECKN("a shared pair starts at the result", any);
    }
#endif
    if (I + 1 < n && I < r && J + 1 < m) CHECKN("no shared pair starts before the result", !hit(va.data(), vb.data(), I, J));
}

// ---- searchable_priority_queue: find and contains see exactly the stored elements; unbounded
using queue = searchable_priority_queue<uint32_t>;
struct probe : queue
{
    std::vector<uint32_t>& cont() { return c; }
};
static const uint32_t* Q;
static uint64_t        QN, QV, QPOS;
#ifdef FV_SYMBOLIC
FV_INV(find)(const void*, const uint32_t* f, const uint32_t* l, const uint32_t& v, const uint32_t* cur)
{
    const auto i = static_cast<uint64_t>(cur - Q);
    if (i > QN) return false;
    QPOS = i;
    return !(J < i) || Q[J] != v;
}
#endif
FV_PROOF(queue_find)
{
    const auto n = fv::any_size("n", 0, 1ull << 40, 6);
    J            = fv::any_size("j", 0, 1ull << 40, 6);
    const auto v = fv::any_in<uint32_t>("v", 0, 4);
#ifdef FV_SYMBOLIC
    fv::any_vector<uint32_t> a{"a", n};
    alignas(probe) unsigned char raw[sizeof(probe)];
    static_assert(sizeof(probe) >= sizeof(std::vector<uint32_t>));
    std::memcpy(raw, a.raw, sizeof(a.raw));
    probe& q = *reinterpret_cast<probe*>(raw);
#else
    probe q{};
    for (uint64_t k = 0; k < n; ++k) q.push(fv::any_in<uint32_t>(("a[" + std::to_string(k) + "]").c_str(), 0, 4));
#endif
    Q = q.cont().data(), QN = n;
    const probe& cq = q;
    const auto   p  = static_cast<uint64_t>(q.find(v) - q.begin());
    const auto   c  = static_cast<uint64_t>(cq.find(v) - cq.begin());
    const bool   in = cq.contains(v);
    CHECK(p <= n && c <= n);
    CHECK(fv::implies(p < n, p < n && Q[p < n ? p : 0] == v));
    CHECK(fv::implies(c < n, c < n && Q[c < n ? c : 0] == v));
    CHECK(fv::implies(J < n && p == n, !(J < n) || Q[J < n ? J : 0] != v));
    CHECK(fv::implies(J < n && c == n, !(J < n) || Q[J < n ? J : 0] != v));
    CHECK(fv::implies(J < n && !in, !(J < n) || Q[J < n ? J : 0] != v));
    if (in) CHECKN("a contained value is stored",
#ifdef FV_SYMBOLIC
                   QPOS < n && Q[QPOS] == v
#else
                   c < n
#endif
    );
    CHECK(q.end() - q.begin() == static_cast<int64_t>(n) && cq.cend() - cq.cbegin() == static_cast<int64_t>(n) && cq.end() - cq.begin() == static_cast<int64_t>(n));
    CHECK(q.begin() == q.cont().begin() && cq.begin() == cq.cbegin());
}
// ---- priority order over a history of operations
//FV: bounded@queue_history = at most 4 insertions followed by extraction of all of them
FV_PROOF(queue_history)
{
    queue q{};
    uint32_t x[4];
    x[0] = fv::any<uint32_t>("x0"), x[1] = fv::any<uint32_t>("x1"), x[2] = fv::any<uint32_t>("x2"), x[3] = fv::any<uint32_t>("x3");
    for (int k = 0; k < 4; ++k)
    {
        q.push(x[k]);
        CHECK(q.contains(x[0]) && q.contains(x[k]));
        CHECK(q.size() == static_cast<size_t>(k) + 1);
    }
    const auto y = fv::any<uint32_t>("y");
    CHECK(q.contains(y) == (y == x[0] || y == x[1] || y == x[2] || y == x[3]));
    uint32_t last = q.top();
    for (int k = 0; k < 4; ++k)
    {
        CHECK(q.top() <= last);
        last = q.top();
        q.pop();
    }
    CHECK(q.empty());
}
