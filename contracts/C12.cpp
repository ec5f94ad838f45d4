// C12 charge states: sign, index and text representations agree
#include "ghost_stream.hpp"
#include <fiction/technology/sidb_charge_state.hpp>
#include <vector>
//FV: pipe = inline
//FV: loop = fiction::charge_configuration_to_string\( ## 0:text
//FV: ctors@bases = SIDB_CHARGE_STATES
using namespace fiction;
using cs = sidb_charge_state;

FV_PROOF(sign_roundtrip)
{
    const auto g = fv::any<int8_t>("sign");
    const auto c = sign_to_charge_state(g);
    CHECK(c == (g == -1 ? cs::NEGATIVE : g == 0 ? cs::NEUTRAL : g == 1 ? cs::POSITIVE : cs::NONE));
    if (g >= -1 && g <= 1) CHECK(charge_state_to_sign(c) == g);
    else CHECK(charge_state_to_sign(c) == 0);
}
FV_PROOF(state_roundtrip)
{
    const auto c = fv::any<cs>("state");
    ASSUME(c == cs::NEGATIVE || c == cs::NEUTRAL || c == cs::POSITIVE || c == cs::NONE);
    const auto g = charge_state_to_sign(c);
    CHECK(g == (c == cs::NEGATIVE ? -1 : c == cs::POSITIVE ? 1 : 0));
    if (c != cs::NONE) CHECK(sign_to_charge_state(g) == c);
    // the underlying value is the sign
    if (c != cs::NONE) CHECK(static_cast<int8_t>(c) == g);
}
FV_PROOF(bases)
{
    const auto b = fv::any<uint8_t>("base");
    ASSUME(b == 2 || b == 3);
    const auto v = sidb_charge_states_for_base_number(b);
    CHECK(v.size() == b);
    const auto i = fv::any_in<uint64_t>("i", 0, 2);
    ASSUME(i < b);
    // digit i of the base-b number system
    CHECK(static_cast<int>(v[i]) == static_cast<int>(i) - 1);
    CHECK(sign_to_charge_state(static_cast<int8_t>(static_cast<int>(i) - 1)) == v[i]);
}

static bool shown(cs c) { return c == cs::NEGATIVE || c == cs::NEUTRAL || c == cs::POSITIVE; }
static char glyph(cs c) { return c == cs::NEGATIVE ? '-' : c == cs::POSITIVE ? '+' : '0'; }
static uint64_t J;  // an arbitrary position
#ifdef FV_SYMBOLIC
// number of shown entries before position i, by one-step unfolding
static uint64_t cnt(const cs* v, uint64_t i) { return __fv_uf2("shown", (uint64_t)v, i); }
#else
static uint64_t cnt(const cs* v, uint64_t i) { uint64_t r = 0; for (uint64_t k = 0; k < i; ++k) r += shown(v[k]); return r; }
#endif
static void unfold(const cs* v, uint64_t i) { ASSUME(cnt(v, i + 1) == cnt(v, i) + (shown(v[i]) ? 1 : 0)); }
#ifdef FV_SYMBOLIC
FV_INV(text)(void*, const std::vector<cs>& v, const cs* cur)
{
    const auto i = static_cast<uint64_t>(cur - v.data());
    if (i > v.size()) return false;
    if (i < v.size()) unfold(v.data(), i);
    if (ghost::LEN != cnt(v.data(), i) || ghost::LEN > i) return false;
    if (J < i && shown(v[J])) return cnt(v.data(), J) < ghost::LEN && ghost::OUT[cnt(v.data(), J)] == glyph(v[J]);
    return true;
}
#endif
FV_PROOF(text)
{
    const auto n = fv::any_size("n", 0, 1ull << 40, 9);
    J            = fv::any_size("j", 0, 1ull << 40, 9);
#ifdef FV_SYMBOLIC
    ghost::reset();
    fv::any_vector<cs> v{"v", n};
    const auto& vec = v.get();
#else
    std::vector<cs> vec(n);
    for (uint64_t i = 0; i < n; ++i)
    {
        const auto r = fv::any<int8_t>(("v[" + std::to_string(i) + "]").c_str());
        vec[i] = r % 4 == 0 ? cs::NONE : static_cast<cs>(r % 4 == 1 ? -1 : r % 4 == 2 ? 0 : 1);
    }
#endif
    ASSUME(cnt(vec.data(), 0) == 0);
    const auto s = charge_configuration_to_string(vec);
    CHECK(s.size() == cnt(vec.data(), n));
    if (J < n && shown(vec[J])) CHECK(cnt(vec.data(), J) < s.size() && s[cnt(vec.data(), J)] == glyph(vec[J]));
}
