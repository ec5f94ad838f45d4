// C32 truth_table_utils.hpp: named truth tables are the functions they are named after
#include "fv.hpp"
#include <fiction/utils/truth_table_utils.hpp>
//FV: shim = .
//FV: pipe = inline
//FV: trust = kitty's truth tables are replaced by stand-ins with their meaning: a table is its bits, indexed by the input pattern, and bits beyond the table are dropped
using namespace fiction;

// a comparison of two variables takes them in the order in which they are written, most significant first
struct in
{
    bool a, b, c;
};
template <uint32_t Vars, class F>
static void means(const kitty::dynamic_truth_table& tt, F f)
{
    CHECKN("the function has the variables it is documented with", tt.num_vars() == Vars);
    const auto i = fv::any<uint64_t>("pattern");
    ASSUME(i < (1u << Vars));
    const in v{(i & 1) != 0, (i & 2) != 0, (i & 4) != 0};
    CHECKN("the truth table holds the value of the function at every input pattern", (kitty::get_bit(tt, i) != 0) == f(v));
    CHECKN("the value read at a pattern is the one held", (evaluate_output({tt}, i) == 1) == f(v));
}
#define NAMED(name, vars, expr) \
    FV_PROOF(name) { means<vars>(create_##name##_tt(), [](const in& v) { const bool a = v.a, b = v.b, c = v.c; (void)a, (void)b, (void)c; return (expr); }); }
NAMED(id, 1, a)
NAMED(not, 1, !a)
NAMED(and, 2, a && b)
NAMED(or, 2, a || b)
NAMED(nand, 2, !(a && b))
NAMED(nor, 2, !(a || b))
NAMED(xor, 2, a != b)
NAMED(xnor, 2, a == b)
NAMED(lt, 2, b < a)
NAMED(gt, 2, b > a)
NAMED(le, 2, b <= a)
NAMED(ge, 2, b >= a)
NAMED(and3, 3, a && b && c)
NAMED(xor_and, 3, a && (b != c))
NAMED(or_and, 3, a && (b || c))
NAMED(onehot, 3, a + b + c == 1)
NAMED(maj, 3, a + b + c >= 2)
NAMED(gamble, 3, a + b + c == 0 || a + b + c == 3)
NAMED(dot, 3, a != (c || (a && b)))
NAMED(ite, 3, a ? b : c)
NAMED(and_xor, 3, a != (b && c))
NAMED(xor3, 3, (a + b + c) % 2 == 1)

// several outputs
template <uint32_t Vars, class F>
static void means_all(const std::vector<kitty::dynamic_truth_table>& tts, F f)
{
    CHECKN("there are two outputs", tts.size() == 2);
    CHECKN("both outputs have the variables of the function", tts[0].num_vars() == Vars && tts[1].num_vars() == Vars);
    const auto i = fv::any<uint64_t>("pattern");
    ASSUME(i < (1u << Vars));
    const in v{(i & 1) != 0, (i & 2) != 0, (i & 4) != 0};
    CHECKN("the outputs are bits of the value in order", evaluate_output(tts, i) == f(v));
}
FV_PROOF(double_wire) { means_all<2>(create_double_wire_tt(), [](const in& v) { return v.b + 2u * v.a; }); }
FV_PROOF(crossing_wire) { means_all<2>(create_crossing_wire_tt(), [](const in& v) { return v.a + 2u * v.b; }); }
FV_PROOF(fan_out) { means_all<1>(create_fan_out_tt(), [](const in& v) { return v.a + 2u * v.a; }); }
FV_PROOF(half_adder) { means_all<2>(create_half_adder_tt(), [](const in& v) { return (v.a != v.b) + 2u * (v.a && v.b); }); }
// any tables over six variables, any number of outputs
template <unsigned N>
static void evaluates()
{
    std::vector<kitty::dynamic_truth_table> tts;
    uint64_t                                w[N == 0 ? 1 : N];
    const auto                              i = fv::any<uint64_t>("pattern");
    ASSUME(i < 64);
    uint64_t expected = 0;
    for (unsigned k = 0; k < N; ++k)
    {
        w[k] = fv::any<uint64_t>("bits");
        tts.emplace_back(6u);
        tts.back()._bits[0] = w[k];
        expected |= ((w[k] >> i) & 1) << k;
    }
    CHECKN("every output is one bit of the value", evaluate_output(tts, i) == expected);
}
FV_PROOF(evaluate_none) { evaluates<0>(); }
FV_PROOF(evaluate_one) { evaluates<1>(); }
FV_PROOF(evaluate_three) { evaluates<3>(); }
FV_PROOF(evaluate_all_64) { evaluates<64>(); }
