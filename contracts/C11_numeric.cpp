// C11 numeric helpers: absolute value, rounding, weighted cost sum
#include "fv.hpp"
#include <fiction/utils/math_utils.hpp>
#include <limits>
#include <vector>
//FV: pipe = inline
//FV: loop = fiction::cost_function_chi\( ## 0:chi
//FV: trust = libm pow/round: round() has its IEEE meaning, pow() is any function (rounding contract is relative to it)
using namespace fiction;

// weighted sum over the first i entries, defined by one-step unfolding (left to right, starting at 0.0)
#ifdef FV_SYMBOLIC
static double S(const double* c, const double* w, uint64_t i) { return __fv_fuf3("wsum", (uint64_t)c, (uint64_t)w, i); }
#else
static double S(const double* c, const double* w, uint64_t i) { return i == 0 ? 0.0 : S(c, w, i - 1) + w[i - 1] * c[i - 1]; }
#endif
static void base(const double* c, const double* w) { ASSUME(fv::same(S(c, w, 0), 0.0)); }
static void unfold(const double* c, const double* w, uint64_t i) { ASSUME(fv::same(S(c, w, i + 1), S(c, w, i) + w[i] * c[i])); }
FV_INV(chi)(const std::vector<double>& c, const std::vector<double>& w, uint64_t i, double chi)
{
    if (i < c.size()) unfold(c.data(), w.data(), i);
    return i <= c.size() && fv::same(chi, S(c.data(), w.data(), i));
}
FV_DEC(chi)(const std::vector<double>& c, const std::vector<double>& w, uint64_t i, double chi) { return c.size() - i; }

FV_PROOF(cost_function)
{
    const auto n = fv::any_size("n", 0, 1ull << 40, 8), m = fv::any_size("m", 0, 1ull << 40, 8);
    fv::any_vector<double> c{"c", n}, w{"w", m};
    base(c.get().data(), w.get().data());
    bool threw = false;
    double r = 0;
    try { r = cost_function_chi(c.get(), w.get()); }
    catch (const std::invalid_argument&) { threw = true; }
    CHECK(threw == (n != m));
    if (!threw)
    {
#ifdef FV_SYMBOLIC
        CHECKN("result is the weighted sum", fv::same(r, S(c.get().data(), w.get().data(), n)));
#else
        // natively up to rounding, so that a different summation order is not reported
        const double s = S(c.get().data(), w.get().data(), n);
        double mag = 0;
        for (uint64_t i = 0; i < n; ++i) mag += std::abs(w.get()[i] * c.get()[i]);
        CHECKN("result is the weighted sum", fv::same(r, s) || !std::isfinite(mag) || std::abs(r - s) <= 1e-12 * mag);
#endif
    }
}
template <class T>
static void abs_contract(const char* nm)
{
    const T v = fv::any<T>(nm);
    if constexpr (std::is_signed_v<T>)
    {
        ASSUME(v != std::numeric_limits<T>::min());  // its magnitude is not representable
        const T r = integral_abs(v);
        CHECK(r >= 0);
        CHECK(r == v || r == -v);
    }
    else { CHECK(integral_abs(v) == v); }
}
FV_PROOF(integral_abs_signed)
{
    abs_contract<int8_t>("a");
    abs_contract<int16_t>("b");
    abs_contract<int32_t>("c");
    abs_contract<int64_t>("d");
}
FV_PROOF(integral_abs_unsigned)
{
    abs_contract<uint8_t>("a");
    abs_contract<uint16_t>("b");
    abs_contract<uint32_t>("c");
    abs_contract<uint64_t>("d");
}
// rounding to n places: nearest multiple of 10^-n; n small enough that the scaled number is finite
FV_PROOF(round_places)
{
    const auto n = fv::any_in<uint64_t>("n", 0, 12);
#ifdef FV_SYMBOLIC
    const double x = fv::any<double>("x");
#else
    const double x = static_cast<double>(static_cast<int64_t>(fv::any<uint64_t>("x"))) * 1e-10;
#endif
    ASSUME(std::abs(x) < 1e12);
    const double f = std::pow(10.0, static_cast<double>(n));
    ASSUME(f >= 1.0 && f <= 1e12);
    const double r = round_to_n_decimal_places(x, n);
#ifdef FV_SYMBOLIC
    CHECKN("nearest multiple of 10^-n", fv::same(r, std::round(x * f) / f));
#else
    CHECKN("nearest multiple of 10^-n", std::abs(r - x) <= 0.5000001 / f + 1e-15 * std::abs(x) && std::abs(r * f - std::round(r * f)) <= 1e-6 + 1e-12 * std::abs(r * f));
#endif
}
