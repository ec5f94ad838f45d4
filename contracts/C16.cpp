// C16 physical simulation parameters and the potential-to-distance conversion
#include "fv.hpp"
#include <cmath>
#include <fiction/algorithms/simulation/sidb/potential_to_distance_conversion.hpp>
#include <fiction/algorithms/simulation/sidb/sidb_simulation_parameters.hpp>
#include <fiction/technology/constants.hpp>
#include <fiction/technology/sidb_lattice_orientations.hpp>
//FV: pipe = inline
//FV: replace = ^exp$ -> fvspec_exp
//FV: loop = fiction::potential_to_distance_conversion\( ## 0:p2d
//FV: trust = libm exp and pow are functions of their arguments (uninterpreted); floating-point arithmetic in the loop contract is uninterpreted
//FV: assume = termination of the distance search is not proved (it depends on exp decaying below the requested potential); partial correctness is
using namespace fiction;

FV_PROOF(defaults)
{
    const sidb_simulation_parameters p{};
    CHECK(p.base == 3);
    CHECK(p.mu_minus == -0.32);
    CHECK(p.epsilon_r == 5.6);
    CHECK(p.lambda_tf == 5.0);
}
//FV: fp@derived = fp
FV_PROOF(derived)
{
    const auto b   = fv::any_in<uint8_t>("base", 2, 3);
    const auto mu  = fv::any<double>("mu"), eps = fv::any<double>("eps"), l = fv::any<double>("lambda");
    ASSUME(mu > -2.0 && mu < 2.0 && eps > 0.125 && eps < 1024.0 && l > 0.0 && l < 1e6);
    const sidb_simulation_parameters p{b, mu, eps, l};
    CHECK(p.base == b);
    CHECK(p.mu_minus == mu);
    CHECK(p.epsilon_r == eps);
    CHECK(p.lambda_tf == l);
    // the two transition levels are separated by 0.59 eV
    CHECK(p.mu_plus() < p.mu_minus);
    CHECK(p.k() > 0.0);
#ifdef FV_SYMBOLIC
    CHECK(fv::same(p.mu_plus(), mu - 0.59));
#else
    CHECK(std::abs((p.mu_minus - p.mu_plus()) - 0.59) < 1e-12);
    CHECK(std::abs(p.k() * eps / constants::physical::K_E - 1.0) < 1e-12);
#endif
}
FV_PROOF(coulomb_constant)
{
    const sidb_simulation_parameters p{2, -0.25, 4.0, 3.0};
    CHECK(std::abs(p.k() * 4.0 - 8.987552e9) < 1.0);
    CHECK(std::abs(constants::physical::EPSILON * constants::physical::K_E * 4.0 * constants::PI - 1.0) < 1e-6);
    CHECK(constants::physical::ELEMENTARY_CHARGE > 1.602e-19 && constants::physical::ELEMENTARY_CHARGE < 1.6022e-19);
    CHECK(constants::physical::EV_TO_JOULE == constants::physical::ELEMENTARY_CHARGE);
    CHECK(constants::physical::BOLTZMANN_CONSTANT > 1.3806e-23 && constants::physical::BOLTZMANN_CONSTANT < 1.3807e-23);
    // a dimer row is 7.68 angstrom, a dimer 2.25 angstrom; (111): 6.65 x 3.84
    CHECK(sidb_100_lattice::LAT_A == 3.84 && sidb_100_lattice::LAT_B == 7.68 && sidb_100_lattice::LAT_C.first == 0.0 && sidb_100_lattice::LAT_C.second == 2.25);
    CHECK(sidb_111_lattice::LAT_A == 6.65 && sidb_111_lattice::LAT_B == 3.84 && sidb_111_lattice::LAT_C.first == 3.3255 && sidb_111_lattice::LAT_C.second == 1.92);
}

// ---- the distance returned is the first multiple of the step at which the potential no longer exceeds the requested one
#ifdef FV_SYMBOLIC
static uint64_t K;  // ghost: number of distances whose potential has been evaluated
static uint64_t J;  // an arbitrary index
static double uexp(double x) { return __fv_fuf1("exp", __builtin_bit_cast(uint64_t, x)); }
FV_SPEC(double, exp)(double x)
{
    ASSUME(K != ~0ull);  // fewer than 2^64 evaluations
    ++K;
    return uexp(x);
}
static double D(uint64_t i) { return __fv_fuf1("multiple", i); }  // D(0) = step, D(i+1) = D(i) + step
#else
static double uexp(double x) { return std::exp(x); }
#endif
static double step_(uint64_t prec) { return std::pow(10, -static_cast<double>(prec)); }
static double pot(const sidb_simulation_parameters& p, double d)
{
    return p.k() * p.epsilon_r / p.epsilon_r / (d * 1e-9) * uexp(-d / p.lambda_tf) * constants::physical::ELEMENTARY_CHARGE;
}
#ifdef FV_SYMBOLIC
static void unfold(uint64_t i, uint64_t prec) { ASSUME(fv::same(D(i + 1), D(i) + step_(prec))); }
FV_INV(p2d)(double potential, const sidb_simulation_parameters& params, uint64_t precision, double distance, double v)
{
    if (K == 0) return false;
    unfold(K - 1, precision);
    if (!fv::same(distance, D(K - 1)) || !fv::same(v, pot(params, distance))) return false;
    return !(J < K - 1) || pot(params, D(J)) > potential;
}
#endif
FV_PROOF(first_distance_below)
{
#ifdef FV_SYMBOLIC
    K = 0;
    J = fv::any<uint64_t>("j");
    const auto prec = fv::any_in<uint64_t>("precision", 0, 10);
    const auto p    = fv::any<double>("potential");
    const sidb_simulation_parameters params{fv::any_in<uint8_t>("base", 2, 3), fv::any<double>("mu"), fv::any<double>("eps"), fv::any<double>("lambda")};
    ASSUME(fv::same(D(0), step_(prec)));
    const auto r = potential_to_distance_conversion(p, params, prec);
    CHECK(K >= 1);
    CHECKN("result is a multiple of the step", fv::same(r, D(K - 1)));
    CHECKN("the potential at the result does not exceed the requested one", !(pot(params, r) > p));
    CHECKN("it does at every smaller multiple", fv::implies(J < K - 1, pot(params, D(J)) > p));
#else
    const auto prec = fv::any_in<uint64_t>("precision", 0, 3);
    const auto p    = 0.001 + static_cast<double>(fv::any_in<uint64_t>("potential", 0, 4000)) * 0.001;
    const sidb_simulation_parameters params{fv::any_in<uint8_t>("base", 2, 3), -0.32, 1.0 + static_cast<double>(fv::any_in<uint64_t>("eps", 0, 900)) * 0.01, 0.5 + static_cast<double>(fv::any_in<uint64_t>("lambda", 0, 900)) * 0.01};
    const double s = step_(prec);
    const auto   r = potential_to_distance_conversion(p, params, prec);
    CHECKN("result is a multiple of the step", r > 0.5 * s && std::abs(r / s - std::round(r / s)) < 1e-6);
    CHECKN("the potential at the result does not exceed the requested one", pot(params, r) <= p * (1 + 1e-9));
    CHECKN("it does at every smaller multiple", r < 1.5 * s || pot(params, r - s) > p * (1 - 1e-9));
#endif
}
