// C19 simulated annealing: the result is the best state evaluated, with its own cost; the chain only moves as the acceptance rule allows
#include "fv.hpp"
#include <algorithm>
#include <atomic>
#include <cmath>
#include <fiction/algorithms/optimization/simulated_annealing.hpp>
#include <mutex>
#include <random>
//FV: pipe = inline
//FV: replace = ^std::random_device::random_device\(\)$ -> fvspec_rd_ctor
//FV: replace = ^std::random_device::~random_device\(\)$ -> fvspec_rd_dtor
//FV: replace = ^std::random_device::operator\(\)\(\)$ -> fvspec_rd_call
//FV: replace = ^std::mersenne_twister_engine<.*>::mersenne_twister_engine\(unsigned long\)$ -> fvspec_mt_ctor
//FV: replace = std::uniform_real_distribution<double>::operator\(\)<.*>\(.*&\)$ -> fvspec_uniform
//FV: loop@chain = fiction::simulated_annealing<.*\( ## 0:outer
//FV: loop@chain = fiction::simulated_annealing<.*\( ## 1:inner
//FV: trust = std::mt19937_64 with std::uniform_real_distribution(0,1) yields some value in [0,1); std::exp is uninterpreted
//FV: assume = termination of annealing depends on the caller's temperature schedule and is not proved
using namespace fiction;

// states are identified by a number; moving from a state leaves it unusable
static constexpr uint64_t MOVED = ~0ull;
struct state
{
    uint64_t id{MOVED};
    state() = default;
    explicit state(uint64_t i) : id{i} {}
    __attribute__((noinline)) state(const state& o) : id{o.id} {}
    __attribute__((noinline)) state(state&& o) noexcept : id{o.id} { o.id = MOVED; }
    __attribute__((noinline)) state& operator=(const state& o)
    {
        id = o.id;
        return *this;
    }
    __attribute__((noinline)) state& operator=(state&& o) noexcept
    {
        const auto t = o.id;
        o.id = MOVED;
        id   = t;
        return *this;
    }
};

// ---- ghost state
static int32_t  MINC;   // cheapest cost evaluated so far
static uint64_t INITID; // the initial state
static uint64_t CURID;  // state of the chain before the pending proposal
static uint64_t PEND;   // pending proposal
static bool     HAVE;   // is there a pending proposal?
static double   T, TACC, TINIT, TFINAL;  // temperature now and at the pending proposal; range
static double   R;      // last random number
static bool     DRAWN;  // has a number been drawn since the proposal?
static uint64_t NEXTS, CYCLES;
static uint64_t SEED;
#ifdef FV_SYMBOLIC
static int32_t COST(uint64_t id) { return static_cast<int32_t>(static_cast<uint32_t>(__fv_uf1("COST", id)) & 0x7fffffffu) - (1 << 30); }
FV_SPEC(void, rd_ctor)(void*) {}
FV_SPEC(void, rd_dtor)(void*) {}
FV_SPEC(uint32_t, rd_call)(void*) { return fv::any<uint32_t>("rd"); }
FV_SPEC(void, mt_ctor)(void*, uint64_t) {}
FV_SPEC(double, uniform)(void* dist, void* gen)
{
    CHECKN("the generator is not shared between threads", __fv_thread_private(dist) && __fv_thread_private(gen));
    const auto r = fv::any<double>("r");
    ASSUME(r >= 0.0 && r < 1.0);
    R     = r;
    DRAWN = true;
    return r;
}
#else
static int32_t COST(uint64_t id)
{
    uint64_t h = (id + SEED) * 0x9e3779b97f4a7c15ull;
    h ^= h >> 29;
    h *= 0xbf58476d1ce4e5b9ull;
    h ^= h >> 32;
    return static_cast<int32_t>(h % (SEED % 3 == 0 ? 8 : SEED % 3 == 1 ? 64 : 1000000)) - 4;
}
static double SUMD[3], SUMV[3];  // accepted minus expected, and variance, by range of delta/T
#endif
static bool accept_ok()
{
    const auto d = COST(PEND) - COST(CURID);
    if (d <= 0) return true;
#ifdef FV_SYMBOLIC
    return DRAWN && !(std::exp(-static_cast<double>(d) / TACC) < R);
#else
    return static_cast<double>(d) <= 10.0 * TACC;
#endif
}
static bool reject_ok()
{
    const auto d = COST(PEND) - COST(CURID);
    if (d <= 0) return false;
    if (static_cast<double>(d) > 10.0 * TACC) return true;
#ifdef FV_SYMBOLIC
    return DRAWN && !(std::exp(-static_cast<double>(d) / TACC) > R);
#else
    return true;
#endif
}
// may the chain be at this state now?
static bool legal(uint64_t id)
{
    if (!HAVE) return id == CURID;
    if (id == PEND) return accept_ok();
    return id == CURID && reject_ok();
}
static int32_t cost_fn(const state& s)
{
    CHECKN("costs are asked of intact states", s.id != MOVED);
    const auto c = COST(s.id);
    if (c < MINC) MINC = c;
    return c;
}
static state next_fn(const state& s)
{
    CHECKN("a neighbour is asked of an intact state", s.id != MOVED);
    CHECKN("the chain moves as the acceptance rule allows", legal(s.id));
    CHECKN("no more proposals than cycles per temperature", NEXTS < CYCLES);
#ifndef FV_SYMBOLIC
    if (HAVE)
    {
        const double d = static_cast<double>(COST(PEND) - COST(CURID));
        if (d > 0 && d <= 10.0 * TACC)
        {
            const double p = std::exp(-d / TACC);
            const int    b = d <= 0.7 * TACC ? 0 : d <= 2.0 * TACC ? 1 : 2;
            SUMD[b] += (s.id == PEND ? 1.0 : 0.0) - p;
            SUMV[b] += p * (1 - p);
        }
    }
    static uint64_t fresh = 0;
    const uint64_t  id    = ++fresh * 2654435761u % 1000003u;
#else
    const auto id = fv::any<uint64_t>("fresh");
#endif
    CURID = s.id;
    PEND  = id;
    ASSUME(PEND != MOVED && PEND != CURID);
    HAVE  = true;
    DRAWN = false;
    TACC  = T;
    CHECKN("ten temperatures are not negative", T < 0.0 || 10.0 * T >= 0.0);
    ++NEXTS;
    return state{PEND};
}
static double schedule_fn(double t)
{
    CHECKN("the schedule is given the current temperature", fv::same(t, T));
    CHECKN("one proposal per cycle and temperature", NEXTS == CYCLES);
#ifdef FV_SYMBOLIC
    const auto r = fv::any<double>("schedule");
    ASSUME(r == r);
#else
    const double r = t * 0.5;
#endif
    T     = std::clamp(r, TFINAL, TINIT);
    NEXTS = 0;
    return r;
}
#ifdef FV_SYMBOLIC
static bool common(int32_t current_cost, int32_t best_cost, double temp, const state& best_state, const state& current_state)
{
    return best_cost == COST(best_state.id) && best_state.id != MOVED && current_state.id != MOVED && current_cost == COST(current_state.id) && best_cost == MINC && MINC <= COST(INITID) &&
           best_cost <= current_cost && legal(current_state.id) && fv::same(temp, T) && temp <= TINIT && T >= TFINAL;
}
FV_INV(outer)(void*, const state&, double ti, double tf, uint64_t cycles, void*, void*, void*, int32_t current_cost, int32_t best_cost, double temp, const state& best_state, const state& current_state)
{
    return NEXTS == 0 && common(current_cost, best_cost, temp, best_state, current_state);
}
FV_INV(inner)(void*, const state&, double ti, double tf, uint64_t cycles, void*, void*, void*, int32_t current_cost, int32_t best_cost, double temp, uint64_t c, const state& best_state, const state& current_state)
{
    return NEXTS == c && c <= CYCLES && temp > tf && common(current_cost, best_cost, temp, best_state, current_state);
}
#endif
FV_PROOF(chain)
{
#ifdef FV_SYMBOLIC
    const auto ti = fv::any<double>("init_temp"), tf = fv::any<double>("final_temp");
    ASSUME(std::isfinite(ti) && std::isfinite(tf) && tf >= 0.0 && ti >= tf);  // temperatures are not negative
    const auto cycles = fv::any<uint64_t>("cycles");
#else
    SEED              = fv::any<uint64_t>("seed");
    const auto s      = fv::any_in<uint64_t>("temperatures", 0, 6);
    const auto cycles = fv::any_in<uint64_t>("cycles", 0, 3000);
    const double tf = 0.5, ti = s == 0 ? 0.5 : 0.5 * static_cast<double>(1u << s) * (SEED % 3 == 0 ? 1.0 : SEED % 3 == 1 ? 4.0 : 30000.0);
    for (int b = 0; b < 3; ++b) SUMD[b] = SUMV[b] = 0;
#endif
    const auto i0 = fv::any<uint64_t>("initial");
    ASSUME(i0 != MOVED);
    const state init{i0};
    MINC  = INT32_MAX;
    CURID = INITID = i0;
    HAVE  = false;
    DRAWN = false;
    T = TINIT = ti;
    TFINAL = tf;
    NEXTS  = 0;
    CYCLES = cycles;
    const auto r = simulated_annealing(init, ti, tf, cycles, [](const state& s) { return cost_fn(s); }, [](double t) { return schedule_fn(t); }, [](const state& s) { return next_fn(s); });
    CHECKN("the result carries its own cost", r.first.id != MOVED && r.second == COST(r.first.id));
    CHECKN("nothing cheaper was evaluated", r.second == MINC);
    CHECKN("not worse than the initial state", r.second <= COST(i0));
    CHECKN("the initial state is left alone", init.id == i0);
    CHECKN("the schedule was followed down to the final temperature", !(T > tf) && NEXTS == 0);
#ifndef FV_SYMBOLIC
    for (int b = 0; b < 3; ++b) CHECKN("worse states are accepted with the Metropolis probability", std::abs(SUMD[b]) <= 8.0 * std::sqrt(SUMV[b]) + 8.0);
#endif
}
FV_PROOF(schedules)
{
#ifdef FV_SYMBOLIC
    const auto t = fv::any<double>("t");
    CHECK(fv::same(linear_temperature_schedule(t), t - 10.0));
    CHECK(fv::same(geometric_temperature_schedule(t), t * 0.99));
#else
    const double t = static_cast<double>(fv::any_in<uint64_t>("t", 0, 1000000)) * 1e-3;
    CHECK(std::abs(linear_temperature_schedule(t) - (t - 10.0)) < 1e-9);
    CHECK(std::abs(geometric_temperature_schedule(t) - t * 0.99) < 1e-9);
#endif
}

// ---- several instances: instances run one after the other here; they only share the read-only arguments and write to
// distinct results (the generator is thread-private by the proof above)
//FV: replace = fiction::simulated_annealing<state, multi_of.*\( -> fvspec_instance
//FV: replace = ^std::thread::_M_start_thread\(.*\)$ -> fvspec_start
//FV: replace = ^std::thread::join\(\)$ -> fvspec_join
//FV: replace = ^std::thread::_State::~_State\(\)$ -> fvspec_state_dtor
//FV: trust@multi = std::thread runs its callable exactly once before join returns (modelled by running it at construction)
//FV: bounded@multi = 1 to 3 instances
using annealed = std::pair<state, int32_t>;
static int32_t  MINRES;          // cheapest result of an instance
static uint64_t RUNS, STATES, LASTRAND;
static double   MTI, MTF;
static uint64_t MCYC;
#ifdef FV_SYMBOLIC
FV_SPEC(annealed, instance)(const state& init, double ti, double tf, uint64_t cycles, void*, void*, void*)
{
    CHECKN("instances start from their own random state", init.id == LASTRAND && STATES == RUNS + 1);
    CHECKN("instances use the given temperatures and cycles", fv::same(ti, MTI) && fv::same(tf, MTF) && cycles == MCYC);
    state s{fv::any<uint64_t>("result")};
    ASSUME(s.id != MOVED);
    const auto c = COST(s.id);
    if (c < MINRES) MINRES = c;
    ++RUNS;
    return {s, c};
}
struct runnable  // layout of std::thread::_State
{
    virtual ~runnable()  = default;
    virtual void run() = 0;
};
FV_SPEC(void, start)(std::thread* self, runnable** p, void*)
{
    (*p)->run();
    *reinterpret_cast<uint64_t*>(self) = 1;
}
FV_SPEC(void, join)(std::thread* self) { *reinterpret_cast<uint64_t*>(self) = 0; }
FV_SPEC(void, state_dtor)(void*) {}
#endif
#ifdef FV_SYMBOLIC
static void multi_of(const uint64_t n)
{
    MTI = fv::any<double>("init_temp"), MTF = fv::any<double>("final_temp");
    ASSUME(std::isfinite(MTI) && std::isfinite(MTF));
    MCYC   = fv::any<uint64_t>("cycles");
    MINRES = INT32_MAX;
    RUNS = STATES = 0;
    const auto r = multi_simulated_annealing(
        MTI, MTF, MCYC, n,
        []
        {
            LASTRAND = fv::any<uint64_t>("random");
            ASSUME(LASTRAND != MOVED);
            ++STATES;
            return state{LASTRAND};
        },
        [](const state& s) { return COST(s.id); }, [](double t) { return t * 0.5; }, [](const state& s) { return state{s.id}; });
    CHECKN("one run per instance", RUNS == n && STATES == n);
    CHECKN("the cheapest result with its own cost", r.first.id != MOVED && r.second == COST(r.first.id) && r.second == MINRES);
}
#endif
FV_PROOF(multi)
{
#ifdef FV_SYMBOLIC
    multi_of(1);
    multi_of(2);
    multi_of(3);
#else
    const auto n = fv::any_in<uint64_t>("instances", 1, 6);
    SEED         = fv::any<uint64_t>("seed");
    MCYC         = fv::any_in<uint64_t>("cycles", 0, 50);
    MTI          = static_cast<double>(fv::any_in<uint64_t>("init_temp", 1, 40));
    MTF          = 0.75;
    std::mutex            m;
    int32_t               least = INT32_MAX;
    std::atomic<uint64_t> starts{0}, fresh{SEED % 1000};
    const auto            r = multi_simulated_annealing(
        MTI, MTF, MCYC, n,
        [&]
        {
            ++starts;
            return state{fresh += 7919};
        },
        [&](const state& s)
        {
            const std::lock_guard<std::mutex> g{m};
            least = std::min(least, COST(s.id));
            return COST(s.id);
        },
        [](double t) { return t * 0.5; }, [&](const state&) { return state{fresh += 7919}; });
    CHECKN("one run per instance", starts == n);
    CHECKN("the cheapest result with its own cost", r.first.id != MOVED && r.second == COST(r.first.id) && r.second == least);
#endif
}
