// Native side of the DSL: replays a solver model against the real code, or searches for a failing input.
// usage: prog list | prog replay <proof> <file> | prog search <proof> <seconds> <seed> <outfile>
#include <chrono>
#include <csetjmp>
#include <csignal>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <iostream>
#include <map>
#include <random>
#include <string>
#include <unistd.h>
#include <vector>

namespace
{
std::map<std::string, void (*)()>& reg()
{
    static std::map<std::string, void (*)()> r;
    return r;
}
bool                            replay = false;
std::map<std::string, uint64_t> model;
std::vector<std::pair<std::string, uint64_t>> trace;
std::mt19937_64                 rng(1);
sigjmp_buf                      jb;
int                             outcome;  // 1 = assumption failed, 2 = check failed, 3 = trap/signal, 4 = exception
std::string                     why;
std::vector<uint64_t>           recent;
int                             mode = 0;

uint64_t special(unsigned bits)
{
    const uint64_t m = bits == 64 ? ~0ull : ((1ull << bits) - 1);
    switch (rng() % 10)
    {
        case 0: return rng() & m;
        case 1: return (m - rng() % 4) & m;
        case 2: return ((1ull << (rng() % bits)) + (rng() % 3) - 1) & m;
        case 3: return (0 - (rng() % 6)) & m;
        case 4:
            if (!recent.empty()) return (recent[rng() % recent.size()] + (rng() % 5) - 2) & m;
            return rng() % 4;
        case 5:
            if (!recent.empty()) return recent[rng() % recent.size()] & m;
            return rng() % 8;
        case 6: return rng() % 256 & m;
        default: return rng() % 7 & m;
    }
}
// repeated requests of one name are numbered, exactly as the verifier numbers them
std::map<std::string, int> uses;
std::string unique(const char* n)
{
    const int k = ++uses[n];
    return k == 1 ? std::string(n) : std::string(n) + "#" + std::to_string(k);
}
uint64_t get(const char* nm, unsigned bits)
{
    const std::string n = unique(nm);
    uint64_t v;
    auto it = model.find(n);
    if (it != model.end()) v = it->second;
    else if (replay) v = 0;
    else { v = special(bits); recent.push_back(v); }
    if (bits < 64) v &= (1ull << bits) - 1;
    trace.emplace_back(n, v);
    return v;
}
void handler(int s)
{
    outcome = 3;
    why     = "signal " + std::to_string(s);
    siglongjmp(jb, 1);
}
std::string curfail;
// uninterpreted functions: an arbitrary but fixed value per argument tuple and run
std::map<std::string, uint64_t> ufs;
uint64_t uf(std::string n, std::initializer_list<uint64_t> a)
{
    n = "uf " + n;
    for (auto v : a) n += "," + std::to_string(v);
    auto it = ufs.find(n);
    if (it != ufs.end()) return it->second;
    auto     m = model.find(n);
    uint64_t v = m != model.end() ? m->second : replay ? 0 : special(64);
    trace.emplace_back(n, v);
    return ufs[n] = v;
}
}  // namespace

extern "C"
{
bool     __fv_thread_private(const void*) { return true; }
uint64_t __fv_uf1(const char* n, uint64_t a) { return uf(n, {a}); }
uint64_t __fv_uf2(const char* n, uint64_t a, uint64_t b) { return uf(n, {a, b}); }
uint64_t __fv_uf3(const char* n, uint64_t a, uint64_t b, uint64_t c) { return uf(n, {a, b, c}); }
uint64_t __fv_uf4(const char* n, uint64_t a, uint64_t b, uint64_t c, uint64_t d) { return uf(n, {a, b, c, d}); }
void     fv_not_enumerable() { outcome = 1; siglongjmp(jb, 1); }
uint64_t __fv_any_u64(const char* n) { return get(n, 64); }
uint32_t __fv_any_u32(const char* n) { return static_cast<uint32_t>(get(n, 32)); }
uint16_t __fv_any_u16(const char* n) { return static_cast<uint16_t>(get(n, 16)); }
uint8_t  __fv_any_u8(const char* n) { return static_cast<uint8_t>(get(n, 8)); }
bool     __fv_any_bool(const char* n) { return get(n, 1) & 1; }
double   __fv_any_f64(const char* nm)
{
    const std::string n = unique(nm);
    uint64_t v;
    auto it = model.find(n);
    if (it != model.end()) v = it->second;
    else if (replay) v = 0;
    else
    {
        double d;
        switch (rng() % 8)
        {
            case 0: d = 0.0; break;
            case 1: d = static_cast<double>(static_cast<int>(rng() % 21) - 10); break;
            case 2: d = static_cast<double>(static_cast<int>(rng() % 2001) - 1000) / 100.0; break;
            case 3: d = static_cast<double>(rng() % 1000) / 7.0; break;
            case 4: d = -static_cast<double>(rng() % 1000) / 13.0; break;
            case 5: { uint64_t b = rng(); std::memcpy(&d, &b, 8); break; }
            case 6: d = static_cast<double>(rng() % 100) * 1e-3; break;
            default: d = static_cast<double>(rng()) * 1e-10; break;
        }
        std::memcpy(&v, &d, 8);
    }
    trace.emplace_back(n, v);
    double d;
    std::memcpy(&d, &v, 8);
    return d;
}
uint64_t __fv_native_range(const char* nm, uint64_t lo, uint64_t hi)
{
    const std::string n = unique(nm);
    uint64_t v;
    auto it = model.find(n);
    if (it != model.end()) v = it->second;
    else if (replay) v = lo;
    else
    {
        const uint64_t span = hi - lo;
        switch (rng() % 5)
        {
            case 0: v = lo + (span == ~0ull ? rng() : rng() % (span + 1)); break;
            case 1: v = lo + (span < 3 ? (span ? rng() % (span + 1) : 0) : rng() % 3); break;
            case 2: v = hi - (span < 3 ? (span ? rng() % (span + 1) : 0) : rng() % 3); break;
            default: v = lo + (span < 8 ? (span ? rng() % (span + 1) : 0) : rng() % 8); break;
        }
        recent.push_back(v);
    }
    trace.emplace_back(n, v);
    return v;
}
void __fv_assume(bool c)
{
    if (!c) { outcome = 1; siglongjmp(jb, 1); }
}
void __fv_check(bool c, const char* n)
{
    if (!c) { outcome = 2; why = n; siglongjmp(jb, 1); }
}
bool __fv_same_f64(double a, double b) { return (a != a && b != b) || std::memcmp(&a, &b, 8) == 0; }
void __fv_cover(const char*) {}
void __fv_havoc(void*, uint64_t) {}
void __fv_native_register(const char* n, void (*f)()) { reg()[n] = f; }
void __assert_fail(const char* e, const char*, unsigned, const char*) noexcept
{
    outcome = 3;
    why     = std::string("assertion ") + e;
    siglongjmp(jb, 1);
}
}

static int run_once(void (*f)())
{
    outcome = 0;
    why.clear();
    trace.clear();
    uses.clear();
    ufs.clear();
    recent.clear();
    if (sigsetjmp(jb, 1) == 0)
    {
        try
        {
            f();
        }
        catch (...)
        {
            outcome = 4;
            why     = "escaping exception";
        }
    }
    return outcome;
}

int main(int argc, char** argv)
{
    for (int s : {SIGILL, SIGSEGV, SIGFPE, SIGABRT, SIGBUS, SIGTRAP}) signal(s, handler);
    if (argc < 2) return 2;
    std::string cmd = argv[1];
    if (cmd == "list")
    {
        for (auto& [n, f] : reg()) std::cout << n << "\n";
        return 0;
    }
    if (argc < 4) return 2;
    auto it = reg().find(argv[2]);
    if (it == reg().end()) { std::cerr << "no such proof\n"; return 2; }
    if (cmd == "replay")
    {
        std::ifstream in(argv[3]);
        std::string   line;
        while (std::getline(in, line))
        {
            if (line.empty() || line[0] == '#') continue;
            auto p = line.rfind(' ');
            model[line.substr(0, p)] = std::strtoull(line.c_str() + p + 1, nullptr, 0);
        }
        replay = true;
        alarm(60);
        int r = run_once(it->second);
        std::cout << "outcome " << r << " " << why << "\n";
        for (auto& [n, v] : trace) std::cout << "  " << n << " = " << v << "\n";
        return r >= 2 ? 1 : 0;
    }
    if (cmd == "search")
    {
        const double secs = std::atof(argv[3]);
        rng.seed(argc > 4 ? std::strtoull(argv[4], nullptr, 0) : 1);
        const char* out = argc > 5 ? argv[5] : nullptr;
        auto        t0  = std::chrono::steady_clock::now();
        uint64_t    tried = 0, valid = 0;
        alarm(static_cast<unsigned>(secs) + 30);
        while (true)
        {
            if ((tried & 15) == 0 && std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() > secs) break;
            ++tried;
            int r = run_once(it->second);
            if (r != 1) ++valid;
            if (r >= 2)
            {
                std::cout << "FAIL " << r << " " << why << "\n";
                if (out)
                {
                    std::ofstream o(out);
                    o << "# proof " << argv[2] << ": " << why << "\n";
                    std::map<std::string, uint64_t> seen;
                    for (auto& [n, v] : trace)
                        if (seen.emplace(n, v).second) o << n << " " << v << "\n";
                }
                std::cout << "tried " << tried << " valid " << valid << "\n";
                return 1;
            }
        }
        std::cout << "tried " << tried << " valid " << valid << "\n";
        return 0;
    }
    return 2;
}
