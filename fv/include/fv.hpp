// Specification DSL. The same contract file is compiled twice from the same text:
//  * with clang to LLVM IR (FV_SYMBOLIC), where the __fv_* primitives are interpreted by the verifier, and
//  * natively (replay / witness search), where they are implemented by native.cpp.
#pragma once
#include <cstdint>
#include <cstddef>
#include <cstring>
#include <type_traits>
#include <string>
#include <utility>
#include <vector>

extern "C"
{
uint64_t __fv_any_u64(const char*);
uint32_t __fv_any_u32(const char*);
uint16_t __fv_any_u16(const char*);
uint8_t  __fv_any_u8(const char*);
bool     __fv_any_bool(const char*);
double   __fv_any_f64(const char*);
void     __fv_assume(bool);
void     __fv_check(bool, const char*);
void     __fv_cover(const char*);
void*    __fv_any_array(const char*, uint64_t n, uint64_t stride);
void     __fv_havoc(void*, uint64_t);
uint64_t __fv_uf1(const char*, uint64_t);
uint64_t __fv_uf2(const char*, uint64_t, uint64_t);
uint64_t __fv_uf3(const char*, uint64_t, uint64_t, uint64_t);
uint64_t __fv_uf4(const char*, uint64_t, uint64_t, uint64_t, uint64_t);
double   __fv_fuf1(const char*, uint64_t);
double   __fv_fuf2(const char*, uint64_t, uint64_t);
double   __fv_fuf3(const char*, uint64_t, uint64_t, uint64_t);
bool     __fv_same_f64(double, double);
// the object is not a global shared between threads (a thread_local, a local or a heap object); natively always true
bool     __fv_thread_private(const void*);
// native witness search only: hint for the value range of the next any(); ignored symbolically
uint64_t __fv_native_range(const char*, uint64_t lo, uint64_t hi);
void     __fv_native_register(const char*, void (*)());
}

namespace fv
{
template <class T>
inline T any(const char* n)
{
    if constexpr (std::is_same_v<T, bool>) return __fv_any_bool(n);
    else if constexpr (std::is_same_v<T, double>) return __fv_any_f64(n);
    else if constexpr (std::is_enum_v<T>) return static_cast<T>(any<std::underlying_type_t<T>>(n));
    else if constexpr (sizeof(T) == 8) return static_cast<T>(__fv_any_u64(n));
    else if constexpr (sizeof(T) == 4) return static_cast<T>(__fv_any_u32(n));
    else if constexpr (sizeof(T) == 2) return static_cast<T>(__fv_any_u16(n));
    else return static_cast<T>(__fv_any_u8(n));
}
inline void assume(bool c) { __fv_assume(c); }
inline void check(bool c, const char* n) { __fv_check(c, n); }
// any value in [lo,hi] (inclusive)
template <class T>
inline T any_in(const char* n, T lo, T hi)
{
#ifdef FV_SYMBOLIC
    T v = any<T>(n);
#else
    T v = static_cast<T>(__fv_native_range(n, static_cast<uint64_t>(lo), static_cast<uint64_t>(hi)));
#endif
    assume(lo <= v);
    assume(v <= hi);
    return v;
}
// a size in [lo,hi]; natively only sizes up to nhi are tried
inline uint64_t any_size(const char* n, uint64_t lo, uint64_t hi, uint64_t nhi)
{
#ifdef FV_SYMBOLIC
    (void)nhi;
    return any_in<uint64_t>(n, lo, hi);
#else
    return any_in<uint64_t>(n, lo, nhi);
#endif
}
// identity of floating-point values (all NaNs are identified, zeros are distinguished)
inline bool same(double a, double b) { return __fv_same_f64(a, b); }
inline bool implies(bool a, bool b) { return !a || b; }

#ifdef FV_SYMBOLIC
// a std::vector of n arbitrary elements, n arbitrary in [lo,hi] (hi may be as large as memory allows: the proof is unbounded)
template <class T>
struct any_vector
{
    alignas(std::vector<T>) unsigned char raw[sizeof(std::vector<T>)];
    explicit any_vector(const char* name, uint64_t n)
    {
        T* p = static_cast<T*>(__fv_any_array(name, n, sizeof(T)));
        T** f = reinterpret_cast<T**>(raw);
        f[0] = p;
        f[1] = p + n;
        f[2] = p + n;
    }
    std::vector<T>&       get() { return *reinterpret_cast<std::vector<T>*>(raw); }
};
#else
template <class T>
struct any_vector
{
    std::vector<T> v;
    explicit any_vector(const char* name, uint64_t n)
    {
        v.resize(n);
        for (uint64_t i = 0; i < n; ++i)
        {
            std::string nm = std::string(name) + "[" + std::to_string(i) + "]";
            if constexpr (std::is_arithmetic_v<T> || std::is_enum_v<T>) v[i] = any<T>(nm.c_str());
            else
            {
                unsigned char* b = reinterpret_cast<unsigned char*>(&v[i]);
                for (size_t k = 0; k < sizeof(T); ++k) b[k] = any<uint8_t>((nm + "." + std::to_string(k)).c_str());
            }
        }
    }
    std::vector<T>& get() { return v; }
};
#endif
}  // namespace fv

#ifdef FV_SYMBOLIC
#define FV_PROOF(name) extern "C" __attribute__((used, noinline)) void fvproof_##name()
#else
#define FV_PROOF(name)                                                                                        \
    extern "C" void fvproof_##name();                                                                         \
    namespace                                                                                                 \
    {                                                                                                         \
    struct reg_##name                                                                                         \
    {                                                                                                         \
        reg_##name() { __fv_native_register(#name, &fvproof_##name); }                                        \
    } reg_inst_##name;                                                                                        \
    }                                                                                                         \
    extern "C" void fvproof_##name()
#endif

// loop contracts: predicate (and decreasing measure) over the function's arguments followed by loop variables
#define FV_INV(name) extern "C" __attribute__((used, noinline)) bool fvinv_##name
#define FV_DEC(name) extern "C" __attribute__((used, noinline)) uint64_t fvdec_##name
// replacement contract of a callee
#define FV_SPEC(ret, name) extern "C" __attribute__((used, noinline)) ret fvspec_##name

#define FV_CAT2(a, b) a##b
#define FV_CAT(a, b) FV_CAT2(a, b)
#define CHECK(...) ::fv::check((__VA_ARGS__), #__VA_ARGS__)
#define CHECKN(name, ...) ::fv::check((__VA_ARGS__), name)
#define ASSUME(...) ::fv::assume((__VA_ARGS__))
