// Ghost contract of the character streams the code writes to: everything inserted is appended, in order, to OUT[0..LEN).
// Natively the real streams are used and this header only declares the replacements.
#pragma once
//FV: trust = character streams: characters inserted are returned / emitted in insertion order (ghost contract in contracts/ghost_stream.hpp)
//FV: replace = ^std::basic_ostream<char, std::char_traits<char> >& std::operator<< ?<std::char_traits<char> >\(std::basic_ostream<char, std::char_traits<char> >&, char\)$ -> fvspec_put_char
//FV: replace = ^std::basic_ostream<char, std::char_traits<char> >& std::operator<< ?<std::char_traits<char> >\(std::basic_ostream<char, std::char_traits<char> >&, char const\*\)$ -> fvspec_put_cstr
//FV: replace = ^std::basic_ostream<char, std::char_traits<char> >& std::__ostream_insert<char, std::char_traits<char> >\(std::basic_ostream<char, std::char_traits<char> >&, char const\*, long\)$ -> fvspec_put_n
//FV: replace = ^std::ostream::put\(char\)$ -> fvspec_put_member_char
//FV: replace = ^std::ostream::write\(char const\*, long\)$ -> fvspec_put_n
//FV: replace = ^std::ostream::flush\(\)$ -> fvspec_put_flush
//FV: replace = ^std::basic_ostream<char, std::char_traits<char> >& std::endl<.*\(std::basic_ostream<char, std::char_traits<char> >&\)$ -> fvspec_put_endl
//FV: replace = ^std::basic_ostream<char, std::char_traits<char> >& std::flush<.*\(std::basic_ostream<char, std::char_traits<char> >&\)$ -> fvspec_put_flush
//FV: replace = ^std::__cxx11::basic_(o?string)stream<char, .*>::basic_(o?string)stream\(\)$ -> fvspec_ss_ctor
//FV: replace = ^std::__cxx11::basic_(o?string)stream<char, .*>::~basic_(o?string)stream\(\)$ -> fvspec_ss_dtor
//FV: replace = ^std::__cxx11::basic_(o?string)stream<char, .*>::str\(\) const &$ -> fvspec_ss_str
//FV: replace = ^std::__cxx11::basic_(o?string)stream<char, .*>::str\(\) const$ -> fvspec_ss_str
#include "fv.hpp"
#include <ostream>
#include <sstream>
#include <string>
#ifdef FV_SYMBOLIC
namespace ghost
{
inline char*    OUT = nullptr;
inline uint64_t LEN = 0;
inline void     reset()
{
    OUT = static_cast<char*>(__fv_any_array("out", 1ull << 44, 1));
    LEN = 0;
}
inline void put(char c)
{
    OUT[LEN] = c;
    ++LEN;
}
inline void puts(const char* s)
{
    for (uint64_t k = 0; s[k] != 0; ++k) put(s[k]);
}
}  // namespace ghost
FV_SPEC(std::ostream&, put_char)(std::ostream& os, char c)
{
    ghost::put(c);
    return os;
}
FV_SPEC(std::ostream&, put_cstr)(std::ostream& os, const char* s)
{
    ghost::puts(s);
    return os;
}
FV_SPEC(std::ostream&, put_n)(std::ostream& os, const char* s, long n)
{
    for (long k = 0; k < n; ++k) ghost::put(s[k]);
    return os;
}
FV_SPEC(std::ostream&, put_member_char)(std::ostream& os, char c)
{
    ghost::put(c);
    return os;
}
FV_SPEC(std::ostream&, put_endl)(std::ostream& os)
{
    ghost::put('\n');
    return os;
}
FV_SPEC(std::ostream&, put_manip)(std::ostream& os, std::ostream& (*f)(std::ostream&)) { return f(os); }
FV_SPEC(std::ostream&, put_flush)(std::ostream& os) { return os; }
FV_SPEC(void, ss_ctor)(void*) {}
FV_SPEC(void, ss_ctor_mode)(void*, int) {}
FV_SPEC(void, ss_dtor)(void*) {}
// str(): a std::string whose characters are exactly the ghost output
FV_SPEC(void, ss_str)(void* ret, const void*)
{
    auto** p = static_cast<char**>(ret);
    p[0]     = ghost::OUT;
    static_cast<uint64_t*>(ret)[1] = ghost::LEN;
    static_cast<uint64_t*>(ret)[2] = ghost::LEN;
}
FV_SPEC(void, str_dtor)(void*) {}
#endif
