// The bucket counts libstdc++'s hash containers choose (in the library, not in the headers): any choice keeps the container's
// meaning; here, the number asked for, and never a rehash.
#pragma once
#include <unordered_map>
#ifdef FV_SYMBOLIC
namespace std::__detail
{
size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const { return n < 2 ? 1 : n; }
pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash(size_t, size_t, size_t) const { return {false, 0}; }
}  // namespace std::__detail
#endif
