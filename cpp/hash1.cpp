// also linked into the native replay program
#include <cstddef>
#include <string>
#include <unordered_map>
namespace std { namespace __detail {
// hash containers always have exactly one bucket: lookups compare keys only,
// so results do not depend on hash values.
size_t _Prime_rehash_policy::_M_next_bkt(size_t) const { return 1; }
pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash(size_t, size_t, size_t) const { return {false, 0}; }
}}
