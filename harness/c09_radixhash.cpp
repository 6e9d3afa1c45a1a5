//@cfg 0 : radix_hash_map<uint64_t>, hash = key: every insertion order of 3 symbolic keys, lookup
//@cfg 1 : radix_hash_map<uint64_t>, hash = key: one operation on small trees, every key symbolic
//@cfg 2 : radix_hash_set<uint64_t>, hash = key: one operation on larger trees, full leaves, nearly emptied trees
//@cfg 3 : radix_hash_map<uint64_t>, constant hash: one operation on small trees
//@cfg 4 : radix_hash_map<uint64_t>, constant hash: one operation on trees with more keys than a leaf holds, with erased elements
//@cfg 5 : radix_hash_set<uint64_t>, hash functions with few distinct values
//@cfg 6 : radix_hash_map, non-relocatable key and value
//@cfg 7 : radix_hash_set<uint64_t> with a stateful allocator
//@cfg 8 : radix_hash_map<uint64_t, owning value>, constant hash mixed by the library
//@cfg 9 thorough : radix_hash_map<uint64_t>, hash = key: two operations on small trees
//@cfg 10 thorough : radix_hash_map<uint64_t>, constant hash: two operations on small trees
//@parts 11
//@bounds keys: every 64-bit key in cfgs 0 and 1 (hash = key, the 8 leading bits of each key picked from a few values so that paths share prefixes); elsewhere small key tables with free remaining bits. One operation (thorough: two) on trees of 0 to about 60 elements built by insertions and erasures (directories split and merged, full leaves, vector nodes), then lookups of the operated key and of 4 others, size, traversal in both directions, surviving elements and exact destruction of all elements
//@bounds hash functions: identity, constant, 4 values, tag only, upper half of the key, stateful with different states
//@outside trees deep enough to need more than three directory levels; throwing hash functions and comparisons; transparent lookups
//@engine --forksel --forkptr
#include "hmap.h"
#include <seq/radix_hash_map.hpp>
template<class K, class T, class H = Hs, class RK = uint64_t> using M = HMap<K, seq::radix_hash_map<K, T, H>, H, true, false, RK>;
template<class K, class H = Hs> using S = HMap<K, seq::radix_hash_set<K, H>, H, false, false>;
using U = uint64_t;
void sx_main(int cfg)
{
    switch (cfg) {
        SX_CASE(0, (M<U, unsigned>::orders(H_ID, SXB(2, 3))));
        SX_CASE(1, (M<U, unsigned>::hist(H_ID, 0, 2, 1)));
        SX_CASE(2, (S<U>::hist(H_ID, 3, 9, 1)));
        SX_CASE(3, (M<U, unsigned>::hist(H_CONST, 0, 2, 1)));
        SX_CASE(4, (M<U, unsigned>::hist(H_CONST, 4, 7, 1)));
        SX_CASE(5, (S<U>::hist((unsigned)sx_pick("hash", H_TOP, H_MAX - 1), 1, 3, 1)));
        SX_CASE(6, (M<Obj, Obj, Hs, unsigned>::hist(H_LOW2, 0, 3, 1)));
        SX_CASE(7, (HMap<U, seq::radix_hash_set<U, Hs, std::equal_to<>, LAlloc<U>>, Hs, false, false>::hist(H_ID, 1, 3, 1)));
        SX_CASE(8, (M<U, Rel, Hm>::hist(H_CONST, 1, 2, 1)));
        SX_CASE(9, (M<U, unsigned>::hist(H_ID, 1, 2, 2)));
        SX_CASE(10, (M<U, unsigned>::hist(H_CONST, 1, 1, 2)));
    }
}
