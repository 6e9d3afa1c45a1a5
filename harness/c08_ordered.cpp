//@cfg 0 : ordered_map<uint64_t>, hash = key: every insertion order of 2 (thorough: 3) symbolic keys, lookup
//@cfg 1 : ordered_map<uint64_t>, hash = key: one operation on small tables
//@cfg 2 : ordered_set<uint64_t>, hash = key: one operation on a table about to be rehashed, nearly emptied
//@cfg 3 : ordered_map<uint64_t>, constant hash: one operation on small tables
//@cfg 4 : ordered_map<uint64_t>, constant hash: one operation on long probe sequences (linear mode), with erased elements
//@cfg 5 : ordered_set<uint64_t>, hash values with few distinct values
//@cfg 6 : ordered_map, non-relocatable key and value
//@cfg 7 : ordered_set<uint64_t> with a stateful allocator, hash = key
//@cfg 8 : ordered_map<uint64_t, owning value>, constant hash mixed by the library
//@cfg 9 thorough : ordered_map<uint64_t>, hash = key: two operations on small tables
//@cfg 10 thorough : ordered_set<uint64_t>: one operation on every shape, hash values differing only in the tag
//@cfg 11 thorough : ordered_map<uint64_t>, constant hash: two operations on small tables
//@parts 12
//@bounds keys: 64-bit keys whose bucket in a table of up to 256 buckets is one of seven (all other bits free); with the other hash functions every 64-bit key. One operation (thorough: two) on tables of 0 to 128 elements built by insertions and erasures, then lookups of the operated key and of 4 others; results, iteration in both directions, references to surviving elements and memory released are compared with a list of entries in insertion order
//@bounds hash functions: identity, constant, 4 values, tag only, upper half of the key, stateful with different states
//@outside tables of more than 256 buckets; throwing hash functions and comparisons; transparent lookups
//@engine --forksel --forkptr
#include "hmap.h"
#include <seq/ordered_map.hpp>
template<class K, class T, class H = Hs, class RK = uint64_t> using M = HMap<K, seq::ordered_map<K, T, H>, H, true, true, RK>;
template<class K, class H = Hs> using S = HMap<K, seq::ordered_set<K, H>, H, false, true>;
using U = uint64_t;
void sx_main(int cfg)
{
    switch (cfg) {
        SX_CASE(0, (M<U, unsigned>::orders(H_ID, SXB(2, 3))));
        SX_CASE(1, (M<U, unsigned>::hist(H_ID, 0, 3, 1)));
        SX_CASE(2, (S<U>::hist(H_ID, 4, 9, 1)));
        SX_CASE(3, (M<U, unsigned>::hist(H_CONST, 0, 3, 1)));
        SX_CASE(4, (M<U, unsigned>::hist(H_CONST, 5, 7, 1)));
        SX_CASE(5, (S<U>::hist((unsigned)sx_pick("hash", H_TOP, H_MAX - 1), 1, 3, 1)));
        SX_CASE(7, (HMap<U, seq::ordered_set<U, Hs, std::equal_to<>, LAlloc<U>>, Hs, false, true>::hist(H_ID, 1, 3, 1)));
        SX_CASE(8, (M<U, Rel, Hm>::hist(H_CONST, 1, 2, 1)));
        SX_CASE(9, (M<U, unsigned>::hist(H_ID, 0, 2, 2)));
        SX_CASE(10, (S<U>::hist(H_TOP, 0, 10, 1)));
        SX_CASE(11, (M<U, unsigned>::hist(H_CONST, 0, 2, 2)));
        SX_CASE(6, (M<Obj, Obj, Hs, unsigned>::hist(H_LOW2, 0, 3, 1)));
    }
}
