//@cfg 0 : flat_map<unsigned, unsigned, std::less<>, Stable>: 1 operation and a lookup
//@cfg 1 : flat_set<unsigned>: 1 operation and a lookup
//@cfg 2 : flat_map of non-relocatable object keys: 1 operation and a lookup
//@cfg 3 : flat_set of 2-character tiny_string keys: 1 operation and a lookup
//@cfg 4 : flat_map<unsigned, unsigned> in descending order with a stateful comparator: 1 operation and a lookup
//@cfg 5 : flat_set of relocatable owning keys: 1 operation and a lookup
//@cfg 6 : flat_map<unsigned, unsigned>: 2 operations and a lookup on up to 2 elements (thorough: 3)
//@cfg 7 : flat_set<unsigned>: lookups in 120 elements
//@cfg 8 : every insertion order of 5 symbolic keys
//@cfg 9 : flat_map of object keys: 2 operations on up to 1 element (thorough: 2)
//@cfg 10 thorough : flat_map<unsigned, unsigned>: 2 unrestricted operations on up to 2 elements (thorough: 3)
//@cfg 11 thorough : flat_set of tiny_string keys: 2 operations on up to 2 elements (thorough: 3)
//@cfg 12 thorough : flat_map<unsigned, unsigned>: 2 operations on up to 17 elements
//@cfg 13 thorough : every insertion order of 7 symbolic keys, object keys
//@cfg 14 thorough : flat_set of owning keys: 2 operations and a lookup on up to 8 elements
//@bounds pre-states: 0 to 8 (one configuration: 11) keys inserted ascending, descending or alternating (buckets of 2 to 4 elements, wrapped and not); histories of one operation of 34 (thorough: two) followed by a lookup of a symbolic key by every lookup function; every hint and position; range arguments of 0 to 9 keys with duplicates; operation keys and probes symbolic (32 bit, 16 bit for strings); 120-element containers for lookups alone
//@outside longer histories; key types other than 32-bit integers, 2-character strings and objects with operator<; merge between maps (does not compile)
//@parts 5
//@engine --forksel
#include "flat.h"
using seq::flat_map;
using seq::flat_set;
template<class K, class L, bool S> using FM = flat_map<K, unsigned, L, std::allocator<std::pair<K, unsigned>>, S>;
template<class K, class L, bool S> using FS = flat_set<K, L, std::allocator<K>, S>;
using L = std::less<>;
using MU = Flat<FM<unsigned, L, true>, unsigned, true, false, true>;
using SU = Flat<FS<unsigned, L, false>, unsigned, false, false, false>;
using MO = Flat<FM<Obj, L, true>, Obj, true, false, true>;
using SS = Flat<FS<Str::T, L, false>, Str::T, false, false, false, false, 16>;
using MG = Flat<FM<unsigned, Greater, false>, unsigned, true, false, false, true>;
using SR = Flat<FS<Rel, L, false>, Rel, false, false, false>;
void sx_main(int cfg)
{
    switch (cfg) {
        SX_CASE(0, MU::hist(1, 1, 5));
        SX_CASE(1, SU::hist(1, 1, 6));
        SX_CASE(2, MO::hist(1, 1, 5));
        SX_CASE(3, SS::hist(1, 1, 4));
        SX_CASE(4, MG::hist(1, 1, 5));
        SX_CASE(5, SR::hist(1, 1, 5));
        SX_CASE(6, MU::hist(2, 1, SXB(2, 3)));
        SX_CASE(7, SU::look(120, 47));
        SX_CASE(8, MU::orders(5));
        SX_CASE(9, MO::hist(2, 1, SXB(1, 2)));
        SX_CASE(10, MU::hist(2, 2, 4));
        SX_CASE(11, SS::hist(2, 1, 4));
        SX_CASE(12, MU::hist(2, 1, 7));
        SX_CASE(13, MO::orders(7));
        SX_CASE(14, SR::hist(2, 1, 5));
    }
}
