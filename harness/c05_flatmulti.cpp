//@cfg 0 : flat_multimap<unsigned, unsigned, std::less<>, Stable>: 1 operation and a lookup
//@cfg 1 : flat_multiset<unsigned>: 1 operation and a lookup
//@cfg 2 : flat_multimap of non-relocatable object keys: 1 operation and a lookup
//@cfg 3 : flat_multiset of 2-character tiny_string keys: 1 operation and a lookup
//@cfg 4 : flat_multimap<unsigned, unsigned> in descending order with a stateful comparator: 1 operation and a lookup
//@cfg 5 : flat_multiset of relocatable owning keys: 1 operation and a lookup
//@cfg 6 : flat_multimap<unsigned, unsigned>: 2 operations and a lookup on up to 2 elements (thorough: 3)
//@cfg 7 : flat_multimap<unsigned, unsigned>: lookups in 90 elements, 3 of each key
//@cfg 8 : every insertion order of 5 symbolic keys with their equalities
//@cfg 9 : flat_multimap of object keys: 2 operations on up to 1 element (thorough: 2)
//@cfg 10 thorough : flat_multimap<unsigned, unsigned>: 2 unrestricted operations on up to 2 elements
//@cfg 11 thorough : flat_multiset of tiny_string keys: 2 operations on up to 2 elements
//@cfg 12 thorough : flat_multimap<unsigned, unsigned>: 2 operations on up to 8 elements
//@cfg 13 thorough : every insertion order of 6 symbolic object keys
//@bounds pre-states: 0 to 8 (one configuration: 11) elements, 3 of each key, inserted ascending, descending or alternating (buckets of 2 to 4 elements, wrapped and not); histories of one operation of 34 (one configuration: two) followed by a lookup of a symbolic key by every lookup function; every hint and position; range arguments of 0 to 9 keys with duplicates; operation keys and probes symbolic (32 bit, 16 bit for strings)
//@outside longer histories; key types other than 32-bit integers, 2-character strings and objects with operator<; merge of multi-containers (does not compile)
//@parts 5
//@engine --forksel
#include "flat.h"
using seq::flat_multimap;
using seq::flat_multiset;
template<class K, class L, bool S> using FM = flat_multimap<K, unsigned, L, std::allocator<std::pair<K, unsigned>>, S>;
template<class K, class L, bool S> using FS = flat_multiset<K, L, std::allocator<K>, S>;
using L = std::less<>;
using MU = Flat<FM<unsigned, L, true>, unsigned, true, true, true>;
using SU = Flat<FS<unsigned, L, false>, unsigned, false, true, false>;
using MO = Flat<FM<Obj, L, true>, Obj, true, true, true>;
using SS = Flat<FS<Str::T, L, false>, Str::T, false, true, false, false, 16>;
using MG = Flat<FM<unsigned, Greater, true>, unsigned, true, true, true, true>;
using SR = Flat<FS<Rel, L, false>, Rel, false, true, false>;
void sx_main(int cfg)
{
    switch (cfg) {
        SX_CASE(0, MU::hist(1, 1, 5));
        SX_CASE(1, SU::hist(1, 1, 6));
        SX_CASE(2, MO::hist(1, 1, 5));
        SX_CASE(3, SS::hist(1, 1, 4));
        SX_CASE(4, MG::hist(1, 1, 5));
        SX_CASE(5, SR::hist(1, 1, 5));
        SX_CASE(6, MU::hist(2, 1, SXB(2, 3)));
        SX_CASE(7, MU::look(90, 47));
        SX_CASE(8, MU::orders(5));
        SX_CASE(9, MO::hist(2, 1, SXB(1, 2)));
        SX_CASE(10, MU::hist(2, 2, 2));
        SX_CASE(11, SS::hist(2, 1, 2));
        SX_CASE(12, MU::hist(2, 1, 5));
        SX_CASE(13, MO::orders(6));
    }
}
