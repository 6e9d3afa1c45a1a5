//@cfg 0 : radix_map<uint32_t>: every insertion order of 3 (thorough: 4) symbolic keys, then a lookup of a symbolic key
//@cfg 1 : radix_map<uint32_t>: one operation (thorough: two) on small containers, every key symbolic
//@cfg 2 : radix_map<uint32_t>: one operation on a full leaf and on the directory it splits into
//@cfg 3 : radix_map<uint32_t>: lookups in 11 concrete trees
//@cfg 4 : radix_set<int64_t>: one operation on small containers
//@cfg 5 : radix_set<int8_t>: one operation on small containers
//@cfg 6 : radix_map<uint16_t>: one operation on small containers
//@cfg 7 : radix_set<bool>: two operations (thorough: three)
//@cfg 8 : radix_map<double>: one operation on small containers, any value except NaN
//@cfg 9 : radix_set<float>: every insertion order of 2 (thorough: 3) symbolic keys, lookup
//@cfg 10 : radix_set<T*>: one operation on small containers
//@cfg 11 : radix_map<uint8_t, non-relocatable value>: one operation on small containers
//@cfg 12 : radix_map<int32_t, owning relocatable value>: one operation on trees with common prefixes, nearly emptied
//@cfg 13 : radix_map<int32_t>: one operation on trees with a merged root, nearly emptied, about to be rebalanced
//@cfg 14 : radix_map<int16_t>: the portable (no SSE3) search, lookups
//@cfg 15 : radix_map<uint64_t>: one operation on small containers, lookup of a symbolic key
//@cfg 16 : radix_set<int32_t> with a stateful allocator: one operation on four shapes
//@cfg 17 thorough : radix_map<int64_t>: one operation on every shape
//@cfg 18 thorough : radix_set<double>: one operation on large trees
//@parts 8
//@engine --forksel --forkptr
//@bounds keys: all values of the key type in containers of up to 9 elements; in the concrete larger trees (64 to 264 elements) the symbolic key is any of 1024 values spread around the stored ones. One operation (thorough: two on small containers) from each concrete pre-state, then lookups of that key and of 4 others; results, iteration in both directions, and memory released are compared with a sorted array
//@outside trees of more than 264 elements and more than one level of nested directories below the root; NaN keys (they have no order)
#include "radix.h"
template<class T, class V = unsigned> using M = Radix<IntKey<T>, seq::radix_map<T, V>, true>;
template<class T> using S = Radix<IntKey<T>, seq::radix_set<T>, false>;
template<class T> using SL = Radix<IntKey<T>, seq::radix_set<T, seq::default_key, LAlloc<T>>, false>;
using D = FltKey<double, uint64_t>;
using F = FltKey<float, uint32_t>;
void sx_main(int cfg)
{
    switch (cfg) {
        SX_CASE(0, M<uint32_t>::orders(SXB(3, 4)));
        SX_CASE(1, M<uint32_t>::hist(0, 2, SXB(1, 2)));
        SX_CASE(2, M<uint32_t>::hist(3, 4, 1));
        SX_CASE(3, M<uint32_t>::look(0, 10));
        SX_CASE(4, S<int64_t>::hist(0, 2, 1, false, true));
        SX_CASE(5, S<int8_t>::hist(0, 2, 1, false, true));
        SX_CASE(6, M<uint16_t>::hist(0, 1, 1, false, true));
        SX_CASE(7, (Radix<BoolKey, seq::radix_set<bool>, false>::hist(0, 1, SXB(2, 3))));
        SX_CASE(8, (Radix<D, seq::radix_map<double, unsigned>, true>::hist(0, 1, 1, false, true)));
        SX_CASE(9, (Radix<F, seq::radix_set<float>, false>::orders(SXB(2, 3))));
        SX_CASE(10, (Radix<PtrKey, seq::radix_set<const Pointee*>, false>::hist(0, 2, 1)));
        SX_CASE(11, (M<uint8_t, Obj>::hist(0, 2, 1)));
        SX_CASE(12, (M<int32_t, Rel>::hist(5, 6, 1)));
        SX_CASE(13, M<int32_t>::hist(7, 9, 1));
        SX_CASE(14, const_cast<seq::CPUFeatures&>(seq::cpu_features()).HAS_SSE3 = false; M<int16_t>::look(1, 6));
        SX_CASE(15, M<uint64_t>::hist(0, 1, 1, false, true));
        SX_CASE(16, SL<int32_t>::hist(2, 5, 1));
        SX_CASE(17, M<int64_t>::hist(0, 10, 1));
        SX_CASE(18, (Radix<D, seq::radix_set<double>, false>::hist(3, 10, 1)));
    }
}
