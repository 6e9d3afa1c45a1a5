//@cfg 0 : population counts of 8, 16, 32 and 64 bits, the portable ones included
//@cfg 1 : bit scans of 8, 16, 32, 64 bits and size_t
//@cfg 4 : number of decimal digits, 8, 16, 32 and 64 bits
//@cfg 5 : runs of 1 to 17 set bits
//@cfg 6 : byte swaps and bit reversal
//@cfg 7 : endian reads and writes at 8 alignments, nothing else is written
//@cfg 8 : 64-bit product with 128-bit result, every pair of operands
//@cfg 9 : compile-time bit scan
//@cfg 10 : aligned allocation: 10 alignments and 7 sizes, the portable allocator included
//@bounds every argument value of the full width, except where a configuration says otherwise
//@outside the big-endian and MSVC branches of the header, which this platform does not compile
#include "sx.h"
#include <cstdlib>
#include <utility>
#include <seq/bits.hpp>
using namespace seq;
// p is the lowest (highest) set bit of x
// a value whose lowest (highest) set bit is p
static uint64_t withLow(uint64_t x, unsigned p) { return ((x << 1 | 1) << p); }
static uint64_t withHigh(uint64_t x, unsigned p) { return (x | 1ull << 63) >> (63 - p); }
static bool isLow(uint64_t x, unsigned p) { return p < 64 && (x >> p & 1) && (x & ((1ull << p) - 1)) == 0; }
static bool isHigh(uint64_t x, unsigned p) { return p < 64 && (x >> p) == 1; }
template<unsigned N> static void runOf(uint64_t x)
{
    unsigned p = consecutive_N_bits<N>(x);
    uint64_t ok = 0; // positions where a run starts
    for (unsigned i = 0; i + N <= 64; ++i) {
        uint64_t m = (~0ull >> (64 - N)) << i;
        ok |= (uint64_t)((x & m) == m) << i;
    }
    SX_CHECKM(ok == 0 ? p == (unsigned)-1 : isLow(ok, p), "lowest run of set bits");
}
template<size_t... I> static void runs(uint64_t x, std::index_sequence<I...>) { (runOf<I + 1>(x), ...); }
template<size_t I> static void sbsr()
{
    constexpr size_t one = 1;
    SX_CHECK(static_bit_scan_reverse<(one << I)>::value == I);
    SX_CHECK((static_bit_scan_reverse<((one << I) | (one << I) / 3)>::value == I));
    SX_CHECK((static_bit_scan_reverse<((one << I) - 1) + (one << I)>::value == I));
}
template<size_t... I> static void sbsrAll(std::index_sequence<I...>) { (sbsr<I>(), ...); }
template<class T> static void digits(const char* n)
{
    T x = (T)sx_sym(n, sizeof(T) * 8);
    unsigned d = count_digits_base_10(x);
    unsigned r = 1;
    uint64_t p = 10;
    for (unsigned i = 0; i < (sizeof(T) == 8 ? 19 : sizeof(T) == 4 ? 9 : sizeof(T) == 2 ? 4 : 2); ++i, p *= 10) r += (uint64_t)x >= p;
    SX_CHECKM(d == r, "number of decimal digits");
}
template<class T> static T refSwap(T v) { T r = 0; for (unsigned i = 0; i < sizeof(T); ++i) r = (T)(r | ((uint64_t)(uint8_t)((uint64_t)v >> 8 * i)) << 8 * (sizeof(T) - 1 - i)); return r; }
template<class T> static void rev(const char* n)
{
    using U = typename std::make_unsigned<T>::type;
    T x = (T)sx_sym(n, sizeof(T) * 8);
    U r = 0, u = (U)x;
    for (unsigned i = 0; i < sizeof(T) * 8; ++i) r = (U)(r | (uint64_t)(u >> i & 1) << (sizeof(T) * 8 - 1 - i));
    SX_CHECKM((U)reverse_bits(x) == r, "bit reversal");
}
template<class F> static void rd(unsigned char* b, unsigned n, bool be, F f)
{
    unsigned o = (unsigned)sx_pick("offset", 0, 7);
    uint64_t r = 0;
    for (unsigned i = 0; i < n; ++i) r |= (uint64_t)b[o + i] << 8 * (be ? n - 1 - i : i);
    SX_CHECKM((uint64_t)f(b + o) == r, "endian read");
}
template<class F> static void wr(unsigned n, bool be, uint64_t v, F f)
{
    unsigned o = (unsigned)sx_pick("offset", 0, 7);
    unsigned char* b = (unsigned char*)malloc(o + n);
    for (unsigned i = 0; i < o; ++i) b[i] = (unsigned char)(i + 1);
    f(b + o);
    for (unsigned i = 0; i < o; ++i) SX_CHECKM(b[i] == i + 1, "nothing else is written");
    for (unsigned i = 0; i < n; ++i) SX_CHECKM(b[o + i] == (uint8_t)(v >> 8 * (be ? n - 1 - i : i)), "endian write");
    free(b);
}
void sx_main(int cfg)
{
    switch (cfg) {
        case 0: {
            uint64_t x = sx_sym("x", 64);
            // the count of zero is 0, and setting one more bit adds 1: by induction the count is right for every value
            unsigned w = (unsigned)sx_pick("function", 0, 5);
            unsigned bits = w == 0 ? 8 : w == 1 ? 16 : w == 2 || w == 4 ? 32 : 64;
            auto f = [&](uint64_t v) -> unsigned {
                switch (w) {
                    case 0: return popcnt8((uint8_t)v);
                    case 1: return popcnt16((uint16_t)v);
                    case 2: return popcnt32((uint32_t)v);
                    case 3: return popcnt64(v);
                    case 4: return detail::popcount32((uint32_t)v);
                    default: return detail::popcount64(v);
                }
            };
            unsigned i = (unsigned)sx_pick("bit", 0, 64);
            if (i >= bits) { SX_CHECKM(f(0) == 0, "no bit is set in 0"); break; }
            SX_CHECKM(f(x | 1ull << i) == f(x & ~(1ull << i)) + 1, "one more bit, one more in the count");
            sx_obs(f(x));
            break;
        }
        case 1: {
            uint64_t x = sx_sym("x", 64);
            switch (sx_pick("width", 0, 3)) {
                case 0: { uint8_t b = (uint8_t)x; unsigned f = bit_scan_forward_8(b), r = bit_scan_reverse_8(b); SX_CHECK(b ? isLow(b, f) : f == 8); SX_CHECK(b ? isHigh(b, r) : r == 8); break; }
                case 1: { unsigned p = (unsigned)sx_pick("p", 0, 31); SX_CHECK(bit_scan_forward_32((uint32_t)withLow(x, p)) == p); SX_CHECK(bit_scan_reverse_32((uint32_t)withHigh(x, p)) == p); break; }
                case 2: { unsigned p = (unsigned)sx_pick("p", 0, 63); SX_CHECK(bit_scan_forward_64(withLow(x, p)) == p); SX_CHECK(bit_scan_reverse_64(withHigh(x, p)) == p); break; }
                case 3: { unsigned p = (unsigned)sx_pick("p", 0, 63); SX_CHECK(bit_scan_forward((size_t)withLow(x, p)) == p); SX_CHECK(bit_scan_reverse((size_t)withHigh(x, p)) == p); break; }
            }
            break;
        }
        case 4:
            switch (sx_pick("width", 0, 3)) {
                case 0: digits<uint8_t>("x"); break;
                case 1: digits<uint16_t>("x"); break;
                case 2: digits<uint32_t>("x"); break;
                case 3: digits<uint64_t>("x"); break;
            }
            break;
        case 5: runs(sx_sym("x", 64), std::make_index_sequence<17>()); break;
        case 6:
            switch (sx_pick("op", 0, 6)) {
                case 0: { uint16_t x = (uint16_t)sx_sym("x", 16); SX_CHECK(byte_swap_16(x) == refSwap(x)); break; }
                case 1: { uint32_t x = (uint32_t)sx_sym("x", 32); SX_CHECK(byte_swap_32(x) == refSwap(x)); break; }
                case 2: { uint64_t x = sx_sym("x", 64); SX_CHECK(byte_swap_64(x) == refSwap(x)); break; }
                case 3: rev<uint8_t>("x"); rev<int8_t>("y"); break;
                case 4: rev<uint16_t>("x"); rev<int16_t>("y"); break;
                case 5: rev<uint32_t>("x"); rev<int32_t>("y"); break;
                case 6: rev<uint64_t>("x"); rev<int64_t>("y"); break;
            }
            break;
        case 7: {
            unsigned char b[16];
            for (auto& c : b) c = (unsigned char)sx_sym("b", 8);
            uint64_t v = sx_sym("v", 64);
            switch (sx_pick("op", 0, 16)) {
                case 0: rd(b, 2, false, [](void* p) { return read_LE_16(p); }); break;
                case 1: rd(b, 4, false, [](void* p) { return read_LE_32(p); }); break;
                case 2: rd(b, 8, false, [](void* p) { return read_LE_64(p); }); break;
                case 3: rd(b, 2, true, [](void* p) { return read_BE_16(p); }); break;
                case 4: rd(b, 4, true, [](void* p) { return read_BE_32(p); }); break;
                case 5: rd(b, 8, true, [](void* p) { return read_BE_64(p); }); break;
                case 6: rd(b, 2, false, [](void* p) { return read_16(p); }); break;
                case 7: rd(b, 4, false, [](void* p) { return read_32(p); }); break;
                case 8: rd(b, 8, false, [](void* p) { return read_64(p); }); break;
                case 9: rd(b, 8, false, [](void* p) { return read_ptr_t(p); }); break;
                case 10: rd(b, 8, false, [](void* p) { return read_size_t(p); }); rd(b, 8, false, [](void* p) { return read_LE_size_t(p); }); break;
                case 11: rd(b, 8, true, [](void* p) { return read_BE_size_t(p); }); break;
                case 12: wr(2, false, v, [&](void* p) { write_LE_16(p, (uint16_t)v); }); break;
                case 13: wr(4, false, v, [&](void* p) { write_LE_32(p, (uint32_t)v); }); break;
                case 14: wr(8, false, v, [&](void* p) { write_LE_64(p, v); }); break;
                case 15: wr(8, true, v, [&](void* p) { write_BE_64(p, v); }); break;
                case 16: wr(8, false, v, [&](void* p) { write_size_t(p, (size_t)v); }); break;
            }
            break;
        }
        case 8: {
            uint64_t a = sx_sym("a", 64), b = sx_sym("b", 64), l, h;
            umul128(a, b, &l, &h);
            unsigned __int128 r = (unsigned __int128)b * a;
            SX_CHECKM(l == (uint64_t)r, "low word of the product");
            SX_CHECKM(h == (uint64_t)(r >> 64), "high word of the product");
            sx_obs(h);
            break;
        }
        case 9: sbsrAll(std::make_index_sequence<64>()); break;
        case 10: {
            static const size_t sz[] = { 0, 1, 7, 16, 33, 100, 4096 };
            size_t al = (size_t)1 << sx_pick("alignment", 3, 12), n = sz[sx_pick("size", 0, 6)];
            uint64_t l0 = sx_live();
            bool hand = sx_pick("portable", 0, 1);
            if (hand && sx_pick("huge", 0, 1)) { SX_CHECKM(detail::handmade_aligned_malloc(SIZE_MAX - al - n % 4, al) == nullptr, "sizes that overflow are refused"); break; }
            char* p = (char*)(hand ? detail::handmade_aligned_malloc(n, al) : aligned_malloc(n, al));
            SX_CHECK(p != nullptr);
            SX_CHECKM(((uintptr_t)p & (al - 1)) == 0, "alignment of the block");
            for (size_t i = 0; i < n; ++i) p[i] = (char)i;
            if (hand) detail::handmade_aligned_free(p); else aligned_free(p);
            SX_CHECKM(sx_live() == l0, "the block is freed");
            break;
        }
    }
    sx_reach("done");
}
