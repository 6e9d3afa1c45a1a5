//@cfg 20 : portable 64-bit product with 128-bit result, every pair of operands
//@bounds every pair of 64-bit operands
//@assume the product of two 32-bit values is at most (2^32-1)^2 (given to the solver, which treats the four 32-bit partial products as unknowns)
#include "sx.h"
#include <cstdlib>
#include <utility>
#include <type_traits>
#include <cstdio>
#include <cassert>
#include <string>
#include <immintrin.h>
using u128 = unsigned __int128;
#undef __SIZEOF_INT128__ // selects the branch for compilers without 128-bit integers
#include <seq/bits.hpp>
void sx_main(int)
{
    uint64_t a = sx_sym("a", 64), b = sx_sym("b", 64), l, h;
    // schoolbook sum of the partial products
    uint64_t a0 = (uint32_t)a, a1 = a >> 32, b0 = (uint32_t)b, b1 = b >> 32;
    uint64_t p00 = a0 * b0, p01 = a0 * b1, p10 = a1 * b0, p11 = a1 * b1;
    const uint64_t m = 0xfffffffe00000001;
    sx_assume(p00 <= m); sx_assume(p01 <= m); sx_assume(p10 <= m); sx_assume(p11 <= m);
    u128 r = (u128)p00 + ((u128)p01 << 32) + ((u128)p10 << 32) + ((u128)p11 << 64);
    if (!sx_symbolic() && r != (u128)a * b) sx_fail("harness: sum of the partial products");
    seq::umul128(a, b, &l, &h);
    SX_CHECKM(h == (uint64_t)(r >> 64), "high word of the product");
    if (sx_symbolic()) { uint64_t lo = a0 * b0 + ((a0 * b1 + a1 * b0) << 32); SX_CHECKM(lo == (uint64_t)r, "low word of the sum"); }
    SX_CHECKM(l == a * b, "low word of the product");
    sx_obs(h);
    sx_reach("done");
}
