//@cfg 2 : n-th set bit, every 64-bit value, n from 0 to 1 (thorough: 2)
//@cfg 3 : n-th set bit, every n, values of which any one byte is symbolic and the others all zeros or all ones
//@engine --forkptr
//@bounds n-th set bit: n up to 1 (thorough: 2) for every 64-bit value, n up to 63 for values of which all bytes but one are all zeros or all ones
//@outside n-th set bit with larger n and unrestricted values
#include "sx.h"
#include <cstdlib>
#include <seq/bits.hpp>
void sx_main(int cfg)
{
    uint64_t x;
    unsigned n;
    if (cfg == 2) { x = sx_sym("x", 64); n = (unsigned)sx_pick("n", 0, SXB(1, 2)); }
    else {
        n = (unsigned)sx_pick("n", 0, 63);
        unsigned p = (unsigned)sx_pick("byte", 0, 7);
        uint64_t r = sx_pick("rest", 0, 1) ? ~0ull : 0;
        x = (r & ~(255ull << 8 * p)) | sx_conc(sx_sym("b", 8)) << 8 * p;
    }
    unsigned p = seq::nth_bit_set(x, n);
    if (cfg == 3) {
        unsigned c = 0, want = 64;
        for (unsigned i = 0; i < 64; ++i)
            if (x >> i & 1) { if (c == n) want = i; ++c; }
        SX_CHECKM(p == want, "position of the n-th set bit, 64 when there is none");
    }
    else {
        uint64_t y = x;
        for (unsigned i = 0; i < n; ++i) y &= y - 1;
        SX_CHECKM((p == 64) == (y == 0), "64 when there is no such bit");
        if (p < 64) SX_CHECKM((y >> p & 1) && (y << (63 - p)) == 1ull << 63, "position of the n-th set bit");
        else SX_CHECK(p == 64);
    }
    sx_obs(p);
    sx_reach("done");
}
