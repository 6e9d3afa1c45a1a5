// Harness API. In the symbolic engine these are intrinsics; natively they read a recorded input vector.
#pragma once
#include <cstdint>
#include <cstddef>
#include <cstring>
extern "C" {
int sx_symbolic() noexcept;                                                       // 1 in the engine, 0 natively
uint64_t sx_sym(const char* name, unsigned bits) noexcept;                        // unconstrained symbolic value
uint64_t sx_range(const char* name, uint64_t lo, uint64_t hi) noexcept;           // symbolic value in [lo, hi]
uint64_t sx_pick(const char* name, uint64_t lo, uint64_t hi) noexcept;            // symbolic value, case-split by the engine
uint64_t sx_conc(uint64_t v) noexcept;                                            // case-split an expression over its feasible values
void sx_assume(uint64_t c) noexcept;
void sx_assert(uint64_t c, const char* msg) noexcept;
void sx_fail(const char* msg) noexcept;
void sx_discard() noexcept;
void sx_end() noexcept;                                                           // ends the path successfully
void sx_reach(const char* label) noexcept;                                        // vacuity witness
void sx_obs(uint64_t v) noexcept;                                                 // observed value, compared engine vs compiled code
void sx_print(const char* n, uint64_t v) noexcept;
uint64_t sx_live() noexcept;                                                      // live heap blocks
int sx_spawn(void (*f)(void*), void* a) noexcept;
void sx_join(int t) noexcept;
void sx_yield() noexcept;
int sx_thread() noexcept;
uint64_t sx_tick() noexcept;                                                      // increases with every call, in any thread
void sx_main(int cfg);
}
#define SX_CHECK(c) sx_assert((uint64_t)(bool)(c), #c)
#define SX_CHECKM(c, m) sx_assert((uint64_t)(bool)(c), m)
#ifndef SX_THOROUGH
#define SX_THOROUGH 0
#endif
// tier-dependent bound
#define SXB(quick, thorough) (SX_THOROUGH ? (thorough) : (quick))
// A harness with //@parts is compiled once per part; a part holds the configurations n with n % SX_PARTS == SX_PART.
#ifndef SX_PARTS
#define SX_PARTS 1
#define SX_PART 0
#endif
#define SX_CASE(n, ...) case n: if constexpr ((n) % SX_PARTS == SX_PART) { __VA_ARGS__; } break
#ifdef SX_ENGINE
#include "sx_rt.h"
#endif
