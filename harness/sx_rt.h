// Definitions of the external C and libstdc++ functions the library reaches, compiled into the encoded module.
#pragma once
#include <bits/hash_bytes.h>
#define SX_RT __attribute__((used, noinline, no_builtin))
extern "C" {
SX_RT size_t strlen(const char* s) noexcept
{
    size_t n = 0;
    while (s[n]) ++n;
    return n;
}
SX_RT int strcmp(const char* a, const char* b) noexcept
{
    for (;; ++a, ++b) {
        if (*a != *b) return (unsigned char)*a < (unsigned char)*b ? -1 : 1;
        if (!*a) return 0;
    }
}
SX_RT int strncmp(const char* a, const char* b, size_t n) noexcept
{
    for (; n; ++a, ++b, --n) {
        if (*a != *b) return (unsigned char)*a < (unsigned char)*b ? -1 : 1;
        if (!*a) return 0;
    }
    return 0;
}
SX_RT size_t wcslen(const wchar_t* s) noexcept
{
    size_t n = 0;
    while (s[n]) ++n;
    return n;
}
SX_RT wchar_t* wmemcpy(wchar_t* d, const wchar_t* s, size_t n) noexcept { __builtin_memcpy(d, s, n * sizeof(wchar_t)); return d; }
SX_RT wchar_t* wmemmove(wchar_t* d, const wchar_t* s, size_t n) noexcept { __builtin_memmove(d, s, n * sizeof(wchar_t)); return d; }
SX_RT wchar_t* wmemset(wchar_t* d, wchar_t c, size_t n) noexcept { for (size_t i = 0; i < n; ++i) d[i] = c; return d; }
wchar_t* sx_rt_wmemchr(const wchar_t* s, wchar_t c, size_t n) noexcept __asm__("wmemchr");
SX_RT wchar_t* sx_rt_wmemchr(const wchar_t* s, wchar_t c, size_t n) noexcept
{
    for (; n; ++s, --n)
        if (*s == c) return (wchar_t*)s;
    return nullptr;
}
SX_RT int wmemcmp(const wchar_t* a, const wchar_t* b, size_t n) noexcept
{
    for (; n; ++a, ++b, --n)
        if (*a != *b) return *a < *b ? -1 : 1;
    return 0;
}
char* sx_rt_memchr(const void* s, int c, size_t n) __asm__("memchr");
SX_RT char* sx_rt_memchr(const void* s, int c, size_t n)
{
    const unsigned char* p = (const unsigned char*)s;
    for (; n; ++p, --n)
        if (*p == (unsigned char)c) return (char*)p;
    return nullptr;
}
}
namespace std {
// libstdc++'s murmur hash (hash_bytes.cc, 64-bit)
SX_RT size_t _Hash_bytes(const void* ptr, size_t len, size_t seed)
{
    const size_t mul = (((size_t)0xc6a4a793UL) << 32UL) + (size_t)0x5bd1e995UL;
    const char* buf = (const char*)ptr;
    const size_t len_aligned = len & ~(size_t)7;
    const char* end = buf + len_aligned;
    size_t hash = seed ^ (len * mul);
    for (const char* p = buf; p != end; p += 8) {
        size_t d;
        __builtin_memcpy(&d, p, 8);
        d *= mul;
        d ^= d >> 47;
        d *= mul;
        hash ^= d;
        hash *= mul;
    }
    if ((len & 7) != 0) {
        size_t d = 0;
        for (int n = (int)(len & 7) - 1; n >= 0; --n) d = (d << 8) + (unsigned char)end[n];
        hash ^= d;
        hash *= mul;
    }
    hash ^= hash >> 47;
    hash *= mul;
    hash ^= hash >> 47;
    return hash;
}
}
#ifdef SX_STRINGS // members of the standard strings that libstdc++.so provides
#include <string>
template class std::basic_string<char>;
template class std::basic_string<wchar_t>;
#endif
