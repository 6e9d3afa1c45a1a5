//@cfg 0 : komihash of 0 to 64 symbolic bytes, 3 pairs of alignments, exact-size blocks
//@cfg 1 : komihash of 65 to 200 (thorough: 400) bytes, every symbolic
//@cfg 2 : murmur64 and fnv1a of 0 to 40 symbolic bytes
//@cfg 3 : strings of every kind, 0 to 40 symbolic characters
//@cfg 4 : wide strings, 0 to 20 symbolic characters
//@cfg 5 : float and double keys, alone and inside pairs and tuples: equal keys have equal hashes
//@cfg 6 : integers, enums, pointers, smart pointers, pairs and tuples
//@bounds contents of up to 200 (thorough: 400) symbolic bytes, copied in two blocks that end exactly at the content, at offsets 0 to 7, with different bytes around
//@flags -DSX_STRINGS
//@outside longer contents; long double keys (std::hash)
#include "sx.h"
#include <cstdlib>
#include <string>
#include <string_view>
#include <tuple>
#include <memory>
#include <seq/hash.hpp>
#include <seq/tiny_string.hpp>
using namespace seq;
// the content in a block of its own: off bytes before it, nothing after it
struct Blk
{
    unsigned char* b;
    unsigned off;
    Blk(const unsigned char* c, size_t n, unsigned o, unsigned char fill) : b((unsigned char*)malloc(n + o)), off(o) { memset(b, fill, o); if (n) memcpy(b + o, c, n); }
    ~Blk() { free(b); }
    const unsigned char* p() const { return b + off; }
};
template<class F> static void bytes(unsigned lo, unsigned hi, F f)
{
    unsigned n = (unsigned)sx_pick("length", lo, hi);
    static unsigned char c[512];
    for (unsigned i = 0; i < n; ++i) c[i] = (unsigned char)sx_sym("c", 8);
    static const unsigned o[3][2] = { { 0, 3 }, { 8, 1 }, { 7, 4 } };
    unsigned k = (unsigned)sx_pick("alignment", 0, 2);
    Blk x(c, n, o[k][0], 0), y(c, n, o[k][1], 0xa5);
    size_t h = f(x.p(), n), g = f(y.p(), n);
    SX_CHECKM(h == g, "the hash depends on the content only");
    sx_obs(h);
    sx_reach("done");
}
template<class Ch> static void strings(unsigned hi)
{
    unsigned n = (unsigned)sx_pick("length", 0, hi);
    std::basic_string<Ch> s;
    for (unsigned i = 0; i < n; ++i) { Ch c = (Ch)sx_sym("c", sizeof(Ch) * 8); s.push_back(c); }
    using ST = std::basic_string<Ch>;
    using SV = std::basic_string_view<Ch>;
    using TS = tiny_string<Ch, std::char_traits<Ch>, std::allocator<Ch>, 0>;
    using TL = tiny_string<Ch, std::char_traits<Ch>, std::allocator<Ch>, 64>;
    using TV = tiny_string<Ch, std::char_traits<Ch>, view_allocator<Ch>, 0>;
    size_t h = hasher<ST>{}(s);
    ST s2(s.data(), n);
    SX_CHECKM(hasher<ST>{}(s2) == h, "string with another capacity");
    TS t(s.data(), n);
    TL l(s.data(), n);
    Blk exact((const unsigned char*)s.data(), n * sizeof(Ch), 0, 0);
    SV v((const Ch*)exact.p(), n);
    TV w((const Ch*)exact.p(), n);
    SX_CHECKM(hasher<TS>{}(t) == h, "tiny_string");
    SX_CHECKM(hasher<TL>{}(l) == h, "tiny_string with a large buffer");
    SX_CHECKM(hasher<SV>{}(v) == h, "string_view");
    SX_CHECKM(hasher<TV>{}(w) == h, "tstring_view");
    SX_CHECKM(std::hash<TS>{}(t) == h && std::hash<TL>{}(l) == h && std::hash<TV>{}(w) == h, "std::hash of tiny strings");
    // transparent lookups
    SX_CHECKM(hasher<TS>{}(s) == h && hasher<TS>{}(l) == h && hasher<TS>{}(v) == h && hasher<TS>{}(w) == h, "transparent hashes of tiny_string");
    SX_CHECKM(hasher<ST>{}(t) == h && hasher<ST>{}(v) == h && hasher<ST>{}(w) == h, "transparent hashes of std::string");
    SX_CHECKM(std::hash<TS>{}(s) == h && std::hash<TS>{}(v) == h, "transparent hashes of std::hash<tiny_string>");
    SX_CHECKM(hash_bytes_komihash(s.data(), n * sizeof(Ch)) == h, "byte hash");
    t.reserve(n + 50);
    SX_CHECKM(hasher<TS>{}(t) == h, "tiny_string with another capacity");
    t.push_back(Ch('a')); t.pop_back();
    SX_CHECKM(hasher<TS>{}(t) == h, "tiny_string with other bytes after the content");
    if (sx_pick("c string", 0, 1)) {
        for (unsigned i = 0; i < n; ++i) sx_assume(s[i] != 0);
        const Ch* z = s.c_str();
        SX_CHECKM(hasher<ST>{}(z) == h && hasher<TS>{}(z) == h && std::hash<TS>{}(z) == h && hasher<SV>{}(z) == h, "C strings");
    }
    sx_reach("done");
}
template<class T, class U> static void flt()
{
    U u = (U)sx_sym("a", sizeof(T) * 8), v = (U)sx_sym("b", sizeof(T) * 8);
    T a, b;
    memcpy(&a, &u, sizeof a);
    memcpy(&b, &v, sizeof b);
    sx_assume(a == b);
    SX_CHECKM(hasher<T>{}(a) == hasher<T>{}(b), "equal keys have equal hashes");
    SX_CHECKM((hasher<std::pair<T, int>>{}(std::pair<T, int>(a, 1)) == hasher<std::pair<T, int>>{}(std::pair<T, int>(b, 1))), "equal pairs have equal hashes");
    SX_CHECKM((hasher<std::tuple<int, T>>{}(std::tuple<int, T>(2, a)) == hasher<std::tuple<int, T>>{}(std::tuple<int, T>(2, b))), "equal tuples have equal hashes");
    sx_reach("done");
}
enum E1 : signed char {}; enum class E2 : unsigned {};
template<class T> static void two(T a, T b) { SX_CHECKM(hasher<T>{}(a) == hasher<T>{}(b), "equal keys have equal hashes"); sx_obs(hasher<T>{}(a)); }
template<class T> static void integer()
{
    T x = (T)sx_sym("x", sizeof(T) * 8);
    struct alignas(64) { char pad[3]; T t; } a; // elsewhere in memory, other bytes around
    memset((void*)&a, 0x5a, sizeof a);
    a.t = x;
    two<T>(x, a.t);
    std::pair<T, char> p(x, 'c');
    struct { std::pair<T, char> q; } m;
    memset((void*)&m, 0x77, sizeof m); // other padding bytes
    m.q.first = x; m.q.second = 'c';
    two(p, m.q);
    std::tuple<char, T, short> t('a', x, 5), *t2 = (std::tuple<char, T, short>*)malloc(sizeof t);
    memset((void*)t2, 0x33, sizeof t);
    std::get<0>(*t2) = 'a'; std::get<1>(*t2) = x; std::get<2>(*t2) = 5;
    two(t, *t2);
    free(t2);
}
void sx_main(int cfg)
{
    auto ko = [](const unsigned char* p, size_t n) { return hash_bytes_komihash(p, n); };
    switch (cfg) {
        case 0: bytes(0, 64, ko); break;
        case 1: bytes(65, SXB(200, 400), ko); break;
        case 2: if (sx_pick("f", 0, 1)) bytes(0, 40, [](const unsigned char* p, size_t n) { return hash_bytes_murmur64(p, n); }); else bytes(0, 40, [](const unsigned char* p, size_t n) { return hash_bytes_fnv1a(p, n); }); break;
        case 3: strings<char>(40); break;
        case 4: if (sx_pick("char", 0, 1)) strings<wchar_t>(20); else strings<char16_t>(20); break;
        case 5: if (sx_pick("type", 0, 1)) flt<float, uint32_t>(); else flt<double, uint64_t>(); break;
        case 6:
            switch (sx_pick("type", 0, 8)) {
                case 0: integer<signed char>(); break;
                case 1: integer<unsigned short>(); break;
                case 2: integer<int>(); break;
                case 3: integer<unsigned long>(); break;
                case 4: integer<long long>(); break;
                case 5: integer<wchar_t>(); break;
                case 6: { int8_t x = (int8_t)sx_sym("x", 8); two<E1>((E1)x, (E1)x); SX_CHECKM(hasher<E1>{}((E1)x) == hasher<E1>{}((int)x), "enum and its value"); uint32_t y = (uint32_t)sx_sym("y", 32); SX_CHECKM(hasher<E2>{}((E2)y) == hasher<E2>{}(y), "scoped enum and its value"); break; }
                case 7: { int* p = (int*)(uintptr_t)sx_sym("p", 64); SX_CHECKM(hasher<int*>{}(p) == hasher<int*>{}(p), "pointer"); break; }
                case 8: {
                    std::unique_ptr<int> u(new int(3));
                    std::shared_ptr<int> s(new int(4)), s2 = s;
                    SX_CHECKM(hasher<std::unique_ptr<int>>{}(u) == hasher<std::unique_ptr<int>>{}(u.get()), "unique_ptr and its pointer");
                    SX_CHECKM(hasher<std::shared_ptr<int>>{}(s) == hasher<std::shared_ptr<int>>{}(s.get()), "shared_ptr and its pointer");
                    SX_CHECKM(hasher<std::shared_ptr<int>>{}(s) == hasher<std::shared_ptr<int>>{}(s2), "equal shared pointers");
                    break;
                }
            }
            sx_reach("done");
            break;
    }
}
