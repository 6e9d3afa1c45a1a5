//@parts 4
//@cfg 0 : from_chars, 8-bit types, base 10, every text of up to 4 characters
//@cfg 1 : from_chars, 16-bit types, base 16 (prefix, letters), every text of up to 4 characters
//@cfg 2 : from_chars, int, bases 2, 8, 10, 16, 36, every text of up to 3 characters (base 36: 2)
//@cfg 3 : from_chars, wide characters, every text of up to 3 characters
//@cfg 4 : from_chars around the limits of 16, 32 and 64-bit types, base 10
//@cfg 5 : from_chars around the limits of 8 to 64-bit types, bases 2 to 36
//@cfg 6 : to_chars base 10, 8 and 16-bit types, every value, every buffer length
//@cfg 7 : to_chars base 10, 32 and 64-bit types: windows of values, every buffer length
//@cfg 8 : to_chars bases 2 to 36, 16-bit types, every value
//@cfg 9 : to_chars bases 2 to 36, 32 and 64-bit types: windows of values, every buffer length
//@cfg 10 : to_chars with minimum width, prefix and case
//@cfg 11 : from_chars inverts to_chars
//@cfg 12 thorough : from_chars, int, bases 2, 8, 10, 16, 36, every text of up to 4 characters (base 36: 3)
//@bounds texts of up to 4 characters with every character value; numbers around the limits of each type with symbolic last digits; 8 and 16-bit values all, 32 and 64-bit values in windows of 256 around 0, the limits, powers of ten and powers of two
//@outside longer texts with arbitrary characters; 64-bit values outside the windows; the stream classes that read from files
#include "sx.h"
#include <cstdlib>
#include <limits>
#include <seq/charconv.hpp>
template<class C> struct Buf {
    C* p;
    unsigned n;
    Buf(unsigned n) : p((C*)malloc(n * sizeof(C))), n(n) {}
    ~Buf() { free(p); }
};
// the documented grammar: spaces, sign, 0x before a hexadecimal digit in base 16, digits
enum { None, Fine, Range };
template<class T> struct Ref {
    int st;
    unsigned len;
    T v;
};
template<class C> static bool refSpace(C c) { return c == 32 || (c >= 9 && c <= 13); }
template<class C> static unsigned refDigit(C c)
{
    if (c >= '0' && c <= '9') return (unsigned)(c - '0');
    if (c >= 'a' && c <= 'z') return (unsigned)(c - 'a' + 10);
    if (c >= 'A' && c <= 'Z') return (unsigned)(c - 'A' + 10);
    return 99;
}
template<class T, class C> static Ref<T> refParse(const C* p, unsigned n, unsigned base)
{
    unsigned i = 0;
    bool neg = false;
    while (i < n && refSpace(p[i])) ++i;
    if (i < n && (p[i] == '+' || p[i] == '-')) {
        neg = p[i] == '-';
        if (neg && !std::is_signed<T>::value) return { None, 0, 0 };
        ++i;
    }
    if (base == 16 && i + 2 < n && p[i] == '0' && (p[i + 1] == 'x' || p[i + 1] == 'X') && refDigit(p[i + 2]) < 16) i += 2;
    unsigned s = i;
    uint64_t v = 0, lim = (uint64_t)(std::numeric_limits<T>::max)() + (neg ? 1 : 0);
    bool big = false;
    for (; i < n; ++i) {
        unsigned d = refDigit(p[i]);
        if (d >= base) break;
        if (!big) {
            if (v > (~0ull - d) / base) big = true;
            else v = v * base + d;
        }
    }
    if (i == s) return { None, 0, 0 };
    if (big || v > lim) return { Range, i, 0 };
    return { Fine, i, neg ? (T)(0 - v) : (T)v };
}
template<class T, class C> static void parse(const C* p, unsigned n, int base)
{
    Ref<T> r = refParse<T>(p, n, (unsigned)base);
    T old = (T)0x5a, v = old;
    auto g = base == 10 ? seq::from_chars(p, p + n, v) : seq::from_chars(p, p + n, v, base);
    if (r.st == None) {
        SX_CHECKM(g.ec == std::errc::invalid_argument, "no number: invalid_argument");
        SX_CHECKM(g.ptr == p, "no number: nothing consumed");
        SX_CHECKM(v == old, "no number: value untouched");
    }
    else if (r.st == Range) {
        SX_CHECKM(g.ec == std::errc::result_out_of_range, "number too large: result_out_of_range");
        SX_CHECKM(g.ptr == p + r.len, "number too large: all digits consumed");
        SX_CHECKM(v == old, "number too large: value untouched");
    }
    else {
        SX_CHECKM(g.ec == std::errc(), "number: no error");
        SX_CHECKM(g.ptr == p + r.len, "number: characters consumed");
        SX_CHECKM(v == r.v, "number: value");
    }
}
template<class C> static void sym(Buf<C>& b, unsigned from, unsigned n)
{
    for (unsigned i = 0; i < n; ++i) {
        char nm[3] = { 'c', (char)('0' + i), 0 };
        b.p[from + i] = (C)sx_sym(nm, 8 * sizeof(C));
    }
}
template<class T, class C> static void anyText(unsigned max, int base)
{
    unsigned n = (unsigned)sx_pick("len", 0, max);
    Buf<C> b(n);
    sym(b, 0, n);
    parse<T, C>(b.p, n, base);
}
// writes the digits of v (any base), returns their number
template<class C> static unsigned refDigits(uint64_t v, unsigned base, C* o, bool upper = false)
{
    char t[66];
    unsigned k = 0;
    do {
        unsigned d = (unsigned)(v % base);
        t[k++] = (char)(d < 10 ? '0' + d : (upper ? 'A' : 'a') + d - 10);
        v /= base;
    } while (v);
    for (unsigned i = 0; i < k; ++i) o[i] = (C)t[k - 1 - i];
    return k;
}
// digits of a limit, the last two replaced by any digit, possibly one digit more
template<class T> static void limits(int base)
{
    bool neg = std::is_signed<T>::value && sx_pick("neg", 0, 1);
    unsigned more = (unsigned)sx_pick("more", 0, 1);
    char d[70];
    unsigned k = refDigits((uint64_t)(std::numeric_limits<T>::max)(), (unsigned)base, d);
    Buf<char> b(neg + k + more);
    unsigned n = 0;
    if (neg) b.p[n++] = '-';
    unsigned hi = k > 3 ? (unsigned)sx_pick("hi", 0, 1) : 0; // raise a leading digit too
    for (unsigned i = 0; i < k + more; ++i) {
        if (i + 2 >= k) {
            char nm[2] = { (char)('p' + i + 2 - k), 0 };
            unsigned g = (unsigned)sx_range(nm, 0, 4095);
            sx_assume(g < (unsigned)base);
            b.p[n++] = (char)(g < 10 ? '0' + g : 'a' + g - 10);
        }
        else b.p[n++] = (char)(i == 0 && hi && d[i] < '9' ? d[i] + 1 : d[i]);
    }
    parse<T, char>(b.p, n, base);
}
template<class T, class C> static void print(T v, int base, unsigned room, const seq::integral_chars_format* f = nullptr)
{
    bool neg = v < 0;
    uint64_t a = neg ? 0 - (uint64_t)v : (uint64_t)v;
    C dig[70];
    unsigned k = refDigits<C>(a, (unsigned)base, dig, f && f->upper_case);
    unsigned pad = f && f->integral_min_width > k ? f->integral_min_width - k : 0;
    bool pre = f && f->hex_prefix && base == 16 && a;
    unsigned len = (unsigned)neg + (pre ? 2 : 0) + pad + k;
    unsigned cap = room == ~0u ? len : room;
    Buf<C> b(cap + 2);
    b.p[cap] = 0x33;
    b.p[cap + 1] = 0x35;
    auto r = f ? seq::to_chars(b.p, b.p + cap, v, base, *f) : seq::to_chars(b.p, b.p + cap, v, base);
    SX_CHECKM(b.p[cap] == 0x33 && b.p[cap + 1] == 0x35, "nothing written past the buffer");
    if (len > cap) {
        SX_CHECKM(r.ec == std::errc::value_too_large, "does not fit: value_too_large");
        SX_CHECKM(r.ptr == b.p + cap, "does not fit: end of the buffer");
        return;
    }
    SX_CHECKM(r.ec == std::errc(), "fits: no error");
    SX_CHECKM(r.ptr == b.p + len, "fits: length");
    unsigned o = 0;
    if (neg) { SX_CHECKM(b.p[o] == '-', "sign"); ++o; }
    if (pre) { SX_CHECKM(b.p[o] == '0' && b.p[o + 1] == 'x', "prefix"); o += 2; }
    for (unsigned i = 0; i < pad; ++i, ++o) SX_CHECKM(b.p[o] == '0', "padding");
    bool ok = true;
    for (unsigned i = 0; i < k; ++i) ok &= b.p[o + i] == dig[i];
    SX_CHECKM(ok, "digits");
}
template<class T> static T window(unsigned bits)
{
    uint64_t m = (uint64_t)(std::numeric_limits<T>::max)();
    unsigned w = (unsigned)sx_pick("window", 0, 9);
    uint64_t half = (1ull << bits) / 2, s = sx_sym("s", bits), c = 0;
    switch (w) {
        case 0: c = half; break;
        case 1: c = m - half + 1; break;
        case 2: c = m + half; break; // the minimum of a signed type, wraps for an unsigned one
        case 3: c = m / 2; break;
        case 4: c = sizeof(T) == 8 ? 10000000000000ull : 10000; break;
        case 5: c = sizeof(T) == 8 ? 1000000000000000000ull : 1000000000; break;
        case 6: c = sizeof(T) == 8 ? 0 - 10000000000ull : 0 - 100000ull; break;
        case 7: c = sizeof(T) == 8 ? 10000000000000000000ull : 100000000; break;
        case 8: c = sizeof(T) == 8 ? 1ull << 32 : 1ull << 16; break;
        case 9: c = 1000000; break;
    }
    return (T)(c - half + s);
}
static unsigned room(unsigned max) { unsigned r = (unsigned)sx_pick("room", 0, 4); return r == 0 ? ~0u : r == 1 ? 0 : r == 2 ? 1 : r == 3 ? max / 2 : max; }
static int base5()
{
    static const int b[] = { 2, 8, 10, 16, 36 };
    return b[sx_pick("base", 0, 4)];
}
template<class T> static void inverse(T v, int base)
{
    Buf<char> b(66);
    auto r = seq::to_chars(b.p, b.p + 66, v, base);
    T w = 0;
    auto g = seq::from_chars(b.p, r.ptr, w, base);
    SX_CHECK(r.ec == std::errc() && g.ec == std::errc());
    SX_CHECKM(g.ptr == r.ptr, "everything consumed");
    SX_CHECKM(w == v, "same value");
}
void sx_main(int cfg)
{
    switch (cfg) {
        SX_CASE(0, if (sx_pick("t", 0, 1)) anyText<signed char, char>(4, 10); else anyText<unsigned char, char>(4, 10));
        SX_CASE(1, if (sx_pick("t", 0, 1)) anyText<short, char>(4, 16); else anyText<unsigned short, char>(4, 16));
        SX_CASE(2, int base = base5(); anyText<int, char>(base == 36 ? SXB(2, 3) : 3, base));
        SX_CASE(3, unsigned t = (unsigned)sx_pick("t", 0, 2); int base = sx_pick("b", 0, 1) ? 16 : 10; if (t == 0) anyText<long, wchar_t>(3, base); else if (t == 1) anyText<unsigned, char16_t>(3, base); else anyText<short, char32_t>(3, base));
        SX_CASE(4, unsigned t = (unsigned)sx_pick("t", 0, 9); switch (t) {
            case 0: limits<signed char>(10); break;
            case 1: limits<unsigned char>(10); break;
            case 2: limits<short>(10); break;
            case 3: limits<unsigned short>(10); break;
            case 4: limits<int>(10); break;
            case 5: limits<unsigned>(10); break;
            case 6: limits<long>(10); break;
            case 7: limits<unsigned long>(10); break;
            case 8: limits<long long>(10); break;
            case 9: limits<unsigned long long>(10); break;
        });
        SX_CASE(5, unsigned t = (unsigned)sx_pick("t", 0, 4); static const int bs[] = { 2, 3, 8, 16, 36 }; int base = bs[sx_pick("b", 0, 4)]; switch (t) {
            case 0: limits<signed char>(base); break;
            case 1: limits<unsigned short>(base); break;
            case 2: limits<int>(base); break;
            case 3: limits<unsigned long>(base); break;
            case 4: limits<long long>(base); break;
        });
        SX_CASE(6, unsigned t = (unsigned)sx_pick("t", 0, 4); unsigned rm = room(4); switch (t) {
            case 0: print<signed char, char>((signed char)sx_sym("v", 8), 10, rm); break;
            case 1: print<unsigned char, char>((unsigned char)sx_sym("v", 8), 10, rm); break;
            case 2: print<short, char>((short)sx_sym("v", 16), 10, rm); break;
            case 3: print<unsigned short, wchar_t>((unsigned short)sx_sym("v", 16), 10, rm); break;
            case 4: print<char, char16_t>((char)sx_sym("v", 8), 10, rm); break;
        });
        SX_CASE(7, unsigned t = (unsigned)sx_pick("t", 0, 3); unsigned rm = room(t < 2 ? 10 : 19); switch (t) {
            case 0: print<int, char>(window<int>(8), 10, rm); break;
            case 1: print<unsigned, char>(window<unsigned>(8), 10, rm); break;
            case 2: print<long, char32_t>(window<long>(8), 10, rm); break;
            case 3: print<unsigned long long, char>(window<unsigned long long>(8), 10, rm); break;
        });
        SX_CASE(8, int base = (int)sx_pick("base", 2, 36); unsigned rm = room(2); if (sx_pick("t", 0, 1)) print<short, char>((short)sx_sym("v", 16), base, rm); else print<unsigned char, char>((unsigned char)sx_sym("v", 8), base, rm));
        SX_CASE(9, int base = base5(); unsigned t = (unsigned)sx_pick("t", 0, 2); unsigned rm = room(base == 2 ? 63 : 13); switch (t) {
            case 0: print<int, wchar_t>(window<int>(6), base, rm); break;
            case 1: print<unsigned long, char>(window<unsigned long>(6), base, rm); break;
            case 2: print<long long, char>(window<long long>(6), base, rm); break;
        });
        SX_CASE(10, static const int ws[] = { 0, 1, 2, 5, 64, 65, 66, 67, 254, 255 }; seq::integral_chars_format f; f.integral_min_width = (unsigned char)ws[sx_pick("w", 0, 9)];
                f.hex_prefix = sx_pick("pre", 0, 1); f.upper_case = sx_pick("up", 0, 1); unsigned b = (unsigned)sx_pick("b", 0, 2); int base = b == 0 ? 10 : b == 1 ? 16 : 2;
                unsigned rm = room(f.integral_min_width); 
                if (sx_pick("t", 0, 1)) { uint64_t k = sx_pick("k", 0, 3); int64_t v = (int64_t)(k == 0 ? 0 : k == 1 ? 0x8000000000000000ull : k == 2 ? 0x7fffffffffffff00ull : 0xffffffffffffff00ull); if (k >= 2) v += (int64_t)sx_sym("s", 4); print<long, char>(v, base, rm, &f); }
                else print<short, char>((short)(sx_sym("v", 8) - 128), base, rm, &f));
        SX_CASE(11, unsigned t = (unsigned)sx_pick("t", 0, 3); int base = base5(); switch (t) {
            case 0: inverse<short>((short)(sx_sym("v", SXB(9, 12)) - 200), base); break;
            case 1: inverse<unsigned char>((unsigned char)sx_sym("v", 8), base); break;
            case 2: inverse<int>(window<int>(8), base); break;
            case 3: inverse<unsigned long>(window<unsigned long>(8), base); break;
        });
        SX_CASE(12, int base = base5(); anyText<int, char>(base == 36 ? 3 : 4, base));
    }
}
