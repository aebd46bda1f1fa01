#include "lite.h"
#include <iostream>
#include <sstream>
#include <utility>
#include <limits>
#include <cstring>
#include <boost/lexical_cast.hpp>
#include "sparta/utils/LexicalCast.hpp"
#include "sparta/utils/SpartaException.hpp"
#include "sparta/utils/Utils.hpp"
#include "sparta/utils/ValidValue.hpp"
// What is thrown counts, its text does not: the message is dropped (it would hold the symbolic string).
namespace sparta { struct QuietException : SpartaException { QuietException() : SpartaException("refused") {} template<class... A> QuietException(const A&...) : SpartaException("refused") {} template<class T> QuietException& operator<<(const T&) { return *this; } }; }
#define SpartaException QuietException
#include "sparta/utils/SmartLexicalCast.hpp"
#undef SpartaException
using namespace sparta; using sparta::utils::smartLexicalCast;
typedef uint64_t U; static const U MAX = ~0ull;
// the documented grammar, read independently
struct Ref { bool ok; U v; };
static bool ws(char c) { return c == ' ' || c == '_' || c == ',' || c == '\t' || c == '\n'; }
static int dig(char c, int radix) {
    int d = c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : 99; return d < radix ? d : -1; }
static U mulof(char c, bool i) {
    switch (c) { case 'k': case 'K': return i ? 1ull << 10 : 1000; case 'm': case 'M': return i ? 1ull << 20 : 1000000; case 'g': case 'G': case 'b': case 'B': return i ? 1ull << 30 : 1000000000;
        case 't': case 'T': return i ? 1ull << 40 : 1000000000000; case 'p': case 'P': return i ? 1ull << 50 : 1000000000000000; case 'n': case 'N': return i ? 0 : 1; } return 0; }
static bool mulAdd(U& v, U m, U a) { if (m && v > MAX / m) return false; v *= m; if (a > MAX - v) return false; v += a; return true; }
static Ref ref(const char* s, int n, int p, bool rec, bool pre) {
    while (p < n && ws(s[p])) p++;
    if (p == n) return {true, 0};
    int radix = 10; int q = p; bool found = false;
    if (pre && s[p] == '0') {
        struct { char c; int r, l; } F[] = {{'x', 16, 2}, {'X', 16, 2}, {'b', 2, 2}, {'B', 2, 2}, {0, 8, 1}};
        for (auto& f : F) { if (f.c && !(p + 1 < n && s[p + 1] == f.c)) continue;
            int k = p + f.l; while (k < n && ws(s[k])) k++;
            if (k < n && dig(s[k], f.r) >= 0) { radix = f.r; q = p + f.l; found = true; break; } }
    }
    U v = 0; int nd = 0; int fr[16], nf = 0; bool dot = false;
    for (; q < n; q++) { if (ws(s[q])) continue;
        if (!found && s[q] == '.') { if (dot) return {false, 0}; dot = true; nd++; continue; }
        int d = dig(s[q], radix); if (d < 0) break;
        nd++; if (dot) fr[nf++] = d; else if (!mulAdd(v, radix, d)) return {false, 0}; }
    if (!nd || (dot && !nf)) return {false, 0};
    U m = 1;
    if (q == n) { if (dot) return {false, 0}; return {true, v}; }
    bool suf = true;
    if (q + 1 < n && (s[q + 1] == 'i' || s[q + 1] == 'I') && mulof(s[q], true)) { m = mulof(s[q], true); q += 2; }
    else if (mulof(s[q], false)) { m = mulof(s[q], false); q += 1; } else suf = false;
    if (!suf && s[q] != '.') return {false, 0};   // a number may follow without a suffix only as ".5k" does after a prefixed one
    U c = 0; for (int i = nf - 1; i >= 0; i--) { c += fr[i] * m; if (c % 10) return {false, 0}; c /= 10; }
    if (!mulAdd(v, m, c)) return {false, 0};
    if (rec) { Ref a = ref(s, n, q, true, false); if (!a.ok || !mulAdd(v, 1, a.v)) return {false, 0}; return {true, v}; }
    while (q < n && ws(s[q])) q++;
    return {q == n, v};
}
template<class T> static bool cast(const char* s, int n, bool rec, bool pre, T& v, size_t& e) { std::string x(s, n); try { v = smartLexicalCast<T>(x, e, rec, pre); return true; } catch (const SpartaException&) { return false; } }
static void check(const char* s, int n, bool rec = true, bool pre = true) {
    Ref r = ref(s, n, 0, rec, pre); U v = 0; size_t e = 0; bool ok = cast<U>(s, n, rec, pre, v, e);
    if (vx_replaying()) vx_note("\"%.*s\" -> %d %llu, expected %d %llu", n, s, ok, (unsigned long long)v, r.ok, (unsigned long long)r.v);
    VX_CHECK(ok == r.ok, "a string is read exactly when it is a number of the grammar that fits");
    if (ok) { vx_reach("read"); VX_CHECK(v == r.v, "a string is read as the number it denotes"); bool rest = true; for (size_t i = e; e != std::string::npos && i < size_t(n); i++) rest &= ws(s[i]); VX_CHECK(rest, "only white space is left after the number"); } else vx_reach("refused");
}
static const char* NM[] = {"c0", "c1", "c2", "c3", "c4", "c5", "c6", "c7"};
static const char* KN[] = {"k0", "k1", "k2", "k3", "k4", "k5", "k6", "k7"};
static char digit(int i, char lo = '0') { return char(vx_range(NM[i], lo, '9')); }
// arbitrary short strings over the characters that mean something
VX_ENTRY(any) {
    static const char A[] = "d.kixb a-mg"; int N = vx_thorough() ? 5 : 4; char s[8]; int n = vx_pick(vx_range("len", 0, N));
    for (int i = 0; i < n; i++) { char c = A[vx_pick(vx_range(KN[i], 0, 10))]; s[i] = c == 'd' ? digit(i) : c; }
    check(s, n);
}
// any byte at one place of a string
VX_ENTRY(byte) {
    char s[] = "0.5k0x1ki 2"; static const struct { const char* s; int at; } F[] = {{"?", 0}, {"?1", 0}, {"0?", 1}, {"0?1", 1}, {"0x?", 2}, {"0b?", 2}, {"07?", 2}, {"1?", 1}, {"1k?", 2}, {"1k?5", 2}, {"1?i", 1}, {".?k", 1}};
    auto& f = F[vx_pick(vx_range("form", 0, 11))]; int n = strlen(f.s); memcpy(s, f.s, n); s[f.at] = char(vx_u8("ch"));
    check(s, n);
}
// [prefix] digits [. digits] suffix [digits suffix]
VX_ENTRY(grammar) {
    char s[24]; int n = 0; int k = 0; int form = vx_pick(vx_range("form", 0, 3));
    static const char* S[] = {"k", "Ki", "m", "mi", "g", "bI", "T", "ti", "p", "pi", "n"}; const char* sf = S[vx_pick(vx_range("suffix", 0, 10))];
    if (form == 0) { s[n++] = digit(k++); s[n++] = digit(k++); s[n++] = '.'; int nf = vx_pick(vx_range("places", 1, vx_thorough() ? 4 : 3)); while (nf--) s[n++] = digit(k++); }
    else if (form == 1) { s[n++] = '0'; s[n++] = 'x'; s[n++] = digit(k++); s[n++] = digit(k++); }
    else if (form == 2) { for (int i = 0; i < 5; i++) s[n++] = digit(k++); }
    else { s[n++] = '0'; s[n++] = digit(k++); s[n++] = digit(k++); }
    for (; *sf; sf++) s[n++] = *sf;
    if (vx_pick(vx_bool("more"))) { s[n++] = ' '; s[n++] = digit(k++); s[n++] = 'k'; s[n++] = digit(k++); }
    bool rec = vx_pick(vx_bool("recursion")), pre = vx_pick(vx_bool("prefixes"));
    check(s, n, rec, pre);
}
// fractions with many places
VX_ENTRY(places) {
    static const char* F[] = {"1.?kKi", ".0000?p", ".00?00000?p", "0.?00000000000000p", ".?????????T", "2.000000?0000p", "1.000??5gi", ".0?5ki", ".5?ki", "3.0000000000?25pi", ".1000000000?p"};
    const char* f = F[vx_pick(vx_range("form", 0, 10))]; char s[32]; int n = 0, k = 0;
    for (; *f; f++) s[n++] = *f == '?' && k < 8 ? digit(k++) : *f == '?' ? '5' : *f;
    check(s, n);
}
// sums and products at the end of the range
VX_ENTRY(edge) {
    static const char* F[] = {"1844674407370955161?", "1844674407370955??16", "18446744073709551k61?", "18446744073709551k?15", "1844?p", "1844?.9p", "18446.744073709551?p", "18446744073g70955161?", "1638?pi", "0x3ff?pi1", "16383pi112589990684262?", "0xffffffffffffffff?", "1844674407370955161?n", "1844674407370955161?k"};
    const char* f = F[vx_pick(vx_range("form", 0, 13))]; char s[32]; int n = 0, k = 0;
    for (; *f; f++) s[n++] = *f == '?' ? digit(k++) : *f;
    check(s, n);
}
// the narrower and the signed types take the same numbers, those they can hold
template<class T> static void narrow(const char* s, int n, bool neg, U mag, bool rok) {
    typedef std::numeric_limits<T> L; T v = 0; size_t e = 0; bool ok = cast<T>(s, n, true, true, v, e);
    bool fit = rok && (neg ? std::is_signed<T>::value && mag <= U(L::max()) + 1 : mag <= U(L::max()));
    if (vx_replaying()) vx_note("\"%.*s\" (%d bytes) -> %d %lld, expected %d", n, s, int(sizeof(T)), ok, (long long)v, fit);
    VX_CHECK(ok == fit, "a type takes exactly the numbers it can hold");
    if (ok) { vx_reach("read"); VX_CHECK(v == T(neg ? 0 - mag : mag), "the value is the number written"); } else vx_reach("refused");
}
VX_ENTRY(types) {
    int t = vx_pick(vx_range("type", 0, 6)); bool neg = vx_pick(vx_bool("neg")); char s[40]; int n = 0, k = 0;
    static const char* F[7][4] = {{"?", "1?7", "2??", "0x?f"}, {"12?", "13?", "25?", "0?.1k"}, {"3276?", "6553?", "6?k536", "4????"}, {"3276?", "32k76?", "3????", "0x80?1"},
        {"429496729?", "4?94967295", "4g29496?295", "4gi?"}, {"214748364?", "2g14748364?", "0x8000000?", "2gi?"}, {"922337203685477580?", "9223p372036854775k80?", "8191pi112589990684262?", "0x800000000000000?"}};
    const char* f = F[t][vx_pick(vx_range("form", 0, 3))];
    if (neg) { s[n++] = ' '; s[n++] = '-'; if (vx_pick(vx_bool("space"))) s[n++] = ' '; }
    int b = n; for (; *f; f++) s[n++] = *f == '?' ? digit(k++) : *f;
    Ref r = ref(s + b, n - b, 0, true, true);
    switch (t) { case 0: narrow<uint8_t>(s, n, neg, r.v, r.ok); break; case 1: narrow<int8_t>(s, n, neg, r.v, r.ok); break; case 2: narrow<uint16_t>(s, n, neg, r.v, r.ok); break; case 3: narrow<int16_t>(s, n, neg, r.v, r.ok); break;
        case 4: narrow<uint32_t>(s, n, neg, r.v, r.ok); break; case 5: narrow<int32_t>(s, n, neg, r.v, r.ok); break; case 6: narrow<int64_t>(s, n, neg, r.v, r.ok); break; }
}
