// libc memory/string functions, compiled WITH the pass so that symbolic bytes flow through them.
#include <cstddef>
#include <cstdint>
#include <cstring>
#include <cctype>
#include <cerrno>
#include <climits>
extern "C" {
int vxr_anysym(const void*, size_t);
void vxr_memcpy(void*, const void*, size_t);
void vxr_memset(void*, void*, size_t);
void* vxl_memcpy(void* d, const void* s, size_t n) { __builtin_memcpy(d, s, n); return d; }
void* vxl_memmove(void* d, const void* s, size_t n) { __builtin_memmove(d, s, n); return d; }
void* vxl_memset(void* d, int c, size_t n) { __builtin_memset(d, c, n); return d; }
int vxl_memcmp(const void* a_, const void* b_, size_t n) {
    const volatile unsigned char* a = (const volatile unsigned char*)a_; const volatile unsigned char* b = (const volatile unsigned char*)b_;
    if (!vxr_anysym(a_, n) && !vxr_anysym(b_, n)) {
        for (size_t i = 0; i < n; i++) { int d = int(a[i]) - int(b[i]); if (d) return d; } return 0; }
    int r = 0;
    for (size_t i = 0; i < n; i++) { int d = int(a[i]) - int(b[i]); int m = -(int)(r == 0); r |= d & m; }
    return r;
}
int vxl_bcmp(const void* a_, const void* b_, size_t n) {
    const volatile unsigned char* a = (const volatile unsigned char*)a_; const volatile unsigned char* b = (const volatile unsigned char*)b_;
    int r = 0; for (size_t i = 0; i < n; i++) r |= a[i] ^ b[i];
    return r;
}
size_t vxl_strlen(const char* s_) { const volatile char* s = s_; size_t n = 0; while (s[n]) n++; return n; }
int vxl_strcmp(const char* a_, const char* b_) { const volatile char* a = a_; const volatile char* b = b_;
    for (size_t i = 0;; i++) { unsigned char x = a[i], y = b[i]; if (x != y) return int(x) - int(y); if (!x) return 0; } }
int vxl_strncmp(const char* a_, const char* b_, size_t n) { const volatile char* a = a_; const volatile char* b = b_;
    for (size_t i = 0; i < n; i++) { unsigned char x = a[i], y = b[i]; if (x != y) return int(x) - int(y); if (!x) return 0; } return 0; }
void* vxl_memchr(const void* s_, int c, size_t n) { const volatile unsigned char* s = (const volatile unsigned char*)s_;
    for (size_t i = 0; i < n; i++) if (s[i] == (unsigned char)c) return (void*)(s + i); return nullptr; }
char* vxl_strchr(const char* s_, int c) { const volatile char* s = s_;
    for (size_t i = 0;; i++) { if (s[i] == (char)c) return (char*)(s + i); if (!s[i]) return nullptr; } }
static inline unsigned long long conv(const char* s_, char** e, int base, bool& neg, bool& ovf, bool& any) {
    const volatile char* s = s_; size_t i = 0; neg = false; ovf = false; any = false;
    while (s[i] == ' ' || (s[i] >= 9 && s[i] <= 13)) i++;
    if (s[i] == '+') i++; else if (s[i] == '-') { neg = true; i++; }
    auto dig = [](char c) -> int { if (c >= '0' && c <= '9') return c - '0'; if (c >= 'a' && c <= 'z') return c - 'a' + 10; if (c >= 'A' && c <= 'Z') return c - 'A' + 10; return 99; };
    if ((base == 0 || base == 16) && s[i] == '0' && (s[i+1] == 'x' || s[i+1] == 'X') && dig(s[i+2]) < 16) { i += 2; base = 16; }
    if (base == 0) base = s[i] == '0' ? 8 : 10;
    unsigned long long v = 0;
    for (;;) { int d = dig(s[i]); if (d >= base) break; any = true;
        unsigned long long nv; if (__builtin_mul_overflow(v, (unsigned long long)base, &nv) || __builtin_add_overflow(nv, (unsigned long long)d, &nv)) ovf = true; else v = nv;
        i++; }
    if (e) *e = (char*)(any ? s_ + i : s_);
    return v;
}
unsigned long long vxl_strtoull(const char* s, char** e, int base) { bool n, o, a; auto v = conv(s, e, base, n, o, a); if (o) { errno = ERANGE; return ULLONG_MAX; } return n ? -v : v; }
unsigned long vxl_strtoul(const char* s, char** e, int base) { return vxl_strtoull(s, e, base); }
long long vxl_strtoll(const char* s, char** e, int base) { bool n, o, a; auto v = conv(s, e, base, n, o, a);
    if (o || v > (n ? 9223372036854775808ull : 9223372036854775807ull)) { errno = ERANGE; return n ? LLONG_MIN : LLONG_MAX; } return n ? (long long)-v : (long long)v; }
long vxl_strtol(const char* s, char** e, int base) { return vxl_strtoll(s, e, base); }
}
