#include "common.h"
#include "sparta/functional/Register.hpp"
#include "sparta/functional/RegisterSet.hpp"
#include "sparta/functional/RegisterBits.hpp"
using namespace sparta;
typedef std::vector<uint8_t> Bytes;
static Bytes symb(int n, const char* nm) { Bytes b(n); vx_bytes(b.data(), n, nm); return b; }
static bool bit(const Bytes& b, unsigned i) { return i < b.size() * 8 && (b[i / 8] >> (i % 8)) & 1; }
// reference shifts on little-endian byte arrays, s concrete
static uint8_t byteat(const Bytes& b, long bitpos) {   // the 8 bits starting at bitpos (may lie outside: zero)
    long q = bitpos >> 3; int r = bitpos & 7; auto at = [&](long i) -> unsigned { return i < 0 || i >= (long)b.size() ? 0 : b[i]; };
    return uint8_t((at(q) >> r) | (r ? at(q + 1) << (8 - r) : 0));
}
static Bytes shr(const Bytes& b, unsigned s) { Bytes o(b.size()); for (size_t i = 0; i < b.size(); i++) o[i] = byteat(b, long(i) * 8 + s); return o; }
static Bytes shl(const Bytes& b, unsigned s) { Bytes o(b.size()); for (size_t i = 0; i < b.size(); i++) o[i] = byteat(b, long(i) * 8 - long(s)); return o; }
static void same(const uint8_t* p, const Bytes& w, const char* l) { uint8_t d = 0; for (size_t i = 0; i < w.size(); i++) d |= p[i] ^ w[i]; VX_CHECK(d == 0, l); }
static const int SZ[] = {1, 2, 4, 8, 16, 32, 64};

// ---- RegisterBits
VX_ENTRY(bits_logic) {
    int n = vx_pick(vx_range("bytes", 1, 40)); Bytes a = symb(n, "a"), b = symb(n, "b"), w(n);
    bool own = vx_pick(vx_bool("owns"));
    RegisterBits B(static_cast<const uint8_t*>(b.data()), n);
    RegisterBits A = own ? RegisterBits(n) : RegisterBits(static_cast<const uint8_t*>(a.data()), n);
    if (own) for (int i = 0; i < n; i++) A.data()[i] = a[i];
    for (int i = 0; i < n; i++) w[i] = a[i] & b[i];
    { RegisterBits r = A & B; VX_CHECK(r.getSize() == unsigned(n), "size"); same(r.data(), w, "and"); }
    for (int i = 0; i < n; i++) w[i] = a[i] | b[i];
    { RegisterBits r = A | B; same(r.data(), w, "or"); RegisterBits c(r); same(c.data(), w, "copy"); VX_CHECK(c == r, "a copy is equal"); RegisterBits m(std::move(c)); same(m.data(), w, "move"); }
    uint8_t any = 0; for (int i = 0; i < n; i++) any |= a[i];
    VX_CHECK(A.none() == (any == 0) && A.any() == (any != 0), "none and any tell whether a bit is set");
    uint8_t d = 0; for (int i = 0; i < n; i++) d |= a[i] ^ b[i];
    VX_CHECK((A == B) == (d == 0), "equality compares every byte");
    uint64_t w64 = 0; for (int i = 0; i < n && i < 8; i++) w64 |= uint64_t(a[i]) << (8 * i);
    VX_CHECK(A.dataAs<uint64_t>() == w64 && A.dataAs<uint16_t>() == uint16_t(w64), "dataAs gives the low bytes");
    Bytes a0 = a; { RegisterBits c(static_cast<const uint8_t*>(a.data()), n); c.fill(0x5a); VX_CHECK(c.data()[n - 1] == 0x5a, "fill"); } same(a.data(), a0, "changing a view of constant data copies it first");
    vx_reach("end");
}
VX_ENTRY(bits_not) {
    int n = SZ[vx_pick(vx_range("size", 0, 6))]; Bytes a = symb(n, "a"), b = symb(n, "b"), w(n);
    RegisterBits A(static_cast<const uint8_t*>(a.data()), n), B(static_cast<const uint8_t*>(b.data()), n);
    for (int i = 0; i < n; i++) w[i] = ~a[i];
    { RegisterBits r = ~A; same(r.data(), w, "not"); }
    for (int i = 0; i < n; i++) w[i] = a[i] | b[i];
    RegisterBits C(static_cast<const uint8_t*>(a.data()), n); C |= B; same(C.data(), w, "or assignment"); same(A.data(), a, "other views of the same data are not affected");
    vx_reach("end");
}
static void shifts(int n, int step) {
    Bytes a = symb(n, "a"); unsigned s = vx_pick(vx_range("shift", 0, (n * 8 - 1) / step)) * step; if (n < 4) vx_assume(s < unsigned(n * 8));
    if (s >= unsigned(n * 8)) s = n * 8 - 1;
    RegisterBits A(static_cast<const uint8_t*>(a.data()), n); Bytes r = shr(a, s), l = shl(a, s);
    { RegisterBits x = A >> s; same(x.data(), r, "shift right"); }
    { RegisterBits x = A << s; same(x.data(), l, "shift left"); }
    { RegisterBits x(n); for (int i = 0; i < n; i++) x.data()[i] = a[i]; x <<= s; same(x.data(), l, "shift left in place"); }
    same(A.data(), a, "shifting does not change the operand");
    vx_reach("end");
}
VX_ENTRY(shift_small) { shifts(1 << vx_pick(vx_range("log", 0, 3)), 1); }
VX_ENTRY(shift_16) { shifts(16, 1); }
VX_ENTRY(shift_32) { shifts(32, 1); }
VX_ENTRY(shift_64) { shifts(64, 1); }
VX_ENTRY(shift_over) {   // more than the width, double words only
    int n = 16 << vx_pick(vx_range("log", 0, 2)); Bytes a = symb(n, "a"); unsigned s = n * 8 + vx_pick(vx_range("more", 0, 3)) * 43; Bytes z(n);
    RegisterBits A(static_cast<const uint8_t*>(a.data()), n);
    { RegisterBits x = A >> s; same(x.data(), z, "shift right by more than the width gives zero"); }
    { RegisterBits x = A << s; same(x.data(), z, "shift left by more than the width gives zero"); }
    vx_reach("end");
}

// ---- one register in a register set, with neighbours
static uint64_t lo64(const Bytes& b, unsigned lo, unsigned n) { uint64_t v = 0; for (unsigned i = 0; i < n; i += 8) v |= uint64_t(byteat(b, lo + i)) << i; return n >= 64 ? v : v & ((uint64_t(1) << n) - 1); }
static Bytes put(Bytes b, unsigned lo, unsigned n, uint64_t v) {
    Bytes m(b.size()), x(b.size());
    for (unsigned i = 0; i < 8 && i < b.size(); i++) x[i] = v >> (8 * i);
    for (unsigned i = lo; i < lo + n; i++) m[i / 8] |= 1 << (i % 8);
    x = shl(x, lo); for (size_t i = 0; i < b.size(); i++) b[i] = (b[i] & ~m[i]) | (x[i] & m[i]); return b;
}
typedef RegisterBase::Field::Definition FD;
static std::unique_ptr<RegisterSet> RS; static RegisterBase *REG, *LOW, *HIGH; static Bytes cur, lowb, highb; static int N;
static void mk(int n, const std::vector<FD>& f) {
    env::base(); N = n;
    auto id = RegisterBase::INVALID_ID; auto gn = RegisterBase::GROUP_NUM_NONE; auto gi = TreeNode::GROUP_IDX_NONE;
    auto* d = new std::vector<RegisterBase::Definition>{
        {0, "low", gn, "", gi, "d", 8, {}, {}, nullptr, id, 0, nullptr, 0, 0}, {1, "r", gn, "", gi, "d", RegisterBase::size_type(n), f, {}, nullptr, id, 0, nullptr, 0, 0},
        {2, "high", gn, "", gi, "d", 8, {}, {}, nullptr, id, 0, nullptr, 0, 0}, RegisterBase::DEFINITION_END};
    RS = RegisterSet::create(env::R, d->data());
    REG = RS->getRegister("r"); LOW = RS->getRegister("low"); HIGH = RS->getRegister("high");
    env::R->enterConfiguring(); env::R->enterFinalized(); env::R->bindTreeEarly();
    cur = symb(n, "old"); lowb = symb(8, "low"); highb = symb(8, "high");
    REG->pokeUnmasked(cur.data(), n, 0); LOW->poke(lowb.data(), 8, 0); HIGH->poke(highb.data(), 8, 0);
}
static void state() {
    Bytes b(N); REG->peek(b.data(), N, 0); same(b.data(), cur, "exactly the bits written change");
    Bytes c(8); LOW->peek(c.data(), 8, 0); same(c.data(), lowb, "the register before is not affected"); HIGH->peek(c.data(), 8, 0); same(c.data(), highb, "the register after is not affected");
}
static RegisterBase::Field* fld(const char* n) { return REG->getField(n); }
static void use_field(RegisterBase::Field* f, unsigned lo, unsigned w, bool ro) {
    VX_CHECK(f->getLowBit() == lo && f->getHighBit() == lo + w - 1 && f->getNumBits() == w && f->isReadOnly() == ro, "field description");
    VX_CHECK(f->read() == lo64(cur, lo, w) && f->peek() == lo64(cur, lo, w), "a field reads its own bits");
    uint64_t v = vx_u64("v"); bool fits = w == 64 || !(v >> w);
    int op = vx_pick(vx_range("op", 0, 2));
    bool ok = !throws_([&] { op == 0 ? f->write(v) : op == 1 ? f->poke(v) : f->pokeUnmasked(v); });
    VX_CHECK(ok == fits, "a value is rejected exactly when it does not fit the field");
    if (ok && (!ro || op == 2)) cur = put(cur, lo, w, v);
    state();
    VX_CHECK(f->read() == lo64(cur, lo, w), "a field reads back what it holds");
}
static void field(int n, unsigned lostep, unsigned wstep) {
    unsigned bits = n * 8; unsigned lo = vx_pick(vx_range("lo", 0, (bits - 1) / lostep)) * lostep; if (lo >= bits) lo = bits - 1;
    unsigned maxw = std::min(64u, bits - lo), wi = vx_pick(vx_range("w", 0, 63)); vx_assume(wi * wstep <= maxw - 1 || (wi - 1) * wstep < maxw - 1);
    unsigned w = std::min(maxw, wi * wstep + 1); bool ro = vx_pick(vx_bool("ro"));
    static const char* nm = "f"; mk(n, {FD(nm, "d", lo, lo + w - 1, ro)});
    use_field(fld("f"), lo, w, ro); vx_reach("end");
}
VX_ENTRY(field_1) { field(1, 1, 1); }
VX_ENTRY(field_2) { field(2, 1, 1); }
VX_ENTRY(field_4) { field(4, vx_thorough() ? 1 : 2, vx_thorough() ? 1 : 3); }
VX_ENTRY(field_8) { field(8, vx_thorough() ? 2 : 5, vx_thorough() ? 3 : 7); }
VX_ENTRY(field_16) { field(16, vx_thorough() ? 3 : 11, vx_thorough() ? 5 : 9); }
VX_ENTRY(field_32) { field(32, vx_thorough() ? 7 : 23, vx_thorough() ? 7 : 13); }
VX_ENTRY(field_64) { field(64, vx_thorough() ? 11 : 37, vx_thorough() ? 7 : 21); }
// fields that overlap, one of them read-only
VX_ENTRY(field_overlap) {
    int n = 4 << vx_pick(vx_range("log", 0, 2)); unsigned sh = (n - 4) * 8; unsigned k = vx_pick(vx_range("k", 0, 3));
    static const unsigned A[4][2] = {{0, 15}, {4, 11}, {10, 31}, {0, 31}}, Bf[4][2] = {{8, 23}, {0, 15}, {12, 13}, {31, 31}};
    unsigned al = A[k][0] + sh, ah = A[k][1] + sh, bl = Bf[k][0] + sh, bh = Bf[k][1] + sh;
    mk(n, {FD("a", "d", al, ah), FD("b", "d", bl, bh, true)});
    Bytes before = cur; uint64_t v = vx_u64("v"); vx_assume((v >> (ah - al + 1)) == 0);
    fld("a")->write(v); cur = put(cur, al, ah - al + 1, v);
    cur = put(cur, bl, bh - bl + 1, lo64(before, bl, bh - bl + 1));
    state(); VX_CHECK(fld("b")->read() == lo64(before, bl, bh - bl + 1), "read-only bits keep their value"); VX_CHECK(fld("a")->read() == lo64(cur, al, ah - al + 1), "fields see the same bits");
    vx_reach("end");
}
VX_ENTRY(field_reject) {   // definitions outside the register
    int n = 1 << vx_pick(vx_range("log", 0, 4)); unsigned lo = vx_pick(vx_range("lo", 0, 3)), hi = vx_pick(vx_range("hi", 0, 3));
    unsigned b = n * 8; const unsigned P[] = {0, b / 2, b - 1, b}; lo = P[lo]; hi = P[hi];
    bool ok = lo <= hi && hi < b && hi - lo < 64;
    VX_CHECK(throws_([&] { mk(n, {FD("f", "d", lo, hi)}); }) == !ok, "a field is rejected exactly when it is not within the register or too wide");
    vx_reach("end");
}

// ---- whole-register accesses with read-only fields
static Bytes wmask;
static void mkro(int n, int k) {
    unsigned b = n * 8; std::vector<FD> f; wmask.assign(n, 0xff);
    auto add = [&](const char* nm, unsigned lo, unsigned hi, bool ro) { f.push_back(FD(nm, "d", lo, hi, ro)); if (ro) for (unsigned i = lo; i <= hi; i++) wmask[i / 8] &= ~(1 << (i % 8)); };
    if (k & 1) add("x", b / 2 - 3, b / 2, true);
    if (k & 2) { add("y", b > 64 ? b - 64 : b - 5, b - 1, true); add("z", 0, 1, true); }
    add("rw", 0, b / 2 < 64 ? b / 2 : 63, false);
    mk(n, f);
}
static void wr(const Bytes& v, unsigned off, bool masked) { for (size_t i = 0; i < v.size(); i++) { uint8_t m = masked ? wmask[off + i] : 0xff; cur[off + i] = (cur[off + i] & ~m) | (v[i] & m); } }
static int LG, KK; static void ro_setup() {}
template<class T> static void typed(int n) {
    unsigned cnt = n / sizeof(T), idx = vx_pick(vx_range("idx", 0, std::min(cnt, 9u))); T v; vx_bytes(&v, sizeof v, "v"); Bytes vb(sizeof v); memcpy(vb.data(), &v, sizeof v);
    int op = vx_pick(vx_range("op", 0, 6)); bool in = idx < cnt;
    auto* reg = static_cast<Register*>(REG);
    if (in) {
        T e; memcpy(&e, cur.data() + idx * sizeof(T), sizeof e); T m; memcpy(&m, wmask.data() + idx * sizeof(T), sizeof m);
        VX_CHECK(REG->read<T>(idx) == e && REG->peek<T>(idx) == e && REG->dmiRead<T>(idx) == e && reg->dmiRead<T>(idx) == e, "reads give the addressed part");
        VX_CHECK(REG->getWriteMask<T>(idx) == m, "the write mask has the bits outside read-only fields");
    } else {
        VX_CHECK(throws_([&] { REG->read<T>(idx); }) && throws_([&] { REG->peek<T>(idx); }) && throws_([&] { REG->getWriteMask<T>(idx); }), "reads outside the register are rejected");
        if (op > 3) op -= 4;
    }
    bool t = throws_([&] { switch (op) { case 0: REG->write<T>(v, idx); break; case 1: REG->poke<T>(v, idx); break; case 2: REG->writeUnmasked<T>(v, idx); break; case 3: REG->pokeUnmasked<T>(v, idx); break;
        case 4: REG->dmiWrite<T>(v, idx); break; case 5: reg->dmiWrite<T>(v, idx); break; case 6: reg->writeUnmasked<T>(v, idx); break; } });
    VX_CHECK(t == !in, "writes outside the register are rejected");
    if (in) wr(vb, idx * sizeof(T), op < 2);
    state();
    if (in) { T e; memcpy(&e, cur.data() + idx * sizeof(T), sizeof e); VX_CHECK(REG->read<T>(idx) == e, "read back"); }
    vx_reach("end");
}
static void access(int n) {
    mkro(n, vx_pick(vx_range("ro", 0, 3)));
    switch (vx_pick(vx_range("type", 0, 3))) { case 0: typed<uint8_t>(n); break; case 1: typed<uint16_t>(n); break; case 2: typed<uint32_t>(n); break; default: typed<uint64_t>(n); }
}
VX_ENTRY(access_1) { access(1); }
VX_ENTRY(access_2) { access(2); }
VX_ENTRY(access_4) { access(4); }
VX_ENTRY(access_8) { access(8); }
VX_ENTRY(access_16) { access(16); }
VX_ENTRY(access_32) { access(32); }
// any size and offset
static void buffer(int n, int maxs) {
    mkro(n, vx_pick(vx_range("ro", 0, 3)));
    unsigned size = vx_pick(vx_range("size", 1, maxs)), off = vx_pick(vx_range("off", 0, n)); bool in = off + size <= unsigned(n); if (!in) vx_assume(off + size <= unsigned(n) + 2);
    Bytes v = symb(size, "v"), got(size); int op = vx_pick(vx_range("op", 0, 3));
    bool t = throws_([&] { switch (op) { case 0: REG->write(v.data(), size, off); break; case 1: REG->poke(v.data(), size, off); break; case 2: REG->writeUnmasked(v.data(), size, off); break; default: REG->pokeUnmasked(v.data(), size, off); } });
    VX_CHECK(t == !in, "accesses outside the register are rejected");
    if (in) { wr(v, off, op < 2); REG->read(got.data(), size, off); same(got.data(), Bytes(cur.begin() + off, cur.begin() + off + size), "read back"); }
    else VX_CHECK(throws_([&] { REG->read(got.data(), size, off); }) && throws_([&] { REG->peek(got.data(), size, off); }), "reads outside the register are rejected");
    state(); vx_reach("end");
}
VX_ENTRY(buffer_4) { buffer(4, 4); }
VX_ENTRY(buffer_8) { buffer(8, 8); }
VX_ENTRY(buffer_16) { buffer(16, 16); }
VX_ENTRY(buffer_32) { buffer(32, vx_thorough() ? 32 : 5); }
// overflowing offset
VX_ENTRY(buffer_wrap) {
    mkro(8, 0); uint64_t off = vx_u64("off"), size = vx_range("size", 1, 8); vx_assume(off > 8 - size); vx_assume(off + size >= off); Bytes v(8, 0xee);
    VX_CHECK(throws_([&] { REG->write(v.data(), size, off); }) && throws_([&] { REG->poke(v.data(), size, off); }) && throws_([&] { REG->read(v.data(), size, off); }), "every access outside the register is rejected");
    state(); vx_reach("end");
}
// sequences of accesses
VX_ENTRY(sequence) {
    mkro(8, 3); for (int i = 0; i < (vx_thorough() ? 4 : 3); i++) {
        unsigned k = vx_pick(vx_range("op", 0, 4)); 
        if (k == 0) { uint32_t v = vx_u32("v"); unsigned x = vx_pick(vx_range("x", 0, 1)); REG->write<uint32_t>(v, x); Bytes b(4); memcpy(b.data(), &v, 4); wr(b, 4 * x, true); }
        else if (k == 1) { uint64_t v = vx_u64("w") & 0x1ffffffff; Bytes o = cur; fld("rw")->write(v); cur = put(cur, 0, 33, v); for (int j = 0; j < 8; j++) cur[j] = (cur[j] & wmask[j]) | (o[j] & ~wmask[j]); }
        else if (k == 2) { uint64_t v = vx_u64("u"); REG->pokeUnmasked<uint64_t>(v); memcpy(cur.data(), &v, 8); }
        else if (k == 3) { uint16_t v = vx_u16("d"); REG->dmiWrite<uint16_t>(v, 1); memcpy(cur.data() + 2, &v, 2); }
        else { uint64_t v = vx_u8("p") & 0xf; fld("x")->pokeUnmasked(v); cur = put(cur, 29, 4, v); }
        state();
    }
    VX_CHECK(fld("x")->read() == lo64(cur, 29, 4) && fld("y")->read() == lo64(cur, 59, 5) && fld("rw")->read() == lo64(cur, 0, 33), "fields read the bits of the register");
    vx_reach("end");
}
