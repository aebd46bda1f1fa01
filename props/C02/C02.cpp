#include "lite.h"
#include "cache/SimpleCache2.hpp"
#include "cache/DefaultAddrDecoder.hpp"
#include "cache/LineData.hpp"
#include "cache/LRUReplacement.hpp"
#include "cache/TreePLRUReplacement.hpp"
#include <cstring>
#include <sstream>
using namespace sparta; using namespace sparta::cache;
// ---- addresses: two addresses share set and tag exactly when they are in the same block
VX_ENTRY(decoder) {
    uint64_t l = vx_pick(vx_range("line", 0, 7)), s = vx_pick(vx_range("sets", 0, 12)), w = vx_pick(vx_range("ways", 1, 3)); bool kb = vx_pick(vx_bool("kb")); uint64_t sz = w << (l + s); if (kb) vx_assume(sz % 1024 == 0);
    DefaultAddrDecoder d(kb ? sz / 1024 : sz, 1ull << l, 1ull << l, w, kb);
    uint64_t a = vx_u64("a"), b = vx_u64("b"); bool same = (a >> l) == (b >> l);
    VX_CHECK(((d.calcIdx(a) == d.calcIdx(b)) & (d.calcTag(a) == d.calcTag(b))) == same, "two addresses share set and tag exactly when they are in the same block");
    VX_CHECK(d.calcIdx(a) < (1ull << s), "the index names an existing set");
    VX_CHECK((d.calcBlockAddr(a) + d.calcBlockOffset(a) == a) & (d.calcBlockOffset(a) < (1ull << l)) & (d.calcBlockAddr(a) % (1ull << l) == 0), "an address is its block's address and an offset in the block");
    VX_CHECK(d.calcIdx(a + (1ull << l)) == ((d.calcIdx(a) + 1) & ((1ull << s) - 1)), "consecutive blocks are in consecutive sets"); vx_reach("end");
}
VX_ENTRY(geometry) { // bad geometry is refused, good is not
    uint64_t n = vx_pick(vx_range("sets", 0, 9)); bool t = throws_([&] { SimpleCache2<LineData, BasicCacheSet<LineData>> c(n * 2 * 4, 4, 4, LineData(4), LRUReplacement(2), false); if (n == 1 || n == 2 || n == 4 || n == 8) VX_CHECK(c.getNumSets() == n && c.getNumWays() == 2, "the geometry is as asked for"); });
    VX_CHECK(t == !(n == 1 || n == 2 || n == 4 || n == 8), "exactly the geometries whose blocks can be told apart are accepted"); vx_reach("end");
}
// ---- replacement
VX_ENTRY(lru) {
    uint32_t n = vx_pick(vx_range("ways", 1, 5)); LRUReplacement r(n); std::unique_ptr<ReplacementIF> q(r.clone()); ReplacementIF& p = vx_pick(vx_bool("clone")) ? *q : r; VX_CHECK(p.getNumWays() == n, "ways");
    uint32_t o[5]; for (uint32_t i = 0; i < n; i++) o[i] = i; static const char* WN[] = {"w1", "w2", "w3", "w4", "w5", "w6", "w7", "w8"};
    for (int s = 0, N = vx_thorough() ? 5 : 4; s < N; s++) {
        uint32_t x = vx_pick(vx_range(WN[s], 0, n - 1)); bool m = vx_bool("mru"); uint32_t k = 0; while (o[k] != x) k++;
        if (m) { p.touchMRU(x); for (; k + 1 < n; k++) o[k] = o[k + 1]; o[n - 1] = x; } else { p.touchLRU(x); for (; k > 0; k--) o[k] = o[k - 1]; o[0] = x; }
        VX_CHECK(p.getLRUWay() == o[0], "the least recently used way is the one not used for longest"); VX_CHECK(p.getMRUWay() == o[n - 1], "the most recently used way is the one used last");
    }
    for (uint32_t i = 0; i < n; i++) { VX_CHECK(p.getLRUWay() == o[i], "using the oldest way over and over goes through all in order"); p.touchMRU(o[i]); } vx_reach("end");
}
VX_ENTRY(plru) {
    uint32_t n = 1u << vx_pick(vx_range("lg", 0, vx_thorough() ? 4 : 3)); TreePLRUReplacement r(n); uint32_t ls = ~0u, ms = ~0u; static const char* WN[] = {"w1", "w2", "w3", "w4", "w5", "w6", "w7", "w8"};
    for (int s = 0, N = vx_thorough() ? 4 : 3; s < N; s++) {
        uint32_t x = vx_pick(vx_range(WN[s], 0, n - 1)); uint64_t k = vx_pick(vx_range("k", 0, 2));
        if (k == 0) { r.touchMRU(x); VX_CHECK(r.getMRUWay() == x, "the way touched last is the most recently used"); if (n > 1) VX_CHECK(r.getLRUWay() != x, "and is not the next victim"); }
        else if (k == 1) { r.touchLRU(x); VX_CHECK(r.getLRUWay() == x, "a way made least recently used is the next victim"); if (n > 1) VX_CHECK(r.getMRUWay() != x, "and not the most recently used"); }
        else { r.reset(); VX_CHECK(r.getLRUWay() == 0 && r.getMRUWay() == n - 1, "a reset starts over"); }
        VX_CHECK(r.getLRUWay() < n && r.getMRUWay() < n, "ways exist");
        std::istringstream is(r.getDisplayString()); std::vector<bool> seen(n, false); uint32_t w, c = 0, first = 0, last = 0; while (is >> w) { VX_CHECK(w < n && !seen[w], "the order lists every way once"); seen[w] = true; if (c++ == 0) first = w; last = w; } VX_CHECK(c == n && first == r.getMRUWay() && last == r.getLRUWay(), "from most to least recently used");
    }
    std::vector<bool> seen(n, false); for (uint32_t i = 0; i < n; i++) { uint32_t v = r.getLRUWay(); VX_CHECK(!seen[v], "victims used in turn are all different"); seen[v] = true; r.touchMRU(v); } vx_reach("end");
}
// ---- SimpleCache2: the caller decides what to allocate and when
typedef SimpleCache2<LineDataWithNT> C2; static C2* c; static const int NK = 4; static uint64_t blk[NK];
struct L { int k = -1; bool nt = false, mod = false; int ntage = 0; }; static L res[4]; static uint32_t ord[4]; static uint32_t nw; static int age;
static void touch(uint32_t w, bool mru) { uint32_t k = 0; while (ord[k] != w) k++; if (mru) { for (; k + 1 < nw; k++) ord[k] = ord[k + 1]; ord[nw - 1] = w; } else { for (; k > 0; k--) ord[k] = ord[k - 1]; ord[0] = w; } }
static int where(int k) { for (uint32_t w = 0; w < nw; w++) if (res[w].k == k) return w; return -1; }
static void checks() {
    for (int k = 0; k < NK; k++) { int w = where(k); const LineDataWithNT* l = c->peekLine(blk[k] + 1); VX_CHECK(c->isHit(blk[k]) == (w >= 0) && (l != nullptr) == (w >= 0) && c->getLine(blk[k] + 3) == l, "a block hits exactly while its line holds it");
        if (w >= 0 && l) VX_CHECK(l->getWay() == (uint32_t)w && l->isNT() == res[w].nt && l->isModified() == res[w].mod && l->getAddr() == blk[k], "in the way it was allocated in, with its state"); }
    bool open = false; uint32_t inv = 0; for (uint32_t w = nw; w-- > 0;) if (res[w].k < 0) { open = true; inv = w; }
    VX_CHECK(c->hasOpenWay(blk[0]) == open, "an open way is an invalid one");
    VX_CHECK(c->getLineForReplacement(blk[1]).getWay() == ord[0], "the least recently used way is offered for replacement");
    VX_CHECK(c->getLineForReplacementWithInvalidCheck(blk[1]).getWay() == (open ? inv : ord[0]), "an invalid way first when asked");
    VX_CHECK(c->getLineForReplacement(blk[1], false).getWay() == ord[0], "also for ordinary fills");
    if (nw > 1) { uint32_t e = !res[0].nt ? 0 : !res[1].nt ? 1 : res[0].ntage < res[1].ntage ? 0 : 1; VX_CHECK(c->getLineForReplacement(blk[2], true).getWay() == e, "a non-temporal fill takes way 0 or 1: one that is not non-temporal first, then the older"); }
}
static void hist2(int N) {
    nw = vx_pick(vx_bool("w4")) ? 4 : 2; uint64_t sets = vx_pick(vx_bool("s2")) ? 2 : 1; c = new C2(nw * sets * 8, 8, 8, LineDataWithNT(8), LRUReplacement(nw), false); int sh = 3 + (sets == 2);
    uint64_t t[NK]; static const char* BN[] = {"b0", "b1", "b2", "b3"}; for (int k = 0; k < NK; k++) { t[k] = (vx_u64(BN[k]) << sh) >> sh; blk[k] = (t[k] << sh) + (sets == 2 ? 8 : 0); for (int j = 0; j < k; j++) vx_assume(t[j] != t[k]); }
    for (uint32_t w = 0; w < nw; w++) ord[w] = w;
    static const char* ON[] = {"o1", "o2", "o3", "o4", "o5", "o6"}; static const char* KN[] = {"k1", "k2", "k3", "k4", "k5", "k6"};
    for (int s = 0; s < N; s++) {
        uint64_t o = vx_pick(vx_range(ON[s], 0, 5)); int k = o == 5 ? 0 : vx_pick(vx_range(KN[s], 0, std::min(s, NK - 1))); int w = where(k);
        if (o <= 2) { vx_assume(w < 0); bool nt = o == 2; auto& l = o == 0 ? c->getLineForReplacement(blk[k]) : o == 1 ? c->getLineForReplacementWithInvalidCheck(blk[k]) : c->getLineForReplacement(blk[k], true); w = l.getWay(); c->allocateWithMRUUpdate(l, blk[k], nt); res[w] = {k, nt, false, nt ? ++age : 0}; touch(w, true); }
        else if (o == 3) { vx_assume(w >= 0); uint8_t v[4]; vx_bytes(v, 4, "d"); auto* l = c->getLine(blk[k]); c->writeWithMRUUpdate(*l, blk[k] + 2, 4, v); res[w].mod = true; touch(w, true); uint8_t b[4]; c->readWithMRUUpdate(*l, blk[k] + 2, 4, b); VX_CHECK(!memcmp(b, v, 4), "bytes written are read"); VX_CHECK(throws_([&] { c->readWithMRUUpdate(*l, blk[k] + 6, 4, b); }), "an access past the end of the line is refused"); }
        else if (o == 4) { vx_assume(w >= 0); c->invalidateLineWithLRUUpdate(*c->getLine(blk[k])); res[w] = L(); touch(w, false); }
        else { vx_assume(s > 0); c->invalidateAll(); for (auto& l : res) l.k = -1; }
        checks();
    }
    vx_reach("end");
}
VX_ENTRY(explicit_allocation) { hist2(vx_thorough() ? 5 : 4); }
// ---- line data: in bounds or refused, bytes in the order asked for
template<class T> static void typed(LineData& l, uint8_t* m) {
    uint32_t off = vx_u32("off"), idx = vx_u32("idx"); T v; vx_bytes(&v, sizeof v, "v"); bool big = vx_pick(vx_bool("big"));
    uint64_t loc = (uint64_t)off + (uint64_t)idx * sizeof(T); bool in = loc + sizeof(T) <= 8; if (!vx_bool("in")) { vx_assume(!in); VX_CHECK(throws_([&] { l.write<T, LE>(off, v, idx); }) && throws_([&] { l.read<T, LE>(off, idx); }) && throws_([&] { l.read<T, BE>(off, idx); }), "an access outside the line is refused"); return; }
    vx_assume(in); loc = vx_pick(loc); if (big) l.write<T, BE>(off, v, idx); else l.write<T, LE>(off, v, idx);
    for (size_t i = 0; i < sizeof(T); i++) m[loc + i] = uint64_t(v) >> 8 * (big ? sizeof(T) - 1 - i : i);
    VX_CHECK((big ? l.read<T, BE>(off, idx) : l.read<T, LE>(off, idx)) == v, "a value written is read back");
}
VX_ENTRY(line_data) {
    LineData l(8); uint8_t m[8]; vx_bytes(m, 8, "m"); VX_CHECK(l.write(0, 8, m), "write");
    switch (vx_pick(vx_range("type", 0, 4))) { case 0: typed<uint8_t>(l, m); break; case 1: typed<uint16_t>(l, m); break; case 2: typed<uint32_t>(l, m); break; case 3: typed<uint64_t>(l, m); break;
    default: { uint64_t o = vx_u64("o"); uint32_t n = vx_u32("n"); uint8_t b[8]; vx_bytes(b, 8, "b"); unsigned __int128 e = (unsigned __int128)o + n; if (!vx_bool("in")) { vx_assume(e > 8); uint8_t x[1]; VX_CHECK(throws_([&] { l.read(o, n, x); }) && throws_([&] { l.write(o, n, x); }), "a block access outside the line is refused"); }
        else { vx_assume(e <= 8); o = vx_pick(o); n = vx_pick(n); l.write(o, n, b); memcpy(m + o, b, n); uint8_t r[8]; l.read(o, n, r); VX_CHECK(!memcmp(r, b, n), "bytes written are read back"); } } }
    LineData k(l); LineData j(4); j = l; uint8_t a[8]; for (LineData* x : {&l, &k, &j}) { x->read(0, 8, a); VX_CHECK(!memcmp(a, m, 8), "all other bytes stay; a copy has the same bytes"); } uint8_t z = 0; k.write(0, 1, &z); l.read(0, 1, a); VX_CHECK(a[0] == m[0], "a copy is independent"); vx_reach("end");
}
