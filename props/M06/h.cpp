#include "common.h"
#include "sparta/memory/MemoryObject.hpp"
#include "sparta/memory/SimpleMemoryMapNode.hpp"
using namespace sparta; using namespace sparta::memory;
static const uint64_t BS = 4;
static SimpleMemoryMap* mp;
struct D : BlockingMemoryIF { D(uint64_t n, uint64_t bs = BS) : BlockingMemoryIF("d", bs, DebugMemoryIF::AccessWindow(0, n)) {} bool tryRead_(addr_t, addr_t, uint8_t*, const void*, void*) override { return true; } bool tryWrite_(addr_t, addr_t, const uint8_t*, const void*, void*) override { return true; } bool tryPeek_(addr_t, addr_t, uint8_t*) const override { return true; } };
static D *d1, *d2;
static void setup() { mp = new SimpleMemoryMap(BS); d1 = new D(1 << 20); d2 = new D(1ull << 62); }
struct M { uint64_t s, e; D* d; uint64_t off; }; static std::vector<M> ref;
static const M* owner(uint64_t a) { for (auto& m : ref) if (a >= m.s && a < m.e) return &m; return nullptr; }
static void add(uint64_t s, uint64_t e, D* d, uint64_t off) {
    bool ok = true; for (auto& m : ref) if (s < m.e && m.s < e) ok = false;
    bool t = throws_([&] { mp->addMapping(s, e, d, off); });
    VX_CHECK(t == !ok, "a mapping is accepted exactly when it overlaps no other"); if (ok) ref.push_back({s, e, d, off});
    VX_CHECK(mp->getNumMappings() == ref.size() && mp->getMappings().size() == ref.size(), "the mappings are counted");
}
static void lookup(const char* n, uint64_t top) {
    for (size_t i = 0; i < ref.size(); i++) { auto* m = mp->getMappings()[i]; VX_CHECK(m->start == ref[i].s && m->end == ref[i].e && m->memif == ref[i].d && m->dest_off == ref[i].off, "the mappings are listed as added"); }
    uint64_t a = vx_u64(n); const M* m = owner(a); const SimpleMemoryMap* cm = mp;
    auto* f = mp->findMapping(a); VX_CHECK(m ? f && f->start == m->s && f->end == m->e : !f, "an address finds the mapping that contains it");
    VX_CHECK(cm->findMapping(a) == f, "the const lookup agrees"); VX_CHECK(mp->findInterface(a) == (m ? m->d : nullptr), "an address finds its destination");
    auto r = mp->mapAddress(a); VX_CHECK(m ? r.first == m->d && r.second == a - m->s + m->off : !r.first, "an address is moved by the mapping's offset");
    if (m) VX_CHECK(!throws_([&] { mp->verifyHasMapping(a, m->e - a); }), "a range inside one mapping is verified");
    for (uint64_t x = 0; x < top; x += 3) for (uint64_t z : {uint64_t(1), uint64_t(6), ~uint64_t(0)}) { const M* o = owner(x); VX_CHECK(throws_([&] { mp->verifyHasMapping(x, z); }) == !(o && z <= o->e - x), "a range outside any or over several mappings is not"); }
    vx_reach("end");
}
// any sequence of ranges
static void seq(int n, int nb) {
    static const char* SN[] = {"s1", "s2", "s3", "s4", "s5"}; static const char* EN[] = {"e1", "e2", "e3", "e4", "e5"};
    for (int i = 0; i < n; i++) { uint64_t s = vx_pick(vx_range(SN[i], 0, nb - 1)), e = vx_pick(vx_range(EN[i], 1, nb)); vx_assume(s < e); add(s * BS, e * BS, i & 1 ? d2 : d1, i * 64); }
    lookup("a", nb * BS + 4);
}
VX_ENTRY_S(three, setup) { seq(3, vx_thorough() ? 7 : 5); }
VX_ENTRY_S(four, setup) { seq(4, vx_thorough() ? 4 : 3); }
// disjoint ranges in every order, some adjacent, some not
static void orders(int n, uint64_t gaps) {
    uint64_t s[8], at = 1; for (int i = 0; i < n; i++) { s[i] = at; at += 1 + (i & 1); if (gaps >> i & 1) at++; }
    bool used[8] = {}; static const char* N[] = {"p1", "p2", "p3", "p4", "p5", "p6", "p7", "p8"};
    for (int i = 0; i < n; i++) { uint64_t k = vx_pick(vx_range(N[i], 0, n - 1)); vx_assume(!used[k]); used[k] = true; add(s[k] * BS, (s[k] + 1 + (k & 1)) * BS, k & 1 ? d2 : d1, k * 256); }
    lookup("a", 24);
}
VX_ENTRY_S(order5, setup) { orders(5, vx_pick(vx_range("gaps", 0, vx_thorough() ? 15 : 5))); }
VX_ENTRY_S(order6, setup) { orders(6, vx_thorough() ? vx_pick(vx_range("gaps", 0, 31)) : vx_pick(vx_range("gaps", 0, 1)) * 21); }
// what may be mapped where
VX_ENTRY_S(valid, setup) {
    uint64_t s = vx_u64("s"), e = vx_u64("e"), off = vx_u64("off"); D* d = d1; 
    bool al = !(s & (BS - 1)) && !(e & (BS - 1)) && !(off & (BS - 1)), fits = s < e && off <= (1 << 20) && e - s <= (1 << 20) - off;
    if (!(al && fits)) { static const uint64_t S[] = {0, 8, 8, 4, 4, 0, 1, 0, 0, 8, 0}, E[] = {0, 8, 4, 6, 8, (1 << 20) + 4, 8, 1 << 20, 8, ~3ull, 8}, O[] = {0, 0, 0, 0, 2, 0, 0, 4, ~3ull, 1 << 19, 1 << 20};
        uint64_t k = vx_pick(vx_range("k", 0, 10)); VX_CHECK(throws_([&] { mp->addMapping(S[k], E[k], d, O[k]); }), "a mapping that is not block aligned, is empty or exceeds its destination is rejected"); VX_CHECK(mp->getNumMappings() == 0 && !mp->findMapping(0), "and not added"); vx_reach("rejected"); return; }
    mp->addMapping(s, e, d, off); ref.push_back({s, e, d, off});
    uint64_t a = vx_u64("a"); bool in = a >= s && a < e; auto* f = mp->findMapping(a); VX_CHECK((f != nullptr) == in, "an address finds the mapping that contains it"); if (f) VX_CHECK(mp->mapAddress(a).second == a - s + off, "an address is moved by the mapping's offset");
    VX_CHECK(throws_([&] { mp->addMapping(0, BS, nullptr, 0); }), "a mapping needs a destination"); D w(64, 8); VX_CHECK(throws_([&] { mp->addMapping(0, 8, &w, 0); }), "of the same block size"); vx_reach("end");
}
// accesses through the map
static SimpleMemoryMapNode* nd; static MemoryObject *m1, *m2; static BlockingMemoryObjectIFNode *b1, *b2; static uint8_t r1[16], r2[16];
static void setup_n() { env::base(); m1 = new MemoryObject(env::R, BS, 16, 0x11, 1); m2 = new MemoryObject(env::R, BS, 16, 0x22, 1); b1 = new BlockingMemoryObjectIFNode(env::R, "ba", "d", nullptr, *m1); b2 = new BlockingMemoryObjectIFNode(env::R, "bb", "d", nullptr, *m2);
    nd = new SimpleMemoryMapNode(env::R, "map", "d", BS, 40); env::R->enterConfiguring(); env::R->enterFinalized(); memset(r1, 0x11, 16); memset(r2, 0x22, 16); }
VX_ENTRY_S(access, setup_n) {
    // 4..12 -> m1 + 4, 12..20 -> m2 + 0, 24..32 -> m1 + 8 (overlaps in the destination)
    static const int P[6][3] = {{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}}; uint64_t p = vx_thorough() ? vx_pick(vx_range("perm", 0, 5)) : vx_pick(vx_range("perm", 0, 1)) * 3;
    for (int i : P[p]) { if (i == 0) nd->addMapping(4, 12, b1, 4); else if (i == 1) nd->addMapping(12, 20, b2, 0); else nd->addMapping(24, 32, b1, 8); }
    uint8_t d[8]; vx_bytes(d, 8, "d"); 
    for (int i = 0; i < 2; i++) {
        uint64_t op = vx_pick(vx_range(i ? "op2" : "op1", 0, 3)), a = vx_u64(i ? "a2" : "a1"), n = vx_pick(vx_range(i ? "n2" : "n1", 1, 5)); n = vx_pick(n); if (!vx_thorough()) vx_assume(i ? n == 4 || n == 5 : n != 2 && n != 3); 
        bool pk = op >= 2, in = a <= 40 && n <= 40 - a; uint8_t b[8] = {}; 
        auto where = [&](uint64_t x) -> uint8_t* { return x >= 4 && x < 12 ? r1 + x : x >= 12 && x < 20 ? r2 + x - 12 : x >= 24 && x < 32 ? r1 + x - 16 : nullptr; };
        bool ok = in && (pk || (a & ~(BS - 1)) == ((a + n - 1) & ~(BS - 1))); if (ok) { if (i && !vx_thorough()) vx_assume(a == 8 || a == 11 || a == 12 || a == 24); a = vx_pick(a); for (uint64_t j = 0; j < n; j++) if (!where(a + j)) ok = false; }
        if (pk && !ok && in) vx_assume(op == 3); // a poke that leaves the mappings may have written some blocks
        bool r = op == 0 ? nd->tryWrite(a, n, d + i) : op == 1 ? nd->tryRead(a, n, b) : op == 2 ? nd->tryPoke(a, n, d + i) : nd->tryPeek(a, n, b);
        VX_CHECK(r == ok, "an access succeeds exactly when its bytes are mapped (and within one block)");
        if (ok) for (uint64_t j = 0; j < n; j++) { uint8_t* x = where(a + j); if (op & 1) VX_CHECK(b[j] == *x, "a read gives the destination's bytes"); else *x = d[i + j]; }
    }
    uint8_t c[16]; b1->peek(0, 16, c); VX_CHECK(!memcmp(c, r1, 16), "a write changes exactly the destination's bytes"); b2->peek(0, 16, c); VX_CHECK(!memcmp(c, r2, 16), "a write changes exactly the destination's bytes"); vx_reach("end");
}
VX_ENTRY_S(direct, setup_n) {
    nd->addMapping(4, 12, b1, 4); nd->addMapping(12, 20, b2, 0);
    uint64_t a = vx_u64("a"); DMIBlockingMemoryIF* f = nullptr; bool in = a >= 4 && a < 20; if (in) a = vx_pick(a); bool th = throws_([&] { f = nd->getDMI(a, 1); }); VX_CHECK(!th, "asking for a direct interface does not throw");
    VX_CHECK((f != nullptr) == in, "a direct interface exactly for mapped addresses"); if (f) VX_CHECK(f == (a < 12 ? b1->getDMI(a, 1) : b2->getDMI(a - 12, 1)), "and it is the destination's"); vx_reach("end");
}
