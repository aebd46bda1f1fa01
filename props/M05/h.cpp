#include "common.h"
#include "sparta/memory/CachedMemory.hpp"
using namespace sparta; using namespace sparta::memory;
static const uint64_t BS = 4, TS = 12; static const int NC = 2;
typedef CachedMemory<> CM;
static CM* c[NC]; static int vn;
static void fresh(uint8_t* p, size_t n) { char nm[8] = {'d', char('0' + vn / 10), char('0' + vn % 10), 0}; vn++; vx_bytes(p, n, nm); }
// main memory; as documented, it tells the other cores about every committed write
struct Down : BlockingMemoryIF {
    MemoryObject m; Down() : BlockingMemoryIF("down", BS, DebugMemoryIF::AccessWindow(0, TS)), m(nullptr, BS, TS, 0x5a, 1) {}
    int writes = 0; bool before = false;
    bool tryRead_(addr_t a, addr_t n, uint8_t* b, const void*, void*) override { m.read(a, n, b); return true; }
    bool tryWrite_(addr_t a, addr_t n, const uint8_t* b, const void* who, void*) override { writes++; if (!before) m.write(a, n, b); for (int i = 0; i < NC; i++) if (c[i] && (const void*)c[i] != who) c[i]->mergeWrite(a, n, b); if (before) m.write(a, n, b); return true; }
    bool tryPeek_(addr_t a, addr_t n, uint8_t* b) const override { m.read(a, n, b); return true; }
    bool tryPoke_(addr_t a, addr_t n, const uint8_t* b) override { m.write(a, n, b); return true; }
};
static Down* dn; static uint8_t mem[TS];     // committed bytes
struct W { uint64_t a, n; uint8_t d[BS]; uint64_t id; }; static std::vector<W> out[NC]; // uncommitted writes, oldest first
static void setup() { dn = new Down; for (int i = 0; i < NC; i++) c[i] = new CM("c", i + 1, 4, BS, TS, dn); memset(mem, 0x5a, TS); }
static void view(int i, uint8_t* v) { memcpy(v, mem, TS); for (auto& w : out[i]) memcpy(v + w.a, w.d, w.n); }
static void check() {
    for (int i = 0; i < NC; i++) {
        uint8_t v[TS], b[TS]; view(i, v);
        c[i]->peek(0, TS, b); VX_CHECK(!memcmp(b, v, TS), "a core peeks the committed bytes under its own uncommitted writes");
        for (uint64_t k = 0; k < TS; k += BS) { c[i]->read(k, BS, b); VX_CHECK(!memcmp(b, v + k, BS), "a core reads the same"); }
        VX_CHECK(c[i]->getNumOutstandingWrites() == out[i].size(), "the uncommitted writes are counted");
        size_t j = 0; for (auto& o : c[i]->getOutstandingWrites()) { auto& w = out[i][j++]; VX_CHECK(o.second.getPAddr() == w.a && o.second.getSize() == w.n && !memcmp(o.second.getStoreDataPtr(), w.d, w.n) && o.first == w.id, "and listed oldest first"); }
    }
    uint8_t b[TS]; dn->peek(0, TS, b); VX_CHECK(!memcmp(b, mem, TS), "main memory holds exactly the committed bytes");
}
static void shape(int k, uint64_t& a, uint64_t& n) { static const uint64_t A[] = {4, 6, 5, 0, 7}, N[] = {4, 2, 2, 3, 1}; a = A[k]; n = N[k]; }
static void write(int i, int k) {
    W w; shape(k, w.a, w.n); fresh(w.d, w.n); c[i]->write(w.a, w.n, w.d); w.id = c[i]->getLastOutstandingWrite().getWriteID();
    for (int q = 0; q < NC; q++) for (auto& x : out[q]) VX_CHECK(x.id != w.id, "write ids are unique");
    out[i].push_back(w);
}
static void commit(int i) { StoreData s = c[i]->getOutstandingWrites().begin()->second; auto w = out[i][0]; c[i]->commitWrite(s); memcpy(mem + w.a, w.d, w.n); out[i].erase(out[i].begin()); }
static void drop(int i, size_t k) { auto it = c[i]->getOutstandingWrites().begin(); std::advance(it, k); StoreData s = it->second; c[i]->dropWrite(s); out[i].resize(k); }
static void poke(int i, int k) { // where nobody has an uncommitted write or a copy
    uint64_t a, n; shape(k, a, n); for (auto& w : out[i]) vx_assume(w.a + w.n <= a || a + n <= w.a);
    uint8_t d[BS]; fresh(d, n); c[i]->poke(a, n, d); memcpy(mem + a, d, n); for (int q = 0; q < NC; q++) if (q != i) c[q]->mergeWrite(a, n, d); }
static void history(int N, bool two) {
    static const char* ON[] = {"o1", "o2", "o3", "o4", "o5", "o6"}; static const char* KN[] = {"k1", "k2", "k3", "k4", "k5", "k6"}; static const char* IN[] = {"i1", "i2", "i3", "i4", "i5", "i6"};
    dn->before = vx_pick(vx_bool("before")) && two; if (!two) vx_assume(!dn->before);
    for (int s = 0; s < N; s++) {
        int i = two ? vx_pick(vx_bool(IN[s])) : 0;
        uint64_t op = vx_pick(vx_range(ON[s], 0, 3));
        if (op == 0) write(i, vx_pick(vx_range(KN[s], 0, two ? 2 : 4)));
        else if (op == 1) { if (out[i].empty()) vx_assume(false); commit(i); }
        else if (op == 2) { if (out[i].empty()) vx_assume(false); drop(i, vx_pick(vx_range(KN[s], 0, out[i].size() - 1))); }
        else { int k = vx_pick(vx_range(KN[s], 1, two ? 2 : 3)); poke(i, k); }
        check();
    }
    while (!out[0].empty()) { commit(0); check(); } while (NC > 1 && !out[1].empty()) drop(1, 0); check(); vx_reach("end");
}
VX_ENTRY_S(one_core, setup) { history(vx_thorough() ? 5 : 4, false); }
VX_ENTRY_S(two_cores, setup) { history(vx_thorough() ? 5 : 4, true); }
// requests that are refused
VX_ENTRY_S(refused, setup) {
    int n = vx_pick(vx_range("n", 0, 4)); for (int k = 0; k < n; k++) write(0, k % 3);
    uint8_t d[BS] = {1, 2, 3, 4};
    VX_CHECK(throws_([&] { c[0]->write(4, 4, d); }) == (n == 4), "more uncommitted writes than the watermark are refused");
    if (n < 4) { W w; w.a = 4; w.n = 4; memcpy(w.d, d, 4); w.id = c[0]->getLastOutstandingWrite().getWriteID(); out[0].push_back(w); n++; }
    check();
    uint64_t id = vx_u64("id"); bool first = id == out[0][0].id, any = false; for (auto& w : out[0]) any |= w.id == id; 
    if (!any) id = vx_pick(id & 7 ? 3 : 1ull << 60); else id = vx_pick(id); 
    if (!any) for (auto& w : out[0]) vx_assume(w.id != id);
    StoreData s(id, 4, 4, d, nullptr, nullptr);
    if (vx_pick(vx_bool("commit"))) { bool t = throws_([&] { c[0]->commitWrite(s); }); VX_CHECK(t == !first, "only the oldest write can be committed"); if (!t) { auto w = out[0][0]; memcpy(mem + w.a, w.d, w.n); out[0].erase(out[0].begin()); } }
    else { bool t = throws_([&] { c[0]->dropWrite(s); }); VX_CHECK(t == !any, "only an uncommitted write can be dropped"); if (!t) { size_t k = 0; while (out[0][k].id != id) k++; out[0].resize(k); } }
    check(); 
    VX_CHECK(throws_([&] { c[1]->commitWrite(s); }) && throws_([&] { c[1]->dropWrite(s); }), "nothing to commit or drop"); check(); vx_reach("end");
}
VX_ENTRY_S(search, setup) {
    for (int k = 0; k < 3; k++) { static const char* N[] = {"k1", "k2", "k3"}; write(0, vx_pick(vx_range(N[k], 0, 4))); }
    uint64_t a = vx_u64("a"); auto r = c[0]->getOutstandingWritesForAddr(a); size_t j = 0;
    for (auto& w : out[0]) if (a >= w.a && a < w.a + w.n) { VX_CHECK(j < r.size() && r[j].getWriteID() == w.id && !memcmp(r[j].getStoreDataPtr(), w.d, w.n), "the writes covering an address are found, oldest first"); j++; }
    VX_CHECK(j == r.size(), "and no others"); vx_reach("end");
}
