#include "lite.h"
#include "cache/SimpleCache.hpp"
#include "cache/LineData.hpp"
#include "cache/LRUReplacement.hpp"
#include "cache/TreePLRUReplacement.hpp"
#include <cstring>
using namespace sparta; using namespace sparta::cache;
// NB bytes at the start of each of NK blocks are modelled; the blocks are any distinct ones of the address space
static const int NK = 4, NB = 4; static const char* DN[] = {"d0", "d1", "d2", "d3", "d4", "d5", "d6", "d7"};
static uint64_t line_, sets, ways; static uint64_t blk[NK], tag[NK]; static int set_[NK];
static uint8_t low[NK][NB];                 // the next level
struct L { int k = -1; bool dirty = false; uint8_t d[NB]; }; static std::vector<L> res[2]; // resident lines by way
static std::vector<uint32_t> order[2];      // least recently used first
static bool lru, wt, wa;
struct St { uint64_t co = 0, rl = 0, rd = 0, wr = 0, rm = 0, wm = 0, wn = 0, gm = 0; }; static St st;
static int key(uint64_t b) { for (int k = 0; k < NK; k++) if (blk[k] == b) return k; return -1; }
static int cast = -1, casts = 0, rels = 0, nexts = 0; static int want = -1; static int evict = -1;
struct SC : SimpleCache<LineData> {
    using SimpleCache::SimpleCache;
    void castout_(const LineData& l) override {
        SimpleCache::castout_(l); casts++; VX_CHECK(l.isValid() && l.isModified(), "only modified lines are written back");
        cast = key(l.getAddr()); VX_CHECK(cast >= 0, "a line written back carries the address of its block"); if (cast < 0) return;
        uint8_t b[NB]; l.read(0, NB, b); memcpy(low[cast], b, NB); VX_CHECK(rels == 0, "a victim is written back before its line is reloaded");
    }
    void reload_(uint64_t a, LineData& l) override {
        VX_CHECK(a == blk[want], "the block that was asked for is loaded"); rels++; evict = l.getWay();
        VX_CHECK(l.getSetIndex() == (uint32_t)set_[want], "into its set"); SimpleCache::reload_(a, l); l.write(0, NB, low[want]);
    }
    void writeNextLevel_(uint64_t a, uint32_t n, const uint8_t* b) override { SimpleCache::writeNextLevel_(a, n, b); nexts++; uint64_t o = a - blk[want]; VX_CHECK(o + n <= NB, "a write passed on keeps its address"); memcpy(&low[want][o], b, n); }
};
static SC* c;
static void touch(int s, uint32_t w, bool mru) { auto& o = order[s]; o.erase(std::find(o.begin(), o.end(), w)); o.insert(mru ? o.end() : o.begin(), w); }
static int where(int k) { auto& r = res[set_[k]]; for (size_t w = 0; w < r.size(); w++) if (r[w].k == k) return w; return -1; }
static void fill(int k) { // after a miss
    int s = set_[k]; VX_CHECK(rels == 1, "a miss loads the line once"); if (rels != 1) return; st.rl++;
    if (lru) VX_CHECK(evict == (int)order[s][0], "the least recently used way is replaced");
    L& l = res[s][evict]; bool d = l.k >= 0 && l.dirty; VX_CHECK(casts == (int)d, "a modified victim is written back, once, and nothing else is"); st.co += d;
    if (d) { VX_CHECK(cast == l.k, "it is the victim that is written back"); VX_CHECK(!memcmp(low[l.k], l.d, NB), "with the bytes it held"); }
    l.k = k; l.dirty = false; memcpy(l.d, low[k], NB);
}
static void checks() {
    for (int k = 0; k < NK; k++) {
        int w = where(k); VX_CHECK(c->isHit(blk[k]) == (w >= 0), "a block hits exactly when it is in the cache");
        const LineData* l = c->peekLine(blk[k] + 3); VX_CHECK((l != nullptr) == (w >= 0), "and can be looked up exactly then");
        if (l && w >= 0) { auto& m = res[set_[k]][w]; uint8_t b[NB]; l->read(0, NB, b); VX_CHECK(!memcmp(b, m.d, NB) && l->getWay() == (uint32_t)w && l->isModified() == m.dirty && l->getAddr() == blk[k], "with its latest bytes and state"); }
        bool nc = true, di = false; uint64_t ca = 0; bool h = c->isHitWithCastout(blk[k], nc, ca, di); VX_CHECK(h == (w >= 0), "isHitWithCastout agrees");
        if (h) VX_CHECK(!nc, "a hit replaces nothing");
        else if (lru) { L& v = res[set_[k]][order[set_[k]][0]]; VX_CHECK(nc == (v.k >= 0), "a miss tells whether a valid line will be replaced"); if (nc && v.k >= 0) VX_CHECK(di == v.dirty && ca == blk[v.k], "which and whether it is modified"); }
    }
    VX_CHECK(c->getNumCastouts() == st.co && c->getNumReloads() == st.rl && c->getNumReads() == st.rd && c->getNumWrites() == st.wr && c->getNumReadMisses() == st.rm && c->getNumWriteMisses() == st.wm && c->getNumWriteNextLevel() == st.wn && c->getNumGetLineMisses() == st.gm, "the statistics count what happened");
}
static void begin(int k) { casts = rels = nexts = 0; cast = -1; want = k; }
static void quiet() { VX_CHECK(rels == 0 && casts == 0, "a hit loads and writes back nothing"); }
static int vn;
static bool rw;
static void op(int s) {
    static const char* ON[] = {"o1", "o2", "o3", "o4", "o5", "o6", "o7"}; static const char* KN[] = {"k1", "k2", "k3", "k4", "k5", "k6", "k7"};
    uint64_t o = vx_pick(vx_range(ON[s], 0, rw || s == 0 ? 1 : 4)); int k = o == 4 ? 0 : vx_pick(vx_range(KN[s], 0, std::min<int>(s, NK - 1))); int w = where(k), ss = set_[k]; begin(k);
    if (o == 0) { // read
        uint8_t b[NB]; uint8_t cur[NB]; memcpy(cur, w >= 0 ? res[ss][w].d : low[k], NB); VX_CHECK(c->read(blk[k] + 1, 2, b), "a read succeeds"); VX_CHECK(b[0] == cur[1] && b[1] == cur[2], "a read gives the bytes last written"); st.rd++;
        if (w < 0) { st.rm++; fill(k); } else quiet(); VX_CHECK(nexts == 0, "a read writes nothing to the next level"); touch(ss, where(k), true);
    } else if (o == 1) { // write
        uint8_t v[2]; vx_bytes(v, 2, DN[vn++]); uint64_t off = (s & 1) ? 2 : 1; uint8_t exp[NB]; memcpy(exp, low[k], NB); VX_CHECK(c->write(blk[k] + off, 2, v), "a write succeeds"); st.wr++;
        bool nx = wt || (w < 0 && !wa); 
        if (w < 0) { st.wm++; if (wa) { if (wt) memcpy(&low[k][off], &exp[off], 2); fill(k); } else quiet(); } else quiet();
        VX_CHECK(nexts == (int)nx, "a write goes on to the next level when the cache is write-through or does not allocate"); st.wn += nx; if (nx) memcpy(&exp[off], v, 2);
        if (nx) memcpy(&low[k][off], v, 2);
        VX_CHECK(!memcmp(low[k], exp, NB), "the next level receives exactly the bytes written");
        int nw = where(k); if (nw >= 0) { memcpy(&res[ss][nw].d[off], v, 2); res[ss][nw].dirty = true; touch(ss, nw, true); }
    } else if (o == 2) { LineData* l = c->getLine(blk[k] + 5); if (w < 0) { st.gm++; fill(k); } else quiet(); VX_CHECK(l && l->getAddr() == blk[k] && l->isValid(), "getLine gives the block's line"); touch(ss, where(k), true); }
    else if (o == 3) { bool t = throws_([&] { c->invalidateLine(blk[k] + 2); }); VX_CHECK(t == (w < 0), "only a line in the cache can be invalidated"); quiet(); if (w >= 0) { res[ss][w].k = -1; touch(ss, w, false); } }
    else { c->invalidateAll(); quiet(); for (auto& r : res) for (auto& l : r) l.k = -1; }
    checks();
}
static void history(int N) {
    lru = !vx_pick(vx_bool("plru")); wt = vx_pick(vx_bool("wt")); wa = vx_pick(vx_bool("wa")); uint64_t g = vx_pick(vx_range("geom", 0, 2));
    sets = g == 1 ? 2 : 1; ways = g == 2 ? 1 : 2; line_ = 1024 / (sets * ways);
    static const char* BN[] = {"b0", "b1", "b2", "b3"};
    for (int k = 0; k < NK; k++) { set_[k] = sets == 1 ? 0 : (k == 3 ? 1 : 0); int sh = 10 - (ways == 2 ? 1 : 0); tag[k] = (vx_u64(BN[k]) << sh) >> sh; blk[k] = (tag[k] << sh) + set_[k] * line_; for (int j = 0; j < k; j++) if (set_[j] == set_[k]) vx_assume(tag[j] != tag[k]); for (int i = 0; i < NB; i++) low[k][i] = 16 * k + i; }
    LineData dl(line_); if (lru) c = new SC(1, line_, line_, dl, LRUReplacement(ways)); else c = new SC(1, line_, line_, dl, TreePLRUReplacement(ways));
    c->setWriteThroughMode(wt); c->setWriteAllocateMode(wa);
    for (uint64_t s = 0; s < sets; s++) { res[s].resize(ways); for (uint64_t w = 0; w < ways; w++) order[s].push_back(w); }
    for (int s = 0; s < N; s++) op(s); vx_reach("end");
}
VX_ENTRY(all_operations) { history(vx_thorough() ? 5 : 4); }
VX_ENTRY(reads_writes) { rw = true; history(vx_thorough() ? 6 : 5); }
