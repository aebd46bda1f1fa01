#include "common.h"
#include "sparta/functional/ArchData.hpp"
#include "sparta/serialization/checkpoint/FastCheckpointer.hpp"
#include "sparta/serialization/checkpoint/PersistentFastCheckpointer.hpp"
#include <sstream>
using namespace sparta; using namespace sparta::serialization::checkpoint;
typedef FastCheckpointer::chkpt_id_t Id;
static const int LN = 8, AL = 5, BL = 2;                 // line size; lines of the two ArchDatas
struct State { uint64_t a[AL], b[BL]; };
static ArchData *A, *B; static TreeNode *NA, *NB; static State cur; static int vn;
static const uint64_t FILL = 0x5a5a5a5a5a5a5a5aull;
static void mk(bool free_a) {
    env::base();
    NA = new TreeNode(env::R, "na", "d"); NB = new TreeNode(NA, "nb", "d");
    A = new ArchData(NA, LN, 0x5a, 1, free_a); A->layoutRange(AL * LN);
    B = new ArchData(NB, LN, 0x5a5a, 2, true); B->layoutRange(BL * LN);
    for (auto& x : cur.a) x = FILL;
    for (auto& x : cur.b) x = FILL;
}
static bool conc;   // streams are precompiled: fixed distinct data there
static uint64_t sym() { if (conc) return 0x0a200d4c45000100ull * ++vn + 0x1d; char n[8] = {'v', char('0' + vn / 10), char('0' + vn % 10), 0}; vn++; return vx_u64(n); }
static void wr(ArchData* d, uint64_t* m, int l) { uint64_t v = sym(); m[l] = v; d->getLine(l * LN + 3).write<uint64_t, LE>(0, v); }
static void wa(int l) { wr(A, cur.a, l); }
static void wb(int l) { wr(B, cur.b, l); }
static uint64_t rd(ArchData* d, int l) { const ArchData::Line* x = d->tryGetLine(l * LN); return x ? x->read<uint64_t, LE>(0) : FILL; }
static void same(const State& s) {
    for (int i = 0; i < AL; i++) VX_CHECK(rd(A, i) == s.a[i], "every byte is as it was when the checkpoint was taken");
    for (int i = 0; i < BL; i++) VX_CHECK(rd(B, i) == s.b[i], "every byte is as it was when the checkpoint was taken (second ArchData)");
}
struct Hist {
    FastCheckpointer& f; struct C { Id id; State s; int parent; bool snap, alive; uint64_t tick; }; std::vector<C> c; int at = 0;
    Hist(FastCheckpointer& f) : f(f) {}
    void head() { f.createHead(); c.push_back({f.getHeadID(), cur, -1, true, true, f.getScheduler() ? f.getScheduler()->getCurrentTick() : 0}); at = 0; }
    void take(bool snap) {
        Id id = f.createCheckpoint(snap); 
        for (auto& x : c) VX_CHECK(x.id != id, "checkpoint ids are never reused");
        c.push_back({id, cur, at, snap, true, f.getScheduler() ? f.getScheduler()->getCurrentTick() : 0}); at = c.size() - 1;
        VX_CHECK(f.getCurrentID() == id, "a new checkpoint is the current one");
    }
    void load(int i) {
        f.loadCheckpoint(c[i].id); at = i; cur = c[i].s; 
        VX_CHECK(f.getCurrentID() == c[i].id, "a loaded checkpoint is the current one");
        VX_CHECK(f.getCurrentTick() == c[i].tick, "the current tick is the loaded checkpoint's");
        if (f.getScheduler()) VX_CHECK(f.getScheduler()->getCurrentTick() == c[i].tick, "the scheduler restarts at the checkpoint's tick");
        same(cur);
    }
    void del(int i) { f.deleteCheckpoint(c[i].id); c[i].alive = false; }
    void queries() {
        std::vector<Id> w; for (auto& x : c) if (x.alive) w.push_back(x.id);
        VX_CHECK(f.getCheckpoints() == w, "the checkpoints listed are exactly those taken and not deleted");
        VX_CHECK(f.getNumCheckpoints() == w.size(), "the checkpoint count is exact");
        unsigned sn = 0; for (auto& x : c) if (x.alive && f.findCheckpoint(x.id)->isSnapshot()) sn++;
        VX_CHECK(f.getNumSnapshots() == sn && f.getNumDeltas() == w.size() - sn, "snapshot and delta counts are exact");
        VX_CHECK(f.getTotalCheckpointsCreated() == c.size(), "the number of checkpoints ever created is exact");
        for (auto& x : c) if (x.alive) {
            VX_CHECK(f.hasCheckpoint(x.id), "an existing checkpoint is found");
            auto ch = f.getCheckpointChain(x.id);
            VX_CHECK(ch.front() == x.id && ch.back() == c[0].id, "the chain of a checkpoint leads to the head");
            std::vector<Id> al; for (int k = &x - &c[0]; k >= 0; k = c[k].parent) if (c[k].alive) al.push_back(c[k].id);
            ch.erase(std::remove(ch.begin(), ch.end(), Checkpoint::UNIDENTIFIED_CHECKPOINT), ch.end());
            VX_CHECK(std::vector<Id>(ch.begin(), ch.end()) == al, "the chain lists exactly the surviving ancestors");
            std::vector<Id> at_; for (auto& y : c) if (y.alive && y.tick == x.tick) at_.push_back(y.id);
            VX_CHECK(f.getCheckpointsAt(x.tick) == at_, "checkpoints at a tick are exactly those taken then");
        }
        VX_CHECK(f.getHeadID() == c[0].id, "the head stays the first checkpoint");
    }
    void all() { for (size_t i = c.size(); i-- > 0;) if (c[i].alive) { load(i); } queries(); }
    int pick(const char* n, bool with_head = true) { // an existing checkpoint
        std::vector<int> o; for (size_t i = with_head ? 0 : 1; i < c.size(); i++) if (c[i].alive) o.push_back(i);
        return o[vx_pick(vx_range(n, 0, o.size() - 1))]; }
};
static void history(FastCheckpointer& f, int N, int D, bool ticks) {
    Hist h(f); wa(0); wb(0); h.head();
    static const char* PN[] = {"p1", "p2", "p3", "p4"}; static const char* SN[] = {"s1", "s2", "s3", "s4"}; static const char* DN[] = {"d1", "d2", "d3"};
    for (int i = 0; i < N; i++) {
        int p = h.pick(PN[i]); if (p != h.at) h.load(p);
        if (ticks) env::run(i + 1);
        wa(0); if (i & 1) wb(1); else wa(i + 1);
        h.take(vx_pick(vx_bool(SN[i])));
    }
    int l = vx_pick(vx_range("cur", 0, h.c.size() - 1)); if (l != h.at) h.load(l);
    wa(4);      // not saved by any checkpoint yet
    for (int i = 0; i < D; i++) {
        std::vector<int> o; for (size_t k = 1; k < h.c.size(); k++) if (h.c[k].alive) o.push_back(k);
        int k = vx_pick(vx_range(DN[i], 0, o.size())); if (k == (int)o.size()) break;
        h.del(o[k]); h.queries(); same(cur);
    }
    wb(0); h.take(vx_pick(vx_bool("slast")));
    h.all(); vx_reach("end");
}
static FastCheckpointer* fc;
static void setup_f() { mk(true); env::finalize(); fc = new FastCheckpointer(*env::R, nullptr); }
static void setup_n() { mk(false); env::finalize(); fc = new FastCheckpointer(*env::R, nullptr); }
static void setup_t() { mk(true); env::go(1); fc = new FastCheckpointer(*env::R, env::S); }
VX_ENTRY_S(deletions, setup_f) { history(*fc, vx_thorough() ? 4 : 3, 3, false); }
VX_ENTRY_S(no_free, setup_n) { history(*fc, 2, 2, false); }
VX_ENTRY_S(ticks, setup_t) { history(*fc, vx_thorough() ? 3 : 2, 1, true); }
// which lines are written between checkpoints, automatic snapshots
static void lines() {
    fc->setSnapshotThreshold(vx_pick(vx_range("threshold", 0, 2)));
    Hist h(*fc); if (vx_pick(vx_bool("w0"))) wa(4); h.head(); int n = vx_thorough() ? 3 : 2;
    for (int i = 0; i < n; i++) {
        static const char* N[] = {"m1", "m2", "m3"}; uint64_t m = vx_pick(vx_range(N[i], 0, 7));
        if (m & 1) wa(4); if (m & 2) wa(2); if (m & 4) wb(1);
        h.take(false);
    }
    int l = vx_pick(vx_range("l", 0, n)); h.load(l);
    uint64_t m = vx_pick(vx_range("m4", 0, 3)); if (m & 1) wa(2); if (m & 2) wb(1);
    h.take(false); h.all(); vx_reach("end");
}
VX_ENTRY_S(lines_free, setup_f) { lines(); }
VX_ENTRY_S(lines_keep, setup_n) { lines(); }
// resetting an ArchData between checkpoints
static void resets() {
    Hist h(*fc); wa(0); wa(1); h.head();
    wa(2); h.take(vx_pick(vx_bool("s1")));
    if (vx_pick(vx_bool("wr"))) wa(3);
    if (vx_pick(vx_bool("clean"))) A->clean(); else A->reset();
    for (auto& x : cur.a) x = FILL;
    same(cur);
    if (vx_pick(vx_bool("w"))) wa(1);
    h.take(vx_pick(vx_bool("s2"))); wa(0); h.take(false);
    h.all(); vx_reach("end");
}
VX_ENTRY_S(reset_free, setup_f) { resets(); }
VX_ENTRY_S(reset_keep, setup_n) { resets(); }
// rejected requests
VX_ENTRY_S(rejects, setup_t) {
    FastCheckpointer& f = *fc; Hist h(f);
    VX_CHECK(f.getHead() == nullptr && f.getHeadID() == Checkpoint::UNIDENTIFIED_CHECKPOINT && f.getNumCheckpoints() == 0, "no head at first");
    env::run(2); wa(0); 
    if (vx_pick(vx_bool("implicit"))) { Id id = f.createCheckpoint(); Id hd = f.getHeadID(); h.c.push_back({hd, cur, -1, true, true, f.getScheduler()->getCurrentTick()}); h.c.push_back({id, cur, 0, false, true, f.getScheduler()->getCurrentTick()}); h.at = 1; }
    else { h.head(); wa(1); env::run(1); h.take(false); }
    VX_CHECK(throws_([&] { f.createHead(); }), "a second head is rejected");
    uint64_t bad = vx_u64("id"); vx_assume(bad != h.c[0].id && bad != h.c[1].id); bad = vx_pick(bad >= 3 ? 3 + (bad & 1) : bad);
    bool t = throws_([&] { f.loadCheckpoint(bad); }); VX_CHECK(t && !f.hasCheckpoint(bad), "loading an unknown checkpoint is rejected");
    VX_CHECK(throws_([&] { f.deleteCheckpoint(bad); }), "deleting an unknown checkpoint is rejected");
    VX_CHECK(throws_([&] { f.deleteCheckpoint(Checkpoint::UNIDENTIFIED_CHECKPOINT); }), "deleting no checkpoint is rejected");
    VX_CHECK(throws_([&] { f.deleteCheckpoint(f.getHeadID()); }), "the head cannot be deleted");
    same(cur); h.queries();
    uint64_t tk = f.getScheduler()->getCurrentTick();
    uint64_t back = vx_pick(vx_range("back", 0, tk)); env::S->restartAt(back); wa(2);
    bool rej = throws_([&] { f.createCheckpoint(); });
    VX_CHECK(rej == (back < h.c[1].tick), "a checkpoint earlier than the current one is rejected");
    if (!rej) { h.c.push_back({f.getCurrentID(), cur, 1, false, true, back}); h.at = 2; }
    h.all(); vx_reach("end");
}
// search by tick
VX_ENTRY_S(by_tick, setup_t) {
    FastCheckpointer& f = *fc; Hist h(f); h.head();
    for (int i = 0; i < 3; i++) { static const char* N[] = {"t1", "t2", "t3"}; env::run(vx_pick(vx_range(N[i], 0, 2))); h.take(false); }
    int d = vx_pick(vx_range("del", 0, 3)); if (d) h.del(d);
    int from = h.pick("from"); uint64_t q = vx_pick(vx_range("q", 0, 8));
    auto* r = f.findLatestCheckpointAtOrBefore(q, h.c[from].id);
    int w = from; while (w >= 0 && (h.c[w].tick > q || !h.c[w].alive)) w--;
    VX_CHECK(w < 0 ? r == nullptr : r && r->getID() == h.c[w].id, "the latest existing checkpoint at or before a tick is found");
    h.queries(); vx_reach("end");
}
// through a stream
static PersistentFastCheckpointer* pc;
static void setup_p() { mk(true); env::finalize(); pc = new PersistentFastCheckpointer(*env::R, nullptr); }
static void setup_pn() { mk(false); env::finalize(); pc = new PersistentFastCheckpointer(*env::R, nullptr); }
static void persist() {
    conc = true; Hist h(*pc); wa(0); wb(0);
    std::stringstream st, st2; State s1, s2;
    h.head();
    if (vx_pick(vx_bool("d0"))) { wa(1); h.take(false); }
    wa(2); wb(1); s1 = cur; Id id = pc->save(st); h.c.push_back({id, cur, h.at, true, true, 0}); h.at = h.c.size() - 1; same(cur);
    if (vx_pick(vx_bool("w1"))) wa(2);
    if (vx_pick(vx_bool("w2"))) { wa(3); wb(0); }
    if (vx_pick(vx_bool("d1"))) h.take(false);
    pc->restore(st); cur = s1; same(cur);
    wa(1); h.take(false); if (vx_pick(vx_bool("d2"))) { wa(0); h.take(false); }
    h.all(); vx_reach("end");
}
VX_ENTRY_S(saved, setup_p) { persist(); }
VX_ENTRY_S(saved_keep, setup_pn) { persist(); }
// a fresh simulation restores a saved state
VX_ENTRY_S(fresh, setup_p) {
    conc = true;
    wa(0); wa(3); wb(1); State s = cur; std::stringstream st; pc->save(st);
    RootTreeNode* r2 = new RootTreeNode("top2"); Scheduler* s2 = new Scheduler; Clock* c2 = new Clock("c2", s2); r2->setClock(c2);
    TreeNode* na = new TreeNode(r2, "na", "d"); TreeNode* nb = new TreeNode(na, "nb", "d");
    ArchData* a = new ArchData(na, LN, 0x11, 1, vx_pick(vx_bool("free"))); a->layoutRange(AL * LN);
    ArchData* b = new ArchData(nb, LN, 0x11, 1, true); b->layoutRange(BL * LN);
    r2->enterConfiguring(); r2->enterFinalized();
    PersistentFastCheckpointer p2(*r2, nullptr);
    A = a; B = b; if (vx_pick(vx_bool("old"))) { A->getLine(8).write<uint64_t, LE>(0, 0x77); B->getLine(8).write<uint64_t, LE>(0, 0x78); }
    if (vx_pick(vx_bool("head"))) p2.createHead();
    p2.restore(st);
    for (int i = 0; i < AL; i++) if (i == 0 || i == 3) VX_CHECK(rd(A, i) == s.a[i], "a fresh simulation restores a saved state");
    VX_CHECK(rd(B, 1) == s.b[1], "a fresh simulation restores a saved state (second ArchData)");
    vx_reach("end");
}
// state changed behind the checkpointer's back, announced with forgetCurrent
static void forget() {
    Hist h(*fc); wa(0); h.head(); wa(1); h.take(false); if (vx_pick(vx_bool("two"))) { wa(2); h.take(vx_pick(vx_bool("s"))); }
    if (vx_pick(vx_bool("load"))) h.load(1);
    wa(3); if (vx_pick(vx_bool("again"))) wa(1);
    fc->forgetCurrent(); h.at = 0; VX_CHECK(fc->getCurrentID() == fc->getHeadID(), "forgetting the current checkpoint goes back to the head");
    if (vx_pick(vx_bool("more"))) wa(4);
    h.take(false); wa(0); h.take(false); h.all(); vx_reach("end");
}
VX_ENTRY_S(forget_free, setup_f) { forget(); }
VX_ENTRY_S(forget_keep, setup_n) { forget(); }
