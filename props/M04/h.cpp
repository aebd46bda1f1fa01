#include "common.h"
#include "sparta/memory/MemoryObject.hpp"
#include "sparta/memory/BlockingMemoryIFNode.hpp"
#include "sparta/memory/DMIBlockingMemoryIF.hpp"
#include "sparta/memory/SimpleMemoryMapNode.hpp"
#include "sparta/serialization/checkpoint/FastCheckpointer.hpp"
using namespace sparta; using namespace sparta::memory;
static const uint64_t BS = 8, NB = 3, TS = BS * NB;
static MemoryObject* mo; static BlockingMemoryObjectIFNode* mi; static SimpleMemoryMapNode* mm;
static uint8_t ref[TS]; static int vn;
static void fresh(uint8_t* p, size_t n) { char nm[8] = {'d', char('0' + vn / 10), char('0' + vn % 10), 0}; vn++; vx_bytes(p, n, nm); }
static void mk() {
    env::base(); mo = new MemoryObject(env::R, BS, TS, 0x1122, 2);
    mi = new BlockingMemoryObjectIFNode(env::R, "mi", "d", nullptr, *mo);
    for (size_t i = 0; i < TS; i++) ref[i] = i & 1 ? 0x11 : 0x22;
}
static void fin() { env::R->enterConfiguring(); env::R->enterFinalized(); }
static void setup() { mk(); fin(); }
static BlockingMemoryIF* bm() { return mi; }
static void whole(DebugMemoryIF* m, const char* why) { // every byte is the reference's
    uint8_t b[TS]; VX_CHECK(m->tryPeek(0, TS, b), "peeks may cover several blocks"); VX_CHECK(!memcmp(b, ref, TS), why);
}
static bool span(uint64_t a, uint64_t n) { return (a & ~(BS - 1)) != ((a + n - 1) & ~(BS - 1)); }
// every address and size, accepted or not
static void one(bool wr, bool dbg) {
    uint64_t a = vx_u64("addr"), n = vx_u64("size"); vx_assume(n > 0);
    bool in = a < TS && n <= TS - a, ok = in && (dbg || !span(a, n));
    uint8_t b[TS], d[TS]; memset(b, 0xee, TS); fresh(d, TS);
    uint8_t p[BS]; fresh(p, BS); mi->write(BS, BS, p); memcpy(ref + BS, p, BS);  // one block in use, the others not yet
    if (ok) { a = vx_pick(a); n = vx_pick(n); }
    bool t = true, r = true;
    if (ok) t = vx_pick(vx_bool("try"));
    else if (vx_pick(vx_bool("throwing"))) { // the message holds the address: a few typical ones
        static const uint64_t A[] = {TS, TS - 2, ~0ull, 0, 13, 1ull << 63, TS - 1}, N[] = {1, 4, 1, TS + 1, ~0ull - 1, 1ull << 63, ~0ull - 3};
        uint64_t k = vx_pick(vx_range("which", 0, 6)); a = A[k]; n = N[k]; t = false; }
    auto f = [&] { 
        if (wr) { if (dbg) { if (t) r = mi->tryPoke(a, n, d); else mi->poke(a, n, d); } else { if (t) r = mi->tryWrite(a, n, d); else mi->write(a, n, d); } }
        else { if (dbg) { if (t) r = mi->tryPeek(a, n, b); else mi->peek(a, n, b); } else { if (t) r = mi->tryRead(a, n, b); else mi->read(a, n, b); } } };
    bool th = throws_(f);
    VX_CHECK(t ? !th : th == !ok, "a refused access throws, a tried one does not");
    if (t) VX_CHECK(r == ok, "an access succeeds exactly when it is inside the window (and within one block)");
    if (ok) {
        if (wr) memcpy(ref + a, d, n); else { VX_CHECK(!memcmp(b, ref + a, n), "a read gives the bytes last written or the fill pattern"); for (size_t i = n; i < TS; i++) VX_CHECK(b[i] == 0xee, "a read fills only the given size"); }
        vx_reach("accepted");
    } else vx_reach("refused");
    whole(mi, "a write changes exactly its bytes");
}
VX_ENTRY_S(write_any, setup) { one(true, false); }
VX_ENTRY_S(read_any, setup) { one(false, false); }
VX_ENTRY_S(poke_any, setup) { one(true, true); }
VX_ENTRY_S(peek_any, setup) { one(false, true); }
// histories of accesses
VX_ENTRY_S(history, setup) {
    static const char* AN[] = {"a1", "a2", "a3"}; static const char* SN[] = {"s1", "s2", "s3"}; static const char* ON[] = {"o1", "o2", "o3"};
    int N = vx_thorough() ? 3 : 2;
    for (int i = 0; i < N; i++) {
        uint64_t a = vx_pick(vx_range(AN[i], 0, TS - 1)), n = vx_pick(vx_range(SN[i], 0, 3)); n = n == 0 ? 1 : n == 1 ? 3 : n == 2 ? 8 : 11;
        bool pk = vx_pick(vx_bool(ON[i])); if (i && !pk) { vx_assume(n != 3); }
        uint8_t d[16]; fresh(d, 16);
        bool ok = a + n <= TS && (pk || !span(a, n));
        bool r = pk ? mi->tryPoke(a, n, d) : mi->tryWrite(a, n, d); VX_CHECK(r == ok, "an access succeeds exactly when it is inside the window (and within one block)");
        if (ok) memcpy(ref + a, d, n);
    }
    whole(mi, "every byte is the last one written there");
    uint8_t b[BS]; for (uint64_t k = 0; k < TS; k += BS) { mi->read(k, BS, b); VX_CHECK(!memcmp(b, ref + k, BS), "reads and peeks agree"); }
    vx_reach("end");
}
// fill patterns: the same bytes whether the block is in use or not
static void fills() {
    uint64_t sz = vx_pick(vx_range("fsz", 0, 3)); sz = 1u << sz; uint64_t f = vx_u64("fill");
    if (sz < 8 && vx_pick(vx_bool("toobig"))) { vx_assume(f >> (8 * sz)); VX_CHECK(throws_([&] { new MemoryObject(nullptr, 16, 64, f, sz); }), "a fill value wider than its size is rejected"); vx_reach("rejected"); return; }
    if (sz < 8) vx_assume((f >> (8 * sz)) == 0);
    MemoryObject m(nullptr, 16, 64, f, sz);
    uint64_t a = vx_pick(vx_range("a", 16, 31)), n = vx_pick(vx_range("n", 1, 16)); vx_assume((a & 15) + n <= 16);
    uint8_t e[16], b[16], c[16]; for (int i = 0; i < 16; i++) e[i] = f >> (8 * (i % sz));
    m.read(a, n, b); VX_CHECK(!memcmp(b, e + (a & 15), n), "memory never written reads as the fill pattern");
    uint8_t x = 0x77; m.write(16 + (15 - (a & 15) >= n ? 15 : 16), 1, &x);  // another byte of the block, or the next block
    m.read(a, n, c); VX_CHECK(!memcmp(c, e + (a & 15), n), "and still does once the block is in use");
    VX_CHECK(m.getNumBlocks() == 4 && m.getBlockSize() == 16 && m.getFill() == f && m.getFillPatternSize() == sz, "the description of the memory");
    vx_reach("end");
}
VX_ENTRY_S(fill, setup) { fills(); }
VX_ENTRY(fill_bulk) { // the static fill itself, any offset
    uint64_t sz = vx_pick(vx_range("fsz", 0, 3)); sz = 1u << sz; uint64_t f = vx_u64("fill"); if (sz < 8) vx_assume((f >> (8 * sz)) == 0);
    uint64_t o = vx_pick(vx_range("o", 0, 7)), n = vx_pick(vx_range("n", 1, 20)); vx_assume(o < sz); uint8_t b[21]; b[n] = 0x99;
    ArchData::fillValue(b, n, f, sz, o);
    for (uint64_t i = 0; i < n; i++) VX_CHECK(b[i] == uint8_t(f >> (8 * ((i + o) % sz))), "the fill pattern repeats from the given offset");
    VX_CHECK(b[n] == 0x99, "and ends with the buffer"); vx_reach("end");
}
// construction
VX_ENTRY_S(construct, setup) {
    uint64_t bs = vx_pick(vx_range("bs", 0, 9)), ts = vx_pick(vx_range("ts", 0, 18));
    bool ok = bs && ts && !(bs & (bs - 1)) && ts % bs == 0;
    VX_CHECK(throws_([&] { MemoryObject m(nullptr, bs, ts); }) == !ok, "a memory is a positive number of blocks of a power of 2 bytes");
    uint64_t s = vx_pick(vx_range("s", 0, 18)); struct D : BlockingMemoryIF { using BlockingMemoryIF::BlockingMemoryIF; bool tryRead_(addr_t, addr_t, uint8_t*, const void*, void*) override { return true; } bool tryWrite_(addr_t, addr_t, const uint8_t*, const void*, void*) override { return true; } bool tryPeek_(addr_t, addr_t, uint8_t*) const override { return true; } };
    bool ok2 = bs && !(bs & (bs - 1)) && s < ts && s % bs == 0 && ts % bs == 0;
    VX_CHECK(throws_([&] { D d("d", bs, DebugMemoryIF::AccessWindow(s, ts)); VX_CHECK(d.getRange() == ts - s && d.getLowEnd() == s && d.getHighEnd() == ts && d.getAccessibleSize() == ts - s, "the window is as given"); 
        uint64_t a = vx_u64("a"), n = vx_u64("n"); vx_assume(n); bool in = a >= s && a < ts && n <= ts - a;
        VX_CHECK(d.isInAccessWindows(a, n) == in, "accesses inside the window are recognised"); VX_CHECK(d.isAddressInWindows(a) == (a >= s && a < ts), "addresses inside the window are recognised");
        if (in) VX_CHECK(!throws_([&] { d.verifyInAccessWindows(a, n); }), "verification agrees");
        }) == !ok2, "a window is block aligned and not empty");
    vx_reach("end");
}
// observers and counters
struct Ob { int w = 0, r = 0; uint64_t addr = 0, size = 0; std::vector<uint8_t> prior, tried, data; const void* sup = nullptr; bool mem_ok = true;
    void pw(const BlockingMemoryIFNode::PostWriteAccess& x) { w++; addr = x.addr; size = x.size; prior.assign(x.prior, x.prior + x.size); tried.assign(x.tried, x.tried + x.size); sup = x.in_supplement; mem_ok &= x.mem == static_cast<DebugMemoryIF*>(mi); }
    void pr(const BlockingMemoryIFNode::ReadAccess& x) { r++; addr = x.addr; size = x.size; data.assign(x.data, x.data + x.size); sup = x.in_supplement; mem_ok &= x.mem == static_cast<DebugMemoryIF*>(mi); } };
static Ob* ob; static void setup_o() { mk(); ob = new Ob; fin(); }
VX_ENTRY_S(observed, setup_o) {
    bool ow = vx_pick(vx_bool("ow")), orr = vx_pick(vx_bool("or"));
    if (ow) mi->getPostWriteNotificationSource().registerForThis<Ob, &Ob::pw>(ob);
    if (orr) mi->getReadNotificationSource().registerForThis<Ob, &Ob::pr>(ob);
    int nr = 0, nw = 0, okr = 0, okw = 0; 
    for (int i = 0; i < 3; i++) {
        static const char* ON[] = {"op1", "op2", "op3"}; static const char* SN[] = {"sh1", "sh2", "sh3"}; static const char* DN[] = {"k1", "k2", "k3"};
        uint64_t op = vx_pick(vx_range(ON[i], 0, 3)), sh = i == 1 ? 0 : vx_pick(vx_range(SN[i], 0, 3)); uint64_t a = sh == 0 ? 10 : sh == 1 ? 8 : sh == 2 ? 6 : TS - 2, n = sh == 1 ? 8 : 4; // sh 2, 3 are refused
        bool ok = sh < 2; uint8_t d[8], o[8]; fresh(d, 8); int sup; memcpy(o, ref + (ok ? a : 0), 8); 
        int w0 = ob->w, r0 = ob->r; bool r;
        if (op == 0) { nw++; okw += ok; r = mi->tryWrite(a, n, d, &sup); if (ok) memcpy(ref + a, d, n); }
        else if (op == 1) { uint8_t b[8]; nr++; okr += ok; r = mi->tryRead(a, n, b, &sup); if (ok) VX_CHECK(!memcmp(b, ref + a, n), "a read gives the current bytes"); }
        else if (op == 2) { r = mi->tryPoke(a, n, d); if (sh == 2) { ok = true; } if (ok) memcpy(ref + a, d, n); }
        else { uint8_t b[8]; r = mi->tryPeek(a, n, b); if (sh == 2) ok = true; if (ok) VX_CHECK(!memcmp(b, ref + a, n), "a peek gives the current bytes"); }
        VX_CHECK(r == ok, "an observer does not change the outcome");
        VX_CHECK(ob->w - w0 == (ow && op == 0 && ok), "an observer sees each successful write once and nothing else");
        VX_CHECK(ob->r - r0 == (orr && op == 1 && ok), "an observer sees each successful read once and nothing else");
        if (ob->w > w0) { VX_CHECK(ob->addr == a && ob->size == n && ob->sup == &sup && ob->mem_ok, "with its address, size and supplement"); VX_CHECK(!memcmp(ob->prior.data(), o, n), "with the bytes before the write"); VX_CHECK(!memcmp(ob->tried.data(), d, n), "with the bytes written"); }
        if (ob->r > r0) { VX_CHECK(ob->addr == a && ob->size == n && ob->sup == &sup && ob->mem_ok, "with its address, size and supplement (read)"); VX_CHECK(!memcmp(ob->data.data(), o, n), "with the bytes read"); }
    }
    auto* st = mi->getChild("stats"); VX_CHECK(st != nullptr, "statistics exist");
    VX_CHECK(st->getChildAs<Counter>("num_writes")->get() == (uint64_t)nw && st->getChildAs<Counter>("num_reads")->get() == (uint64_t)nr, "the counters count the attempts");
    whole(mi, "every byte is the last one written there"); vx_reach("end");
}
// direct memory interfaces
VX_ENTRY_S(dmi, setup) {
    uint64_t a0 = vx_u64("a"), n0 = vx_u64("n"); vx_assume(n0 > 0);
    bool ok = a0 < TS && n0 <= TS - a0 && !span(a0, n0);
    if (!ok) { DMIBlockingMemoryIF* d = nullptr; bool th = throws_([&] { d = mi->getDMI(a0, n0); }); VX_CHECK(!th && !d, "no direct interface for an access that is not permitted"); vx_reach("refused"); return; }
    a0 = vx_pick(a0); n0 = vx_pick(n0); vx_assume(n0 == 1 || n0 == 5 || n0 == 8);
    uint64_t blk = a0 & ~(BS - 1); uint8_t p[BS]; 
    if (vx_pick(vx_bool("used"))) { fresh(p, BS); mi->write(blk, BS, p); memcpy(ref + blk, p, BS); }
    DMIBlockingMemoryIF* d = mi->getDMI(a0, n0); VX_CHECK(d && d->isValid(), "a direct interface for a permitted access");
    uint8_t b[BS]; VX_CHECK(d->tryRead(a0, n0, b) && !memcmp(b, ref + a0, n0), "it reads the memory");
    VX_CHECK(d->getRawDataPtr() && !memcmp(d->getRawDataPtr(), ref + blk, BS), "its pointer is the block");
    fresh(p, BS); bool pk = vx_pick(vx_bool("poke")); VX_CHECK(pk ? d->tryPoke(a0, n0, p) : d->tryWrite(a0, n0, p), "it writes"); memcpy(ref + a0, p, n0);
    whole(mi, "a direct write is seen by everybody");
    fresh(p, BS); mi->write(blk, BS, p); memcpy(ref + blk, p, BS); VX_CHECK(d->tryPeek(a0, n0, b) && !memcmp(b, ref + a0, n0), "and sees every other write");
    uint64_t x = vx_u64("x"), y = vx_u64("y"); vx_assume(y > 0); bool okx = x >= blk && x < blk + BS && y <= blk + BS - x; vx_assume(!okx);
    VX_CHECK(!d->tryRead(x, y, b) && !d->tryWrite(x, y, p) && !d->tryPeek(x, y, b) && !d->tryPoke(x, y, p), "nothing outside its block");
    VX_CHECK(mi->getDMI(blk, 1) == d, "the same interface for the same block");
    mi->invalidateAllDMI(); VX_CHECK(!d->isValid(), "invalidated"); memset(b, 0xee, BS);
    VX_CHECK(!d->tryRead(a0, n0, b) && !d->tryWrite(a0, n0, p + 1) && !d->tryPeek(a0, n0, b) && !d->tryPoke(a0, n0, p + 1), "an invalidated interface accesses nothing"); VX_CHECK(b[0] == 0xee && throws_([&] { d->getRawDataPtr(); }), "nor gives its pointer");
    DMIBlockingMemoryIF* d2 = mi->getDMI(a0, n0); VX_CHECK(d2 && d2->isValid() && d2->tryRead(a0, n0, b) && !memcmp(b, ref + a0, n0), "a new request gives a valid interface"); VX_CHECK(!d->isValid(), "an invalidated interface stays so");
    whole(mi, "every byte is the last one written there"); vx_reach("end");
}
// direct writes are state: checkpoints record them
static serialization::checkpoint::FastCheckpointer* fc;
static void setup_c() { mk(); fin(); fc = new serialization::checkpoint::FastCheckpointer(*env::R, nullptr); }
VX_ENTRY_S(checkpoint, setup_c) {
    uint8_t p[BS]; DMIBlockingMemoryIF* d = mi->getDMI(BS, BS); uint8_t r1[TS], r2[TS];
    auto w = [&](uint64_t how) { fresh(p, BS); if (how == 0) mi->write(BS, BS, p); else if (how == 1) mi->poke(BS, BS, p); else if (how == 2) d->tryWrite(BS, BS, p); else d->tryPoke(BS, BS, p); memcpy(ref + BS, p, BS); };
    w(vx_pick(vx_range("w0", 0, 3))); fc->createHead();
    w(vx_pick(vx_range("w1", 0, 3))); auto i1 = fc->createCheckpoint(); memcpy(r1, ref, TS);
    w(vx_pick(vx_range("w2", 0, 3))); auto i2 = fc->createCheckpoint(); memcpy(r2, ref, TS);
    w(0); if (vx_pick(vx_bool("first"))) { fc->loadCheckpoint(i1); memcpy(ref, r1, TS); whole(mi, "a checkpoint restores the memory"); }
    fc->loadCheckpoint(i2); memcpy(ref, r2, TS); whole(mi, "a later checkpoint restores the memory"); vx_reach("end");
}
