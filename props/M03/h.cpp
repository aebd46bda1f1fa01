#include "common.h"
#include "sparta/functional/Register.hpp"
#include "sparta/functional/RegisterSet.hpp"
#include "sparta/functional/DataView.hpp"
#include "sparta/serialization/checkpoint/FastCheckpointer.hpp"
using namespace sparta; using namespace sparta::serialization::checkpoint;
typedef std::vector<uint8_t> Bytes; typedef RegisterBase::Definition RD; typedef RegisterBase::Field::Definition FD;
static const auto NOID = RegisterBase::INVALID_ID; static const auto NOGRP = RegisterBase::GROUP_NUM_NONE; static const auto NOIDX = TreeNode::GROUP_IDX_NONE;
static Bytes symb(int n, const char* nm) { Bytes b(n); vx_bytes(b.data(), n, nm); return b; }
static void same(const uint8_t* p, const uint8_t* w, size_t n, const char* l) { uint8_t d = 0; for (size_t i = 0; i < n; i++) d |= p[i] ^ w[i]; VX_CHECK(d == 0, l); }
static RD reg(RegisterBase::ident_type id, const char* nm, unsigned bytes, RegisterBase::ident_type sub = NOID, unsigned off = 0, const unsigned char* init = nullptr, std::vector<FD> f = {}) {
    return RD{id, nm, NOGRP, "", NOIDX, "d", bytes, f, {}, nullptr, sub, off, init, 0, 0};
}
static std::unique_ptr<RegisterSet> mk(const std::vector<RD>& d) { auto* v = new std::vector<RD>(d); v->push_back(RegisterBase::DEFINITION_END); return RegisterSet::create(env::R, v->data()); }
static void fin() { env::R->enterConfiguring(); env::R->enterFinalized(); env::R->bindTreeEarly(); }
static Bytes peek(RegisterBase* r) { Bytes b(r->getNumBytes()); r->peek(b.data(), b.size(), 0); return b; }

static Bytes part(unsigned n, int tag) { if (n <= 16) return symb(n, "v"); Bytes b(n); for (unsigned i = 0; i < n; i++) b[i] = 16 * (tag + 1) + i % 13; vx_bytes(&b[0], 8, "first"); vx_bytes(&b[n - 8], 8, "last"); return b; }   // the middle: fixed, different for each
// ---- placement: independent registers of any sizes never share a byte
static void placement(unsigned cnt, const std::vector<unsigned>& sizes) {
    env::base(); static const char* NM[] = {"r0", "r1", "r2", "r3", "r4", "r5"}; std::vector<RD> d; std::vector<unsigned> sz;
    for (unsigned i = 0; i < cnt; i++) { sz.push_back(sizes[vx_pick(vx_range("size", 0, sizes.size() - 1))]); d.push_back(reg(i, NM[i], sz[i])); }
    auto rs = mk(d); fin(); VX_CHECK(rs->getNumRegisters() == cnt, "number of registers");
    std::vector<Bytes> m; for (unsigned i = 0; i < cnt; i++) { m.push_back(part(sz[i], i)); rs->getRegister(NM[i])->write(m[i].data(), sz[i], 0); }
    for (unsigned i = 0; i < cnt; i++) { Bytes b = peek(rs->getRegister(NM[i])); same(b.data(), m[i].data(), sz[i], "registers do not share bytes"); Register* r = static_cast<Register*>(rs->getRegister(NM[i])); VX_CHECK(r->dmiRead<uint8_t>(sz[i] - 1) == m[i][sz[i] - 1], "direct reads see the same bytes"); }
    vx_reach("end");
}
VX_ENTRY(placement) { placement(4, {1, 2, 8, 64, 512}); }
VX_ENTRY(placement_wide) { placement(3, {4, 16, 32, 128, 256, 512}); }
VX_ENTRY(placement_many) {   // DataViews of an ArchData with a given line size
    unsigned ls = 32 << vx_pick(vx_range("line", 0, 2)); ArchData a(nullptr, ls); std::vector<std::unique_ptr<DataView>> v; std::vector<Bytes> m; unsigned cnt = vx_thorough() ? 6 : 5;
    for (unsigned i = 0; i < cnt; i++) { unsigned s = 1 << vx_pick(vx_range("log", 0, 5)); if (i == 1) s = 32; v.emplace_back(new DataView(&a, i, s)); m.push_back(symb(s, "v")); }
    a.layout();
    for (unsigned i = 0; i < cnt; i++) for (unsigned k = 0; k < m[i].size(); k++) v[i]->write<uint8_t>(m[i][k], k);
    for (unsigned i = 0; i < cnt; i++) {
        Bytes b(m[i].size()); for (unsigned k = 0; k < b.size(); k++) b[k] = v[i]->read<uint8_t>(k);
        same(b.data(), m[i].data(), b.size(), "data views do not share bytes");
        VX_CHECK(v[i]->isPlaced() && a.containsAddress(v[i]->ArchDataSegment::getOffset() + b.size() - 1) && (v[i]->ArchDataSegment::getOffset() & (ls - 1)) + b.size() <= ls, "a view lies within one line of its data");
    }
    vx_reach("end");
}
// ---- subsets: an alias addresses exactly the bytes it names, through any nesting and definition order
static void subset(unsigned psize) {
    env::base(); unsigned order = vx_pick(vx_range("order", 0, 2)); unsigned s1 = psize >> vx_pick(vx_range("s1", 0, 2)); unsigned o1 = vx_pick(vx_range("o1", 0, (psize - s1))); unsigned s2 = s1 >> vx_pick(vx_range("s2", 0, 1)); unsigned o2 = vx_pick(vx_range("o2", 0, s1 - s2));
    unsigned o3 = vx_pick(vx_range("o3", 0, 3)) * (psize - 4) / 3;
    RD p = reg(10, "p", psize), a = reg(20, "a", s1, 10, o1), b = reg(30, "b", s2, 20, o2), c = reg(40, "c", 4, 10, o3), q = reg(50, "q", 8), h = reg(5, "h", 8);
    auto rs = order == 0 ? mk({h, p, a, b, c, q}) : order == 1 ? mk({b, h, a, q, p, c}) : mk({c, b, a, p, h, q}); fin();
    auto *P = rs->getRegister("p"), *A = rs->getRegister("a"), *B = rs->getRegister("b"), *C = rs->getRegister("c"), *Q = rs->getRegister("q"), *H = rs->getRegister("h");
    Bytes m = symb(psize, "p"), qm(8, 0x11), hm(8, 0x22); P->poke(m.data(), psize, 0); Q->poke(qm.data(), 8, 0); H->poke(hm.data(), 8, 0);
    auto all = [&] { Bytes x = peek(P); same(x.data(), m.data(), psize, "the whole register"); x = peek(A); same(x.data(), &m[o1], s1, "a subset is its part of the whole"); x = peek(B); same(x.data(), &m[o1 + o2], s2, "a subset of a subset");
        x = peek(C); same(x.data(), &m[o3], 4, "another subset"); x = peek(Q); same(x.data(), qm.data(), 8, "others are not affected"); x = peek(H); same(x.data(), hm.data(), 8, "others are not affected"); };
    all();
    Bytes v = symb(s1, "av"); A->write(v.data(), s1, 0); std::copy(v.begin(), v.end(), m.begin() + o1); all();
    uint8_t x = vx_u8("bv"); B->writeUnmasked<uint8_t>(x, s2 - 1); m[o1 + o2 + s2 - 1] = x; all();
    uint32_t w = vx_u32("cv"); C->dmiWrite<uint32_t>(w); memcpy(&m[o3], &w, 4); all();
    vx_reach("end");
}
VX_ENTRY(subset_8) { subset(8); }
VX_ENTRY(subset_16) { subset(16); }
VX_ENTRY(subset_reject) {
    env::base(); unsigned ps = 4u << vx_pick(vx_range("p", 0, 1)), s = 1u << vx_pick(vx_range("s", 0, 4)), o = vx_pick(vx_range("o", 0, 9)); bool unk = vx_pick(vx_bool("unknown"));
    bool t = throws_([&] { mk({reg(1, "p", ps), reg(2, "a", s, unk ? 7 : 1, o)}); });
    VX_CHECK(t == (unk || s + o > ps), "a subset is rejected exactly when it does not lie within its parent"); vx_reach("end");
}
VX_ENTRY(define_reject) {   // names, ids, sizes
    env::base(); unsigned sz = vx_pick(vx_range("size", 0, 17)); unsigned id2 = vx_pick(vx_range("id2", 0, 2)); bool samename = vx_pick(vx_bool("samename"));
    bool t = throws_([&] { mk({reg(1, "x", 8), reg(id2, samename ? "x" : "y", sz)}); });
    VX_CHECK(t == (sz == 0 || (sz & (sz - 1)) || id2 == 1 || samename), "sizes that are not powers of two, duplicate ids and duplicate names are rejected"); vx_reach("end");
}
// ---- initial values and reset
VX_ENTRY(reset_values) {
    env::base(); static unsigned char i1[8] = {1, 0, 3, 4, 5, 6, 7, 0xff}, i2[16], i3[2] = {0xaa, 0xbb}; for (int i = 0; i < 16; i++) i2[i] = 0x30 + i;
    auto rs = mk({reg(1, "a", 8, NOID, 0, i1, {FD("ro", "d", 4, 11, true)}), reg(2, "n", 4), reg(3, "b", 16, NOID, 0, i2), reg(4, "s", 2, 3, 5, i3)}); fin();
    auto *A = rs->getRegister("a"), *N = rs->getRegister("n"), *B = rs->getRegister("b"), *Sb = rs->getRegister("s"); Bytes im(i2, i2 + 16); im[5] = 0xaa; im[6] = 0xbb;
    auto init = [&] { Bytes x = peek(A); same(x.data(), i1, 8, "the initial value"); x = peek(B); same(x.data(), im.data(), 16, "initial values are written in order of definition"); };
    init(); 
    { Bytes v = symb(8, "a"); A->pokeUnmasked(v.data(), 8, 0); v = symb(16, "b"); B->poke(v.data(), 16, 0); uint16_t s = vx_u16("s"); Sb->write<uint16_t>(s); uint32_t n = vx_u32("n"); N->write<uint32_t>(n);
      unsigned how = vx_pick(vx_range("how", 0, 2));
      if (how == 0) { rs->reset(); init(); VX_CHECK(N->peek<uint32_t>() == n, "a register without an initial value is not changed by reset"); }
      else if (how == 1) { A->reset(); Bytes x = peek(A); same(x.data(), i1, 8, "reset gives the initial value"); VX_CHECK(Sb->peek<uint16_t>() == s && N->peek<uint32_t>() == n, "other registers are not affected"); }
      else { Bytes o = peek(A); A->reset(false); for (int i = 0; i < 8; i++) { uint8_t ro = i == 0 ? 0xf0 : i == 1 ? 0x0f : 0; o[i] = (o[i] & ro) | (i1[i] & ~ro); } Bytes x = peek(A); same(x.data(), o.data(), 8, "a masked reset keeps read-only fields"); } }
    vx_reach("end");
}
// ---- notifications
struct Obs { RegisterBase* r; int w = 0, rd = 0; Bytes prior, final, seen; 
    void onW(const RegisterBase::PostWriteAccess& a) { w++; VX_CHECK(a.reg == r, "the notification names the register"); prior = bytes(a.prior); final = bytes(a.final); }
    void onR(const RegisterBase::ReadAccess& a) { rd++; VX_CHECK(a.reg == r, "the notification names the register"); seen = bytes(a.value); }
    static Bytes bytes(const DataView* v) { Bytes b(v->getSize()); for (unsigned i = 0; i < b.size(); i++) b[i] = v->read<uint8_t>(i); return b; }
};
VX_ENTRY(notify) {
    env::base(); unsigned n = 4u << vx_pick(vx_range("log", 0, 2)); auto rs = mk({reg(0, "l", 8), reg(1, "r", n, NOID, 0, nullptr, {FD("ro", "d", 0, 3, true), FD("f", "d", 2, 17)}), reg(2, "sub", 2, 1, 1), reg(3, "h", 8)}); fin();
    auto* R = rs->getRegister("r"); Bytes m = symb(n, "old"); R->pokeUnmasked(m.data(), n, 0); Obs o; o.r = R;
    bool ow = vx_pick(vx_bool("observe_writes")), orr = vx_pick(vx_bool("observe_reads")), gone = vx_pick(vx_bool("deregister"));
    if (ow) R->getPostWriteNotificationSource().registerForThis<Obs, &Obs::onW>(&o);
    if (orr) R->getReadNotificationSource().registerForThis<Obs, &Obs::onR>(&o);
    if (gone) { if (ow) { R->getPostWriteNotificationSource().deregisterForThis<Obs, &Obs::onW>(&o); ow = false; } if (orr) { R->getReadNotificationSource().deregisterForThis<Obs, &Obs::onR>(&o); orr = false; } }
    for (int k = 0; k < 2; k++) {
        Bytes before = m; bool w = false, rd = false; int cw = o.w, cr = o.rd;
        unsigned op = vx_pick(vx_range("op", 0, 8));
        if (op == 0) { uint32_t v = vx_u32("v"); unsigned x = n / 4 - 1; R->write<uint32_t>(v, x); if (x == 0) v = (v & ~15u) | (m[0] & 15); memcpy(&m[4 * x], &v, 4); w = true; }
        else if (op == 1) { uint16_t v = vx_u16("f"); Bytes m0 = m; R->getField("f")->write(v); uint32_t x; memcpy(&x, &m[0], 4); uint32_t y = (x & ~0x3fffcu) | (uint32_t(v) << 2); y = (y & ~15u) | (x & 15); memcpy(&m[0], &y, 4); w = true; }
        else if (op == 2) { uint8_t v = vx_u8("p"); R->poke<uint8_t>(v, 3); m[3] = v; }
        else if (op == 3) { uint16_t v = vx_u16("s"); rs->getRegister("sub")->write<uint16_t>(v); memcpy(&m[1], &v, 2); }
        else if (op == 4) { uint16_t v = vx_u16("d"); R->dmiWrite<uint16_t>(v, 1); memcpy(&m[2], &v, 2); }
        else if (op == 5) { uint16_t v; memcpy(&v, &m[2], 2); VX_CHECK(R->read<uint16_t>(1) == v, "read"); rd = true; }
        else if (op == 6) { VX_CHECK(R->getField("ro")->read() == (m[0] & 15u), "field read"); rd = true; }
        else if (op == 7) { Bytes x = peek(R); same(x.data(), m.data(), n, "peek"); VX_CHECK(R->getField("f")->peek() < 65536, "peek"); }
        else { uint32_t v = vx_u32("u"); RegisterBase* b = R; b->writeUnmasked<uint32_t>(v); memcpy(&m[0], &v, 4); w = true; }
        VX_CHECK(o.w == cw + (w && ow) && o.rd == cr + (rd && orr), "a write or read is notified exactly once to a registered observer, pokes, peeks and direct accesses are not");
        if (w && ow) { same(o.prior.data(), before.data(), n, "the prior value notified is the value before the write"); same(o.final.data(), m.data(), n, "the final value notified is the value after the write"); }
        if (rd && orr) same(o.seen.data(), m.data(), n, "the value notified is the register's");
        Bytes x = peek(R); same(x.data(), m.data(), n, "observing does not change what is written");
    }
    vx_reach("end");
}
VX_ENTRY(callbacks) {   // access callbacks
    env::base(); auto rs = mk({reg(1, "r", 8), reg(2, "w", 4)}); fin(); auto *R = rs->getRegister("r"), *W = rs->getRegister("w"); 
    uint64_t a = vx_u64("a"), v = vx_u64("v"), got = 0, ret = vx_u64("ret"); uint32_t b = vx_u32("b"); bool acc = vx_bool("accept"); int n = 0; R->poke<uint64_t>(a); W->poke<uint32_t>(b);
    auto x = R->readWithCheck(); VX_CHECK(x.isValid() && x.getValue() == a, "without a callback a checked read reads"); auto y = W->readWithCheck(); VX_CHECK(y.isValid() && y.getValue() == b, "without a callback a checked read reads");
    VX_CHECK(!R->hasReadCB() && !R->hasWriteCB(), "no callbacks"); 
    R->addWriteCB([&](RegisterBase* r, uint64_t z) { n++; got = z; VX_CHECK(r == R, "the callback gets the register"); return acc; }); R->addReadCB([&](RegisterBase* r) { sparta::utils::ValidValue<uint64_t> q; q = ret; return q; });
    VX_CHECK(R->writeWithCheck<uint64_t>(v) == acc && n == 1 && got == v && R->peek<uint64_t>() == a, "with a callback a checked write only calls it"); VX_CHECK(R->readWithCheck().getValue() == ret, "with a callback a checked read gives its result");
    VX_CHECK(W->writeWithCheck<uint32_t>(uint32_t(v)) && W->peek<uint32_t>() == uint32_t(v) && R->peek<uint64_t>() == a, "without a callback a checked write writes");
    vx_reach("end");
}
// ---- banks
static RD breg(RegisterBase::ident_type id, const char* nm, unsigned g, unsigned idx, const std::vector<unsigned>& banks) { return RD{id, nm, g, g == NOGRP ? "" : g == 0 ? "ga" : "gb", idx, "d", 4, {}, banks, nullptr, NOID, 0, nullptr, 0, 0}; }
static const std::vector<std::vector<unsigned>> BK = {{}, {0}, {1}, {0, 1}, {2}, {1, 2}};
static void banks_(unsigned cnt, unsigned nb) {
    env::base(); static const char* NM[] = {"b0", "b1", "b2", "b3"}; struct E { unsigned g, i, b; }; std::vector<E> e; std::vector<RD> d;
    for (unsigned k = 0; k < cnt; k++) { E x; x.g = vx_pick(vx_range("group", 0, 1)); x.i = vx_pick(vx_range("index", 0, 1)); x.b = vx_pick(vx_range("banks", 0, nb - 1)); e.push_back(x); d.push_back(breg(k, NM[k], x.g, x.i, BK[x.b])); }
    bool clash = false; unsigned maxb = 1; 
    auto in = [&](const E& x, unsigned b) { return BK[x.b].empty() || std::count(BK[x.b].begin(), BK[x.b].end(), b); };
    for (unsigned k = 0; k < cnt; k++) { for (unsigned b : BK[e[k].b]) maxb = std::max(maxb, b + 1); for (unsigned l = 0; l < k; l++) if (e[k].g == e[l].g && e[k].i == e[l].i) for (unsigned b = 0; b < 3; b++) if (in(e[k], b) && in(e[l], b)) clash = true; }
    std::unique_ptr<RegisterSet> rs; bool t = throws_([&] { rs = mk(d); });
    VX_CHECK(t == clash, "registers are rejected exactly when two share group, index and bank"); if (t) { vx_reach("end"); return; }
    VX_CHECK(rs->getNumBanks() == maxb, "number of banks");
    if (vx_pick(vx_bool("minimum"))) { rs->setMinimumBankIndex(3); maxb = 4; VX_CHECK(rs->getNumBanks() == 4, "number of banks"); }
    for (unsigned b = 0; b < 5; b++) for (unsigned g = 0; g < 3; g++) { unsigned size = 0; for (unsigned i = 0; i < 3; i++) {
        RegisterBase* w = nullptr; for (unsigned k = 0; k < cnt; k++) if (b < maxb && e[k].g == g && e[k].i == i && in(e[k], b)) { w = rs->getRegister(NM[k]); VX_CHECK(w->isInBank(b), "bank membership"); size++; }
        VX_CHECK(rs->canLookupRegister(g, i, b) == (w != nullptr), "a register can be looked up exactly in its banks");
        RegisterBase* r = nullptr; bool f = throws_([&] { r = rs->getRegister(g, i, b); }); VX_CHECK(f == !w && r == w, "a look up gives the register of that group, index and bank or is rejected"); if (w) VX_CHECK(rs->lookupRegister(g, i, b) == w, "look up"); 
        if (b == 0) { VX_CHECK(rs->canLookupRegister(g, i) == (w != nullptr), "the default bank"); if (w) VX_CHECK(rs->getRegister(g, i) == w && rs->lookupRegister(g, i) == w, "the default bank"); } }
        if (b < maxb) VX_CHECK(rs->getGroupSize(g, b) == size, "group size"); else VX_CHECK(throws_([&] { rs->getGroupSize(g, b); }), "unknown bank"); }
    vx_reach("end");
}
VX_ENTRY(banks) { banks_(2, 6); }
VX_ENTRY(banks_3) { banks_(3, vx_thorough() ? 6 : 4); }
VX_ENTRY(proxies) {
    env::base(); auto* d = new std::vector<RD>{breg(0, "u", 0, 0, {}), breg(1, "x0", 0, 1, {0}), breg(2, "x12", 0, 1, {1, 2}), breg(3, "y2", 1, 0, {2}), RegisterBase::DEFINITION_END};
    auto* pd = new std::vector<RegisterProxyBase::Definition>{{10, "px", 0, "ga", 1, "d"}, {11, "py", 1, "gb", 0, "d"}, {12, "pu", 0, "ga", 0, "d"}, {0, nullptr, 0, nullptr, 0, nullptr}};
    unsigned bank = 0; std::string asked; auto rs = RegisterSet::create(env::R, d->data(), pd->data(), [&](unsigned g, unsigned i, const std::string* n) { asked = *n; return bank; }); fin();
    RegisterProxy &px = rs->getRegisterProxy("px"), &py = rs->getRegisterProxy("py"), &pu = rs->getRegisterProxy("pu"), &pr = rs->getRegisterProxy("x0");
    VX_CHECK(throws_([&] { rs->getRegisterProxy("nope"); }), "an unknown proxy is rejected");
    for (int k = 0; k < 3; k++) {
        bank = vx_pick(vx_range("bank", 0, 3));
        auto chk = [&](RegisterProxy& p, const char* w) { RegisterBase* e = w ? rs->getRegister(w) : nullptr; RegisterBase* g = nullptr; VX_CHECK(p.tryGetCurrentRegister() == e, "a proxy gives the register of the current bank, or none"); bool t = throws_([&] { g = p.getCurrentRegister(); }); VX_CHECK(t == !e && g == e, "a proxy gives the register of the current bank or rejects"); };
        chk(px, bank == 0 ? "x0" : bank < 3 ? "x12" : nullptr); chk(py, bank == 2 ? "y2" : nullptr); chk(pu, bank < 3 ? "u" : nullptr); chk(pr, "x0");
        VX_CHECK(&rs->getRegisterProxy("px") == &px && &rs->getRegisterProxy("x0") == &pr && &px.getContainingRegisterSet() == rs.get(), "proxies are stable");
    }
    vx_reach("end");
}
// ---- checkpoints see every way of writing a register
VX_ENTRY(checkpoint) {
    env::base(); auto rs = mk({reg(1, "a", 8, NOID, 0, nullptr, {FD("f", "d", 8, 23)}), reg(2, "big", 512), reg(3, "b", 8), reg(4, "s", 4, 3, 4)}); fin(); static_cast<void>(rs);
    FastCheckpointer fc(*env::R, nullptr); auto *A = rs->getRegister("a"), *B = rs->getRegister("b"), *Sb = rs->getRegister("s"); Register *RA = static_cast<Register*>(A), *RB = static_cast<Register*>(B);
    Bytes a = symb(8, "a"), b = symb(8, "b"); A->poke(a.data(), 8, 0); B->poke(b.data(), 8, 0); fc.createHead();
    struct St { Bytes a, b; FastCheckpointer::chkpt_id_t id; }; std::vector<St> st; 
    auto op = [&](unsigned k) { uint64_t v = vx_u64("v"); switch (k) {
        case 0: A->write<uint64_t>(v); memcpy(&a[0], &v, 8); break; case 1: RA->dmiWrite<uint32_t>(uint32_t(v), 1); memcpy(&a[4], &v, 4); break; case 2: A->getField("f")->write(v & 0xffff); memcpy(&a[1], &v, 2); break;
        case 3: RB->writeUnmasked<uint64_t>(v); memcpy(&b[0], &v, 8); break; case 4: Sb->dmiWrite<uint16_t>(uint16_t(v)); memcpy(&b[4], &v, 2); break; case 5: B->pokeUnmasked<uint8_t>(uint8_t(v), 7); b[7] = v; break; case 6: Sb->write(&v, 4, 0); memcpy(&b[4], &v, 4); break; } };
    for (int k = 0; k < 2; k++) { op(vx_pick(vx_range("op", 0, 6))); st.push_back({a, b, fc.createCheckpoint(vx_pick(vx_bool("snapshot")))}); }
    op(vx_pick(vx_range("op", 0, 6)));
    for (int k = 0; k < 2; k++) { unsigned i = vx_pick(vx_range("load", 0, 1)); if (k && i != 0) vx_assume(false); 
        fc.loadCheckpoint(st[i].id); Bytes x = peek(A); same(x.data(), st[i].a.data(), 8, "loading a checkpoint restores every register"); x = peek(B); same(x.data(), st[i].b.data(), 8, "loading a checkpoint restores every register"); x = peek(Sb); same(x.data(), &st[i].b[4], 4, "loading a checkpoint restores every register"); }
    vx_reach("end");
}
// ---- data views
template<class T, ByteOrder BO> static void view(unsigned n) {
    ArchData a; DataView l(&a, 1, 8), v(&a, 2, n), h(&a, 3, 8); a.layout(); Bytes m = symb(n, "m"); for (unsigned i = 0; i < n; i++) v.write<uint8_t>(m[i], i); l.write<uint64_t>(0x1111); h.write<uint64_t>(0x2222);
    auto val = [&](unsigned off, unsigned sz) { uint64_t r = 0; for (unsigned i = 0; i < sz; i++) r |= uint64_t(m[off + i]) << 8 * (BO == LE ? i : sz - 1 - i); return r; };
    unsigned idx = vx_pick(vx_range("idx", 0, n / sizeof(T) + 1)), off = idx * sizeof(T); T x; bool in = off + sizeof(T) <= n; T got = 0; uint64_t w = vx_u64("w");
    VX_CHECK(throws_([&] { got = v.read<T, BO>(idx); }) == !in, "a view rejects reads outside it"); if (in) VX_CHECK(got == T(val(off, sizeof(T))), "a view reads in the byte order asked for");
    unsigned op = vx_pick(vx_range("op", 0, 2)); unsigned rest = off > n ? 0 : std::min<unsigned>(n - off, sizeof(T));
    if (op == 0) { VX_CHECK(throws_([&] { v.write<T, BO>(T(w), idx); }) == !in, "a view rejects writes outside it"); rest = in ? sizeof(T) : 0; }
    else if (op == 1) { bool t = throws_([&] { got = v.readPadded<T, BO>(idx); }); VX_CHECK(t == (off > n), "padded reads are rejected outside the view"); if (!t) VX_CHECK(got == T(rest ? val(off, rest) : 0), "a padded read gives the bytes within the view"); rest = 0; }
    else { bool t = throws_([&] { v.writeTruncated<T, BO>(T(w), idx); }); VX_CHECK(t == (off > n), "truncated writes are rejected outside the view"); if (t) rest = 0; }
    for (unsigned i = 0; i < rest; i++) m[off + i] = uint8_t(w >> 8 * (BO == LE ? i : rest - 1 - i));
    Bytes b(n); for (unsigned i = 0; i < n; i++) b[i] = v.read<uint8_t>(i); same(b.data(), m.data(), n, "exactly the bytes written change, in the byte order asked for"); VX_CHECK(l.read<uint64_t>() == 0x1111 && h.read<uint64_t>() == 0x2222, "neighbours are not affected");
    vx_reach("end");
}
template<ByteOrder BO> static void views() { unsigned n = 1u << vx_pick(vx_range("log", 0, 4)); switch (vx_pick(vx_range("type", 0, 3))) { case 0: view<uint8_t, BO>(n); break; case 1: view<uint16_t, BO>(n); break; case 2: view<uint32_t, BO>(n); break; default: view<uint64_t, BO>(n); } }
VX_ENTRY(view_le) { views<LE>(); }
VX_ENTRY(view_be) { views<BE>(); }
VX_ENTRY(view_copy) {
    ArchData a, c(nullptr, 64); unsigned n = 1u << vx_pick(vx_range("log", 0, 4)); bool other = vx_pick(vx_bool("other")); DataView x(&a, 1, n), y(other ? &c : &a, 2, n), z(&a, 3, 2 * n); a.layout(); c.layout(); Bytes m = symb(n, "m"), k = symb(2 * n, "k");
    for (unsigned i = 0; i < n; i++) x.write<uint8_t>(m[i], i); for (unsigned i = 0; i < 2 * n; i++) z.write<uint8_t>(k[i], i);
    y = x; Bytes b(2 * n); for (unsigned i = 0; i < n; i++) b[i] = y.read<uint8_t>(i); same(b.data(), m.data(), n, "assigning a view copies its bytes"); VX_CHECK(throws_([&] { z = x; }) && throws_([&] { x = z; }), "views of different sizes are not assigned");
    for (unsigned i = 0; i < 2 * n; i++) b[i] = z.read<uint8_t>(i); same(b.data(), k.data(), 2 * n, "a rejected assignment has no effect"); vx_reach("end");
}
