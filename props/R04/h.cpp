// sparta::Array / FrontArray against a slot model with write order.
#include "common.h"
#include "track.h"
#include "sparta/resources/Array.hpp"
#include "sparta/resources/FrontArray.hpp"
using namespace sparta; using namespace env;
static void setup() { base(); }
struct Slot { bool val = false; uint32_t v = 0; uint64_t when = 0; };
static uint64_t stamp;
template<class A, bool AGED> static void checka(A& a, std::vector<Slot>& m) {
    uint32_t cap = m.size(), n = 0; for (auto& s : m) n += s.val; const A& c = a;
    vx_assert(a.size() == n && a.numValid() == n && a.numFree() == cap - n && a.capacity() == cap, "size and free space");
    for (uint32_t i = 0; i <= cap; i++) { bool v = i < cap && m[i].val; vx_assert(a.isValid(i) == v, "exactly the written and not erased slots are valid");
        if (v) vx_assert(c.read(i).v == m[i].v && a.access(i).v == m[i].v && c.read(i).tag == 0x600d, "a slot holds what was last written"); else vx_assert(throws_([&] { c.read(i); }) && throws_([&] { a.access(i); }), "reading an invalid slot is rejected"); }
    uint32_t k = 0; for (auto it = a.begin(); it != a.end(); ++it) { if (k >= cap) { vx_fail("slot iteration ends"); break; } vx_assert(it.getIndex() == k && it.isValid() == m[k].val, "slot iteration visits every index"); if (m[k].val) vx_assert(it->v == m[k].v, "slot iteration reads the slot"); k++; }
    vx_assert(k == cap, "slot iteration is complete"); vx_assert(Elem::live == (int)n, "exactly the valid slots are alive");
    for (uint32_t i = 0; i < cap; i++) for (uint32_t j = 0; j < cap; j++) if (i != j && m[i].val && m[j].val) { vx_assert(a.isOlder(i, j) == (m[i].when < m[j].when) && a.isYounger(i, j) == (m[i].when > m[j].when), "relative age"); }
    if (AGED) {
        std::vector<uint32_t> o; for (uint32_t i = 0; i < cap; i++) if (m[i].val) o.push_back(i); std::sort(o.begin(), o.end(), [&](uint32_t x, uint32_t y) { return m[x].when < m[y].when; });
        size_t q = 0; for (auto it = a.abegin(); it != a.aend(); ++it) { if (q >= o.size()) { vx_fail("aged iteration ends"); break; } vx_assert(it.getIndex() == o[q] && it->v == m[o[q]].v, "aged iteration visits the valid slots oldest first"); q++; } vx_assert(q == o.size(), "aged iteration is complete");
        q = 0; for (auto it = c.abegin(); it != c.aend(); ++it) { if (q >= o.size()) { vx_fail("const aged iteration ends"); break; } vx_assert(it.getIndex() == o[q], "const aged iteration visits the valid slots oldest first"); q++; } vx_assert(q == o.size(), "const aged iteration is complete");
        for (size_t i = 0; i < o.size(); i++) { vx_assert(a.getOldestIndex(i).getIndex() == o[i] && a.getYoungestIndex(i).getIndex() == o[o.size() - 1 - i] && a.getAge(o[i]) == i, "nth oldest, nth youngest and age"); }
        vx_assert(throws_([&] { a.getOldestIndex(n); }) && throws_([&] { a.getYoungestIndex(n); }), "asking for more entries than are valid is rejected");
    }
}
template<class A, bool AGED> static void ops(uint32_t cap, int steps) {
    Elem::live = 0; stamp = 0; { A a("a", cap, C); std::vector<Slot> m(cap);
    for (int s = 0; s < steps; s++) {
        uint64_t op = vx_pick(vx_range("op", 0, 3));
        if (op == 0) { uint32_t i = vx_pick(vx_range("at", 0, cap)), v = vx_u32("data"); Elem e(v); bool t;
            if (s & 1) t = throws_([&] { a.write(i, std::move(e)); }); else t = throws_([&] { a.write(i, e); });
            vx_assert(t == (i >= cap), "writing is rejected exactly beyond the array"); if (!t) m[i] = {true, v, ++stamp}; }
        else if (op == 1) { uint32_t i = vx_pick(vx_range("at", 0, cap)); bool ok = i < cap && m[i].val, t;
            if (s & 1) t = throws_([&] { a.erase(i); }); else t = throws_([&] { auto it = a.begin(); for (uint32_t k = 0; k < i; k++) ++it; a.erase(it); });
            vx_assert(t == !ok, "erasing is rejected exactly for invalid slots"); if (!t) m[i].val = false; }
        else if (op == 2) { a.clear(); for (auto& x : m) x.val = false; }
        else { uint32_t i = vx_pick(vx_range("at", 0, cap - 1)), j = vx_pick(vx_range("from", 0, cap - 1)); vx_assume(m[j].val); a.write(i, a.read(j)); m[i] = {true, m[j].v, ++stamp}; }
        { checka<A, AGED>(a, m); }
    } }
    vx_assert(Elem::live == 0, "no entry outlives the array"); vx_reach("end");
}
static int N(int q) { return vx_thorough() ? q + 1 : q; }
VX_ENTRY_S(aged2, setup) { ops<Array<Elem, ArrayType::AGED>, true>(2, N(4)); }
VX_ENTRY_S(aged3, setup) { ops<Array<Elem, ArrayType::AGED>, true>(3, N(4)); }
VX_ENTRY_S(normal3, setup) { ops<Array<Elem, ArrayType::NORMAL>, false>(3, N(4)); }
// aged iteration order after any order of writes and one erase
VX_ENTRY_S(aged_order, setup) {
    Elem::live = 0; stamp = 0; const uint32_t cap = 4; Array<Elem, ArrayType::AGED> a("a", cap, C); std::vector<Slot> m(cap);
    for (int s = 0; s < (vx_thorough() ? 5 : 4); s++) { uint32_t i = vx_pick(vx_range("at", 0, cap - 1)), v = vx_u32("data"); a.write(i, Elem(v)); m[i] = {true, v, ++stamp}; }
    uint32_t e = vx_pick(vx_range("erase", 0, cap - 1)); if (m[e].val) { a.erase(e); m[e].val = false; }
    checka<Array<Elem, ArrayType::AGED>, true>(a, m);
    // a circular iterator starting anywhere visits capacity slots and wraps
    uint32_t st = vx_pick(vx_range("start", 0, cap - 1)); auto ci = a.getCircularIterator(st); for (uint32_t k = 0; k < 2 * cap; k++) { vx_assert(ci.getIndex() == (st + k) % cap && ci.isValid() == m[ci.getIndex()].val, "a circular iterator wraps around"); ++ci; }
    vx_reach("end");
}
VX_ENTRY_S(front, setup) {
    typedef FrontArray<Elem, ArrayType::AGED> F; Elem::live = 0; stamp = 0; { const uint32_t cap = 3; F a("a", cap, C); std::vector<Slot> m(cap);
    for (int s = 0; s < N(4); s++) {
        uint64_t op = vx_pick(vx_range("op", 0, 4)); uint32_t n = 0; for (auto& x : m) n += x.val;
        if (op < 4) { uint32_t v = vx_u32("data"), i = 99; Elem e(v); bool t = throws_([&] { i = op == 0 ? a.writeFront(e) : op == 1 ? a.push_front(std::move(e)) : op == 2 ? a.writeBack(e) : a.push_back(std::move(e)); });
            vx_assert(t == (n == cap), "writing is rejected exactly when no slot is free"); if (t) continue;
            uint32_t x = 99; if (op <= 1) { for (x = 0; m[x].val; x++) ; } else { for (x = cap - 1; m[x].val; x--) ; }
            vx_assert(i == x, "the first free slot from that end is used"); m[x] = {true, v, ++stamp}; }
        else { uint32_t i = vx_pick(vx_range("at", 0, cap - 1)); vx_assume(m[i].val); a.erase(i); m[i].val = false; }
        checka<F, true>(a, m); uint32_t k = 0; for (uint32_t i = 0; i < cap; i++) if (m[i].val) { vx_assert(a.readValid(k).v == m[i].v, "readValid finds the nth valid slot"); k++; } vx_assert(throws_([&] { a.readValid(k); }), "readValid rejects more than there are");
    } } vx_assert(Elem::live == 0, "no entry outlives the array"); vx_reach("end");
}
