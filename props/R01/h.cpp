// sparta::Queue against a list model.
#include "common.h"
#include "track.h"
#include "sparta/resources/Queue.hpp"
#include "sparta/statistics/StatisticSet.hpp"
using namespace sparta; using namespace env;
typedef Queue<Elem> Q;
static void setup() { base(); }
// start from any number of earlier pushes (the counter behind iterator identity)
template<class T, uint64_t T::*M> struct Priv { friend uint64_t& pushes(T& q) { return q.*M; } };
uint64_t& pushes(Q&); template struct Priv<Q, &Q::obj_id_>;
struct Item { uint32_t v; int id; };
static void checkq(Q& q, std::vector<Item>& m, uint32_t cap) {
    vx_assert(q.size() == m.size() && q.numFree() == cap - m.size() && q.empty() == m.empty() && q.capacity() == cap, "size, free space and emptiness");
    const Q& c = q;
    for (uint32_t i = 0; i < cap + 1; i++) {
        vx_assert(q.isValid(i) == (i < m.size()), "exactly the occupied indices are valid");
        if (i < m.size()) vx_assert(c.read(i).v == m[i].v && q.access(i).v == m[i].v && c.read(i).tag == 0x600d, "entries in insertion order");
    }
    if (!m.empty()) vx_assert(q.front().v == m.front().v && q.back().v == m.back().v, "front is the oldest and back the newest entry");
    size_t n = 0; for (auto it = c.begin(); it != c.end(); ++it) { if (n >= m.size()) { vx_fail("iteration ends"); break; } vx_assert((*it).v == m[n].v && it.getIndex() == n, "iteration visits the entries in order"); n++; }
    vx_assert(n == m.size(), "iteration visits every entry");
    auto it = q.end(); for (n = m.size(); n > 0; n--) { --it; vx_assert(it->v == m[n - 1].v, "backward iteration"); }
    vx_assert(it == q.begin(), "backward iteration ends at begin"); vx_assert(Elem::live == (int)m.size(), "exactly the entries held are alive");
}
static void ops(uint32_t cap, int steps, bool anyhist) {
    Elem::live = 0; { Q q("q", cap, C); std::vector<Item> m; std::vector<std::pair<Q::iterator, int>> its; int id = 0;
    if (anyhist) { uint64_t h = vx_u64("earlier_pushes"); vx_assume(h < (uint64_t(1) << 40)); pushes(q) = h; }
    checkq(q, m, cap);
    for (int s = 0; s < steps; s++) {
        uint64_t op = vx_pick(vx_range("op", 0, 5));
        if (op <= 1) { uint32_t v = vx_u32("data"); Elem e(v); bool full = m.size() == cap; Q::iterator it;
            bool t = throws_([&] { if (op) it = q.push(std::move(e)); else it = q.push(e); });
            vx_assert(t == full, "a push is rejected exactly when the queue is full");
            if (!t) { m.push_back({v, id}); its.push_back({it, id++}); } }
        else if (op == 2) { bool t = throws_([&] { q.pop(); }); vx_assert(t == m.empty(), "a pop is rejected exactly when the queue is empty"); if (!t) m.erase(m.begin()); }
        else if (op == 3) { bool t = throws_([&] { q.pop_back(); }); vx_assert(t == m.empty(), "a pop_back is rejected exactly when the queue is empty"); if (!t) m.pop_back(); }
        else if (op == 4) { q.clear(); m.clear(); }
        else { vx_assume(!m.empty()); uint32_t i = vx_pick(vx_range("idx", 0, m.size() - 1)), v = vx_u32("data"); q.access(i).v = v; m[i].v = v; }
        checkq(q, m, cap);
        for (auto& p : its) { bool in = false; size_t k = 0; for (; k < m.size(); k++) if (m[k].id == p.second) { in = true; break; }
            vx_assert(p.first.isValid() == in, "an iterator is valid exactly while its entry is in the queue");
            if (in) { vx_assert(p.first->v == m[k].v && p.first.getIndex() == k, "an iterator stays on its entry"); auto n = p.first; ++n; vx_assert(k + 1 < m.size() ? n.isValid() && n->v == m[k + 1].v : n == q.end(), "incrementing an iterator"); }
            else vx_assert(throws_([&] { (void)*p.first; }), "dereferencing a stale iterator is rejected"); }
    }
    vx_assert(throws_([&] { q.read(m.size()); }) && throws_([&] { q.access(cap); }), "reading beyond the entries is rejected");
    if (m.empty()) vx_assert(throws_([&] { q.front(); }) && throws_([&] { q.back(); }), "front and back of an empty queue are rejected"); }
    vx_assert(Elem::live == 0, "no entry outlives the queue"); vx_reach("end");
}
static int N(int q) { return vx_thorough() ? q + 1 : q; }
VX_ENTRY_S(cap1, setup) { ops(1, N(6), false); }
VX_ENTRY_S(cap2, setup) { ops(2, N(6), false); }
VX_ENTRY_S(cap3, setup) { ops(3, N(6), false); }
VX_ENTRY_S(any_history, setup) { ops(2, N(3), true); }
// long rotations: the window wraps around the storage many times
VX_ENTRY_S(wrap, setup) {
    uint32_t cap = vx_pick(vx_range("cap", 1, 5)); Elem::live = 0; Q q("q", cap, C); std::vector<Item> m; uint32_t b = vx_u32("base");
    uint32_t fill = vx_pick(vx_range("fill", 1, cap)), rot = vx_pick(vx_range("rot", 0, 20)); int id = 0;
    for (uint32_t i = 0; i < fill; i++) { q.push(Elem(b + id)); m.push_back({b + id, id}); id++; }
    for (uint32_t i = 0; i < rot; i++) { q.pop(); m.erase(m.begin()); q.push(Elem(b + id)); m.push_back({b + id, id}); id++; }
    checkq(q, m, cap); while (!m.empty()) { if (vx_thorough() && vx_bool("end")) { q.pop_back(); m.pop_back(); } else { q.pop(); m.erase(m.begin()); } checkq(q, m, cap); } vx_reach("end");
}
