// sparta::CircularBuffer against a list model.
#include "common.h"
#include "track.h"
#include "sparta/resources/CircularBuffer.hpp"
using namespace sparta; using namespace env;
typedef CircularBuffer<Elem> B;
static void setup() { base(); }
// start from any number of earlier pushes (the counters behind iterator identity)
template<class T, uint64_t T::*M> struct PrivS { friend uint64_t& starts(T& q) { return q.*M; } };
template<class T, uint64_t T::*M> struct PrivE { friend uint64_t& ends(T& q) { return q.*M; } };
uint64_t& starts(B&); template struct PrivS<B, &B::start_idx_>;
uint64_t& ends(B&); template struct PrivE<B, &B::end_idx_>;
struct Item { uint32_t v; int id; };
static void checkb(B& b, std::vector<Item>& m, uint32_t cap) {
    const B& c = b;
    vx_assert(b.size() == m.size() && b.capacity() == cap && b.numFree() == cap - m.size(), "size and free space");
    for (uint32_t i = 0; i <= cap; i++) vx_assert(b.isValid(i) == (i < m.size()), "exactly the occupied indices are valid");
    for (uint32_t i = 0; i < m.size(); i++) vx_assert(b[i].v == m[i].v, "indexed reads");
    size_t n = 0; for (auto it = c.begin(); it != c.end(); ++it) { if (n >= m.size()) { vx_fail("iteration ends"); break; } vx_assert((*it).v == m[n].v && (*it).tag == 0x600d, "iteration visits the entries oldest first"); n++; }
    vx_assert(n == m.size(), "iteration visits every entry");
    for (auto it = b.rbegin(); it != b.rend(); ++it) { if (!n) { vx_fail("reverse iteration ends"); break; } n--; vx_assert((*it).v == m[n].v, "reverse iteration visits the entries newest first"); }
    vx_assert(n == 0, "reverse iteration visits every entry");
    vx_assert(Elem::live == (int)m.size(), "exactly the entries held are alive");
}
static void ops(uint32_t cap, int steps, bool anyhist) {
    Elem::live = 0; { B b("b", cap, C); std::vector<Item> m; int id = 0; std::vector<std::pair<B::iterator, int>> its;
    if (anyhist) { uint64_t h = vx_u64("earlier_pushes"); vx_assume(h < (uint64_t(1) << 40)); starts(b) = ends(b) = h; }
    for (int s = 0; s < steps; s++) {
        uint64_t op = vx_pick(vx_range("op", 0, 3));
        if (op == 0) { uint32_t v = vx_u32("data"); Elem e(v); if (s & 1) b.push_back(std::move(e)); else b.push_back(e);
            if (m.size() == cap) m.erase(m.begin()); m.push_back({v, id}); auto it = b.end(); --it; its.push_back({it, id++}); }
        else if (op == 1) { uint32_t v = vx_u32("data"); Elem e(v);
            if (m.empty()) { auto it = b.insert(b.begin(), e); m.push_back({v, id}); vx_assert((*it).v == v, "insert returns the new entry"); its = {{it, id++}}; }
            else { uint32_t i = vx_pick(vx_range("at", 0, m.size() - 1)); auto p = b.begin(); std::advance(p, i); B::iterator it;
                if (s & 1) it = b.insert(p, e); else it = b.insert(B::const_iterator(p), std::move(e));
                if (m.size() == cap) { m.erase(m.begin()); if (i) i--; }
                m.insert(m.begin() + i, {v, id}); for (auto& o : its) o.second = -1; its.push_back({it, id++}); } }
        else if (op == 2) { if (m.empty()) { vx_assert(throws_([&] { b.erase(b.begin()); }), "erasing from an empty buffer is rejected"); continue; }
            uint32_t i = vx_pick(vx_range("at", 0, m.size() - 1));
            if (vx_bool("reverse")) { auto p = b.rbegin(); std::advance(p, m.size() - 1 - i); b.erase(p); } else { auto p = b.begin(); std::advance(p, i); b.erase(p); }
            m.erase(m.begin() + i); for (auto& o : its) o.second = -1; }
        else { b.clear(); m.clear(); }
        checkb(b, m, cap);
        for (auto& p : its) { size_t k = 0; while (k < m.size() && m[k].id != p.second) k++; bool in = k < m.size();
            vx_assert(p.first.isValid() == in, "an iterator is valid exactly while its entry is in the buffer and nothing was inserted or erased");
            if (in) { vx_assert((*p.first).v == m[k].v, "an iterator stays on its entry"); auto n = p.first; ++n; vx_assert(k + 1 < m.size() ? n.isValid() && (*n).v == m[k + 1].v : n == b.end(), "incrementing an iterator"); }
            else vx_assert(throws_([&] { (void)*p.first; }), "dereferencing a stale iterator is rejected"); }
    }
    vx_assert(throws_([&] { b[m.size()]; }), "reading beyond the entries is rejected"); }
    vx_assert(Elem::live == 0, "no entry outlives the buffer"); vx_reach("end");
}
static int N(int q) { return vx_thorough() ? q + 1 : q; }
VX_ENTRY_S(cap1, setup) { ops(1, N(5), false); }
VX_ENTRY_S(cap2, setup) { ops(2, N(5), false); }
VX_ENTRY_S(cap3, setup) { ops(3, N(5), false); }
VX_ENTRY_S(any_history, setup) { ops(2, N(3), true); }
VX_ENTRY_S(wrap, setup) {
    uint32_t cap = vx_pick(vx_range("cap", 1, 4)), n = vx_pick(vx_range("n", 0, 12)); Elem::live = 0; B b("b", cap, C); std::vector<Item> m; uint32_t v0 = vx_u32("base");
    for (uint32_t i = 0; i < n; i++) { b.push_back(Elem(v0 + i)); if (m.size() == cap) m.erase(m.begin()); m.push_back({v0 + i, (int)i}); checkb(b, m, cap); }
    vx_reach("end");
}
