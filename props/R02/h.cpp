// sparta::Buffer against a list model, fixed size and infinite mode.
#include "common.h"
#include "track.h"
#include "sparta/resources/Buffer.hpp"
using namespace sparta; using namespace env;
typedef Buffer<Elem> B;
static void setup() { base(); }
struct Item { uint32_t v; int id; };
static void checkb(B& b, std::vector<Item>& m, uint32_t cap, bool inf) {
    vx_assert(b.size() == m.size() && b.numFree() == b.capacity() - m.size() && b.empty() == m.empty() && (inf ? b.capacity() >= m.size() : b.capacity() == cap), "size, free space and emptiness");
    const B& c = b;
    for (uint32_t i = 0; i < cap + 1; i++) { vx_assert(b.isValid(i) == (i < m.size()), "exactly the occupied indices are valid"); if (i < m.size()) vx_assert(c.read(i).v == m[i].v && b.access(i).v == m[i].v && c.read(i).tag == 0x600d, "entries in order"); }
    if (!m.empty()) vx_assert(b.accessBack().v == m.back().v, "accessBack is the last entry");
    size_t n = 0; for (auto it = b.begin(); it != b.end(); ++it) { if (n >= m.size()) { vx_fail("iteration ends"); break; } vx_assert(it->v == m[n].v && b.read(it).v == m[n].v, "iteration visits the entries in order"); n++; }
    vx_assert(n == m.size(), "iteration visits every entry");
    n = m.size(); for (auto it = c.rbegin(); it != c.rend(); ++it) { if (!n) { vx_fail("reverse iteration ends"); break; } n--; vx_assert(it->v == m[n].v && c.read(it).v == m[n].v, "reverse iteration"); } vx_assert(n == 0, "reverse iteration visits every entry");
    vx_assert(Elem::live == (int)m.size(), "exactly the entries held are alive");
}
static void ops(uint32_t cap, int steps, bool inf) {
    Elem::live = 0; { B b("b", cap, C); uint32_t delta = inf ? vx_pick(vx_range("delta", 1, 2)) : 0; if (inf) b.makeInfinite(delta);
    std::vector<Item> m; std::vector<std::pair<B::iterator, int>> its; int id = 0;
    for (int s = 0; s < steps; s++) {
        uint64_t op = vx_pick(vx_range("op", 0, 6)); bool full = !inf && m.size() == cap; B::iterator it;
        if (op == 0) { uint32_t v = vx_u32("data"); Elem e(v); bool t = throws_([&] { it = b.push_back(std::move(e)); }); vx_assert(t == full, "push_back is rejected exactly when the buffer is full"); if (!t) { if (b.capacity() != cap) { cap = b.capacity(); its.clear(); } m.push_back({v, id}); its.push_back({it, id++}); } }
        else if (op <= 2) { uint32_t i = vx_pick(vx_range("at", 0, m.size())), v = vx_u32("data"); Elem e(v);
            bool t = throws_([&] { if (op == 1) it = b.insert(i, e); else if (i == m.size()) it = b.insert(m.size() < cap ? i : i, std::move(e)); else { auto p = b.begin(); std::advance(p, i); it = b.insert(p, e); } });
            vx_assert(t == full, "insert is rejected exactly when the buffer is full"); if (!t) { if (b.capacity() != cap) { cap = b.capacity(); its.clear(); } m.insert(m.begin() + i, {v, id}); its.push_back({it, id++}); } }
        else if (op == 3) { uint32_t i = vx_pick(vx_range("at", 0, m.size())); bool t = throws_([&] { b.erase(i); }); vx_assert(t == (i >= m.size()), "erasing is rejected exactly beyond the last entry"); if (!t) m.erase(m.begin() + i); }
        else if (op == 4) { vx_assume(!m.empty()); uint32_t i = vx_pick(vx_range("at", 0, m.size() - 1));
            if (vx_bool("reverse")) { auto p = b.rbegin(); std::advance(p, m.size() - 1 - i); auto r = b.erase(B::const_reverse_iterator(B::const_iterator(p.base()))); m.erase(m.begin() + i); vx_assert(i ? r != b.rend() && r->v == m[i - 1].v : r == b.rend(), "erase through a reverse iterator returns the next one"); }
            else { auto p = b.begin(); std::advance(p, i); auto r = b.erase(p); m.erase(m.begin() + i); vx_assert(i < m.size() ? r.isValid() && r->v == m[i].v : r == b.end(), "erase through an iterator returns the next one"); } }
        else if (op == 5) { b.clear(); m.clear(); its.clear(); }
        else { vx_assume(!m.empty()); uint32_t i = vx_pick(vx_range("at", 0, m.size() - 1)), v = vx_u32("data"); b.access(i).v = v; m[i].v = v; }
        checkb(b, m, cap, inf);
        for (size_t j = 0; j < its.size();) { auto& p = its[j]; size_t k = 0; while (k < m.size() && m[k].id != p.second) k++;
            vx_assert(p.first.isValid() == (k < m.size()), "an iterator is valid exactly while its entry is in the buffer");
            if (k == m.size()) { vx_assert(throws_([&] { (void)*p.first; }), "dereferencing a stale iterator is rejected"); its.erase(its.begin() + j); continue; }   // its slot may be reused later
            vx_assert(p.first->v == m[k].v, "an iterator stays on its entry"); j++; }
    } }
    vx_assert(Elem::live == 0, "no entry outlives the buffer"); vx_reach("end");
}
static int N(int q) { return vx_thorough() ? q + 1 : q; }
VX_ENTRY_S(cap1, setup) { ops(1, N(4), false); }
VX_ENTRY_S(cap2, setup) { ops(2, N(4), false); }
VX_ENTRY_S(cap3, setup) { ops(3, N(4), false); }
VX_ENTRY_S(infinite, setup) { ops(vx_pick(vx_range("cap", 1, 2)), N(4), true); }
VX_ENTRY_S(moved, setup) {
    Elem::live = 0; { std::unique_ptr<B> a(new B("a", 3, C)); std::vector<Item> m; uint32_t n = vx_pick(vx_range("n", 0, 3)); for (uint32_t i = 0; i < n; i++) { uint32_t v = vx_u32("data"); a->push_back(Elem(v)); m.push_back({v, (int)i}); }
    if (n && vx_bool("erase")) { a->erase(0); m.erase(m.begin()); }
    B b(std::move(*a)); checkb(b, m, 3, false); a.reset(); checkb(b, m, 3, false);
    if (m.size() < 3) { uint32_t v = vx_u32("data"); b.insert(0, Elem(v)); m.insert(m.begin(), {v, 9}); checkb(b, m, 3, false); } }
    vx_assert(Elem::live == 0, "no entry outlives the buffer"); vx_reach("end");
}
