// sparta::PriorityQueue and sparta::utils::FastList against list models.
#include "lite.h"
#include "track.h"
#include "sparta/resources/PriorityQueue.hpp"
#include "sparta/utils/FastList.hpp"
#include <list>
using namespace sparta;
static int T(int q) { return vx_thorough() ? q + 1 : q; }
struct KV { uint32_t k, id; bool operator==(const KV& o) const { return k == o.k && id == o.id; } };
struct ByK { bool operator()(const KV& a, const KV& b) const { return a.k < b.k; } };
template<class Q> static void checkq(Q& q, std::vector<KV>& m) {
    const Q& c = q; vx_assert(q.size() == m.size() && q.empty() == m.empty(), "size"); size_t i = 0;
    for (auto it = c.begin(); it != c.end(); ++it) { if (i >= m.size()) { vx_fail("iteration ends"); break; } vx_assert(*it == m[i], "entries by priority, equal ones in order of insertion"); i++; } vx_assert(i == m.size(), "iteration is complete");
    if (m.empty()) vx_assert(throws_([&] { q.top(); }) && throws_([&] { q.pop(); }), "top and pop of an empty queue are rejected"); else vx_assert(q.top() == m[0], "top is the first by priority");
}
template<class Q> static void pq(int steps, size_t cap, bool list) {
    Q q; std::vector<KV> m; uint32_t id = 0; bool forced = false;
    for (int s = 0; s < steps; s++) {
        uint64_t o = vx_pick(vx_range("op", 0, 4));
        if (o == 0) { KV x{vx_u32("key"), id++}; bool t = throws_([&] { q.insert(x); }); vx_assert(t == (cap && m.size() == cap), "rejected exactly when a bounded queue is full"); if (!t) { size_t i = 0; while (i < m.size() && !vx_pick(x.k < m[i].k)) i++; m.insert(m.begin() + i, x); } }
        else if (o == 1) { vx_assume(!m.empty()); q.pop(); m.erase(m.begin()); }
        else if (o == 2) { vx_assume(!m.empty()); uint32_t i = vx_pick(vx_range("at", 0, m.size() - 1)); auto it = q.begin(); for (uint32_t k = 0; k < i; k++) ++it; q.erase(it); m.erase(m.begin() + i); }
        else if (o == 3) { KV x{vx_u32("key"), id++}; vx_assume(!cap || m.size() < cap); q.forceFront(x); m.insert(m.begin(), x); }
        else { q.clear(); m.clear(); }
        checkq(q, m);
    } vx_reach("end");
}
VX_ENTRY(unbounded) { pq<PriorityQueue<KV, ByK>>(T(4), 0, true); }
VX_ENTRY(bounded) { pq<PriorityQueue<KV, ByK, 3>>(T(4), 3, false); }
VX_ENTRY(remove_back) {
    PriorityQueue<uint32_t> q; std::vector<uint32_t> m; uint32_t n = vx_pick(vx_range("n", 0, 3));
    for (uint32_t i = 0; i < n; i++) { uint32_t v = vx_u32("v"); q.insert(v); size_t j = 0; while (j < m.size() && !vx_pick(v < m[j])) j++; m.insert(m.begin() + j, v); }
    if (n) vx_assert(q.back() == m.back(), "back is the last by priority"); uint32_t x = vx_u32("x"); q.remove(x); for (size_t i = 0; i < m.size();) if (vx_pick(m[i] == x)) m.erase(m.begin() + i); else i++;
    vx_assert(q.size() == m.size(), "remove drops exactly the equal entries"); size_t i = 0; for (auto& v : q) { vx_assert(v == m[i], "remaining order"); i++; } vx_reach("end");
}
static void fl(uint32_t cap, int steps) {
    Elem::live = 0; { utils::FastList<Elem> l(cap); std::list<uint32_t> m; typedef utils::FastList<Elem>::iterator It; std::vector<std::pair<It, std::list<uint32_t>::iterator>> its;
    for (int s = 0; s < steps; s++) {
        uint64_t o = vx_pick(vx_range("op", 0, 6)); bool full = m.size() == cap; uint32_t v = vx_u32("data"); Elem e(v); It it; std::list<uint32_t>::iterator mi;
        if (o <= 1) { bool t = throws_([&] { it = o ? l.emplace_front(e) : l.emplace_back(e); }); vx_assert(t == full, "adding is rejected exactly when the list is full"); if (!t) { if (o) { m.push_front(v); mi = m.begin(); } else { m.push_back(v); mi = --m.end(); } its.push_back({it, mi}); } }
        else if (o == 2) { uint32_t i = vx_pick(vx_range("at", 0, m.size())); auto p = l.begin(); mi = m.begin(); for (uint32_t k = 0; k < i; k++) { ++p; ++mi; } bool t = throws_([&] { it = l.insert(p, e); }); vx_assert(t == full, "inserting is rejected exactly when the list is full"); if (!t) { mi = m.insert(mi, v); its.push_back({it, mi}); } }
        else if (o == 3) { vx_assume(!its.empty()); uint32_t i = vx_pick(vx_range("which", 0, its.size() - 1)); it = l.erase(its[i].first); mi = m.erase(its[i].second); its.erase(its.begin() + i); vx_assert(mi == m.end() ? it == l.end() : it.isValid() && it->v == *mi, "erase returns the next entry"); }
        else if (o == 4) { bool t = throws_([&] { l.pop_front(); }); vx_assert(t == m.empty(), "popping an empty list is rejected"); if (!t) { for (size_t i = 0; i < its.size();) if (its[i].second == m.begin()) its.erase(its.begin() + i); else i++; m.pop_front(); } }
        else if (o == 5) { bool t = throws_([&] { l.pop_back(); }); vx_assert(t == m.empty(), "popping an empty list is rejected"); if (!t) { for (size_t i = 0; i < its.size();) if (its[i].second == --m.end()) its.erase(its.begin() + i); else i++; m.pop_back(); } }
        else { l.clear(); m.clear(); its.clear(); }
        vx_assert(l.size() == m.size() && l.empty() == m.empty() && l.max_size() == cap, "size"); mi = m.begin(); const auto& c = l;
        for (auto p = c.begin(); p != c.end(); ++p) { if (mi == m.end()) { vx_fail("iteration ends"); break; } vx_assert(p->v == *mi && p->tag == 0x600d, "entries in order"); ++mi; } vx_assert(mi == m.end(), "iteration is complete");
        if (!m.empty()) vx_assert(l.front().v == m.front(), "front"); for (auto& p : its) vx_assert(p.first->v == *p.second, "iterators of remaining entries stay on them"); 
    } vx_assert(Elem::live == (int)m.size(), "exactly the entries held are alive"); }
    vx_assert(Elem::live == 0, "no entry outlives the list"); vx_reach("end");
}
VX_ENTRY(fastlist1) { fl(1, T(5)); }
VX_ENTRY(fastlist2) { fl(2, T(5)); }
VX_ENTRY(fastlist3) { fl(3, T(4)); }
