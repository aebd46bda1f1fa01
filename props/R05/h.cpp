// sparta::Pipe against a shift-register model.
#include "common.h"
#include "sparta/resources/Pipe.hpp"
using namespace sparta; using namespace env;
typedef Pipe<uint32_t> P;
static void setup() { base(); }
struct M { std::vector<bool> ok; std::vector<uint32_t> v; bool app = false; uint32_t av = 0; M(uint32_t n) : ok(n, false), v(n, 0) {}
    uint32_t n() const { uint32_t k = 0; for (bool b : ok) k += b; return k; }
    void update() { for (size_t i = ok.size() - 1; i > 0; i--) { ok[i] = ok[i - 1]; v[i] = v[i - 1]; } ok[0] = app; v[0] = av; app = false; }
    bool any() const { return n() || app; } };
static void checkp(P& p, M& m) {
    const P& c = p; uint32_t N = m.ok.size();
    vx_assert(p.capacity() == N && p.numValid() == m.n() && p.size() == m.n() && p.empty() == (m.n() == 0) && p.isAnyValid() == m.any() && p.isLastValid() == m.ok[N - 1], "counts of valid stages");
    vx_assert(p.isAppended() == m.app, "appended data waits in front"); if (m.app) vx_assert(p.readAppendedData() == m.av, "the appended data"); else vx_assert(throws_([&] { p.readAppendedData(); }), "reading missing appended data is rejected");
    for (uint32_t i = 0; i < N; i++) { vx_assert(p.isValid(i) == m.ok[i], "exactly the occupied stages are valid"); if (m.ok[i]) vx_assert(c.read(i) == m.v[i] && p.access(i) == m.v[i], "a stage holds the data shifted into it"); else vx_assert(throws_([&] { c.read(i); }) && throws_([&] { p.access(i); }), "reading an invalid stage is rejected"); }
    uint32_t k = 0; for (auto it = p.begin(); it != p.end(); ++it) { if (k >= N) { vx_fail("iteration ends"); break; } vx_assert(it.isValid() == m.ok[k], "iteration visits the stages in order"); if (m.ok[k]) vx_assert(*it == m.v[k], "iteration reads the stages"); k++; } vx_assert(k == N, "iteration visits every stage");
}
// one operation; returns true when it makes a self-updating pipe schedule an update
static bool op(P& p, M& m, bool own) {
    uint32_t N = m.ok.size(); uint64_t o = vx_pick(vx_range("op", 0, 9)); 
    if (o == 0) { uint32_t v = vx_u32("data"); bool t = throws_([&] { p.append(v); }); vx_assert(t == m.app, "a second append before the update is rejected"); if (!t) { m.app = true; m.av = v; } return !t; }
    if (o == 1) { uint32_t i = vx_pick(vx_range("stage", 0, N)), v = vx_u32("data"); bool t = throws_([&] { p.writePS(i, v); }); vx_assert(t == (i >= N), "writing beyond the last stage is rejected"); if (!t) { m.ok[i] = true; m.v[i] = v; } return !t; }
    if (o == 2) { uint32_t i = vx_pick(vx_range("stage", 0, N - 1)); bool t = throws_([&] { if (i == N - 1) p.invalidateLastPS(); else p.invalidatePS(i); }); vx_assert(t == !m.ok[i], "invalidating an invalid stage is rejected"); if (!t) m.ok[i] = false; return !t; }
    if (o == 3) { uint32_t i = vx_pick(vx_range("stage", 0, N - 1)); p.flushPS(i); m.ok[i] = false; return false; }
    if (o == 4) { p.flushAppend(); m.app = false; return false; }
    if (o == 5) { p.flushAll(); m.app = false; m.ok.assign(N, false); return false; }
    if (o == 6 || o == 7) { uint32_t v = vx_u32("match"); if (o == 6) p.flushIf(v); else p.flushIf([&](const uint32_t& x) { return x == v; });
        if (vx_pick(m.app && m.av == v)) m.app = false; for (uint32_t i = 0; i < N; i++) if (m.ok[i] && vx_pick(m.v[i] == v)) m.ok[i] = false; return false; }
    if (o == 8) { bool mv = m.app && !m.ok[0]; vx_assert(p.shiftAppend() == mv, "appended data shifts into stage 0 exactly when it is free"); if (mv) { m.ok[0] = true; m.v[0] = m.av; m.app = false; } return mv; }
    p.clear(); m.app = false; m.ok.assign(N, false); return false;
}
static int T(int q) { return vx_thorough() ? q + 1 : q; }
static void manual(uint32_t N, int steps) {
    P p("p", N, C); M m(N); checkp(p, m);
    for (int s = 0; s < steps; s++) { op(p, m, false); checkp(p, m); if (vx_bool("update")) { p.update(); m.update(); checkp(p, m); } }
    vx_assert(throws_([&] { p.isValid(N); }), "stages beyond the last are rejected"); vx_reach("end");
}
VX_ENTRY_S(manual1, setup) { manual(1, T(3)); }
VX_ENTRY_S(manual2, setup) { manual(2, T(3)); }
VX_ENTRY_S(manual3, setup) { manual(3, T(3)); }
// a self-updating pipe: everything moves one stage per cycle from the cycle after it was put in
VX_ENTRY_S(own, setup) {
    uint32_t N = vx_pick(vx_range("stages", 1, 3)); P p("p", N, C); M m(N); bool late = vx_bool("late"), own = false, pend = false; Driver d("drv", PHASES[vx_thorough() ? vx_pick(vx_range("phase", 2, 6)) : vx_bool("tick") ? 5 : 2]); go(1);
    if (!late) { p.performOwnUpdates(); own = true; }
    for (int s = 0; s < T(3); s++) { bool next = false;
        d.tick([&] { if (pend) { m.update(); next = m.any() && m.n(); } checkp(p, m);
            if (vx_bool("act")) if (op(p, m, own)) next |= own;
            if (late && s == 1) { p.performOwnUpdates(); own = true; if (m.any()) next = true; vx_assert(throws_([&] { p.update(); }), "manual updates of a self-updating pipe are rejected"); }
            checkp(p, m); });
        pend = next; }
    for (uint32_t s = 0; s < N + 2; s++) { if (pend) { m.update(); pend = m.n() > 0; } run(1); checkp(p, m); }
    if (own) vx_assert(p.empty(), "a self-updating pipe drains"); vx_reach("end");
}
// long runs with resizing: every entry reaches the end after exactly capacity updates
VX_ENTRY_S(long_run, setup) {
    uint32_t N = vx_pick(vx_range("stages", 1, 5)); P p("p", vx_pick(vx_range("initially", 1, 4)), C); p.resize(N); M m(N); uint32_t b = vx_u32("base"), pat = vx_pick(vx_range("pattern", 0, 15));
    for (uint32_t i = 0; i < 20; i++) { if (pat >> (i % 4) & 1) { p.append(b + i); m.app = true; m.av = b + i; } p.update(); m.update(); checkp(p, m); } vx_reach("end");
}
