// sparta::Pipeline: data movement, stalls, flushes and stage events against a cycle model.
#include "common.h"
#include "sparta/resources/Pipeline.hpp"
using namespace sparta; using namespace env;
static void setup() { base(); }
struct Fire { uint64_t t; uint32_t stage; bool ok; uint32_t v; bool operator==(const Fire& o) const { return t == o.t && stage == o.stage && ok == o.ok && (!ok || v == o.v); } };
// the specification: one clock of the pipeline
struct M {
    uint32_t N; std::vector<bool> ok, has, act, hold; std::vector<uint32_t> v; bool app = false; uint32_t av = 0; int stage = -1; uint32_t cyc = 0; bool suppress = false; bool pend = false; std::vector<std::pair<bool, uint32_t>> due;
    M(uint32_t n) : N(n), ok(n), has(n), act(n), hold(n), v(n), due(n) {}
    uint32_t n() const { uint32_t k = 0; for (bool b : ok) k += b; return k; } bool any() const { return n() || app; }
    void release() { for (int i = 0; i <= stage; i++) { hold[i] = false; if (has[i]) act[i] = true; } stage = -1; cyc = 0; }
    void update() {
        if (stage < 0) { for (uint32_t i = N - 1; i > 0; i--) { ok[i] = ok[i - 1]; v[i] = v[i - 1]; } ok[0] = app; v[0] = av; app = false; }
        else {
            ok[N - 1] = ok[N - 1] && (uint32_t)stage == N - 1;
            for (int i = N - 1; i > 0; i--) { bool adv = i - 1 > stage || !hold[i - 1]; if (adv && ok[i - 1] && !ok[i]) { ok[i] = true; v[i] = v[i - 1]; ok[i - 1] = false; } }
            if (app && !ok[0]) { ok[0] = true; v[0] = av; app = false; }
        }
        for (uint32_t i = 0; i < N; i++) due[i] = {ok[i] && has[i] && act[i], v[i]};
        if (stage >= 0 && --cyc == 0) release();
    }
    void stall(int s, uint32_t c, bool crush, bool sup) { if (!c) return; stage = s; cyc = c; for (int i = s; i >= 0; i--) { if (crush && !ok[i]) break; if (sup && has[i]) act[i] = false; hold[i] = true; } }
};
static uint64_t pick(const char* n, uint64_t lo, uint64_t hi) { return vx_pick(vx_range(n, lo, hi)); }
template<class E> struct Box {
    Pipeline<uint32_t, E> p; std::vector<Fire> log; uint32_t N;
    template<int I> struct H { Box* b; void f() { b->log.push_back({now(), I, b->p.isValid(I), b->p.isValid(I) ? b->p[I] : 0}); } void g(const uint32_t& v) { b->log.push_back({now(), I, true, v}); } };
    H<0> h0{this}; H<1> h1{this}; H<2> h2{this};
    Box(uint32_t n, uint32_t mask) : p(ES, "pl", n, C), N(n) { for (uint32_t i = 0; i < n; i++) if (mask >> i & 1) reg(i); }
    void reg(uint32_t i) {
        if constexpr (std::is_same_v<E, PhasedUniqueEvent>) { if (i == 0) p.registerHandlerAtStage(0, SpartaHandler::from_member<H<0>, &H<0>::f>(&h0, "h0")); if (i == 1) p.registerHandlerAtStage(1, SpartaHandler::from_member<H<1>, &H<1>::f>(&h1, "h1")); if (i == 2) p.registerHandlerAtStage(2, SpartaHandler::from_member<H<2>, &H<2>::f>(&h2, "h2")); }
        else { if (i == 0) p.registerHandlerAtStage(0, SpartaHandler::from_member_1<H<0>, uint32_t, &H<0>::g>(&h0, "h0")); if (i == 1) p.registerHandlerAtStage(1, SpartaHandler::from_member_1<H<1>, uint32_t, &H<1>::g>(&h1, "h1")); if (i == 2) p.registerHandlerAtStage(2, SpartaHandler::from_member_1<H<2>, uint32_t, &H<2>::g>(&h2, "h2")); } }
};
template<class P> static void checkp(P& p, M& m) {
    vx_assert(p.capacity() == m.N && p.numValid() == m.n() && p.size() == m.n() && p.empty() == (m.n() == 0) && p.isAnyValid() == m.any() && p.isLastValid() == m.ok[m.N - 1] && p.isAppended() == m.app, "occupancy");
    if (m.app) vx_assert(p.readAppendedData() == m.av, "appended data waits");
    for (uint32_t i = 0; i < m.N; i++) { vx_assert(p.isValid(i) == m.ok[i], "exactly the occupied stages are valid"); if (m.ok[i]) vx_assert(p[i] == m.v[i] && p.at(i) == m.v[i], "a stage holds the data moved into it"); }
    vx_assert(p.isStalledOrStalling() == (m.stage >= 0), "stalled exactly for the requested cycles"); for (uint32_t i = 0; i < m.N; i++) vx_assert(p.isStalledOrStallingAtStage(i) == (m.stage >= (int)i), "the stages up to the stall point are stalled");
    uint32_t k = 0; for (auto it = p.begin(); it != p.end(); ++it) { if (k >= m.N) { vx_fail("iteration ends"); break; } vx_assert(it.isValid() == m.ok[k], "iteration visits the stages"); if (m.ok[k]) vx_assert(*it == m.v[k], "iteration reads the stages"); k++; }
}
// operations of one cycle; own: the pipeline updates itself
template<class P> static void op(P& p, M& m, bool own, bool& next, int maxop) {
    uint64_t o = pick("op", 0, maxop);
    if (o == 0) return;
    if (o == 1) { uint32_t v = vx_u32("data"); bool t = throws_([&] { p.append(v); }); vx_assert(t == m.app, "a second append before it moves is rejected"); if (!t) { m.app = true; m.av = v; next |= own; } }
    else if (o == 2) { bool can = m.stage < 0; uint32_t s = pick("stage", 0, m.N - 1), c = pick("cycles", 0, 2); bool cr = vx_bool("crush"), su = vx_bool("suppress"); bool t = throws_([&] { p.stall(s, c, cr, su); }); vx_assert(t == (!can || !m.ok[s]), "stalling an empty stage or a stalled pipeline is rejected"); if (!t) m.stall(s, c, cr, su); }
    else if (o == 3) { uint32_t s = pick("stage", 0, m.N - 1); uint64_t how = pick("how", 0, 1); if (how == 0) p.flushStage(s); else { auto it = p.begin(); for (uint32_t i = 0; i < s; i++) ++it; p.flushStage(it); } m.due[s].first = false; if ((int)s == m.stage) m.release(); m.ok[s] = false; }
    else if (o == 4) { uint32_t s = pick("stage", 0, m.N - 1), v = vx_u32("data"); p.writeStage(s, v); m.ok[s] = true; m.v[s] = v; next |= own; }
    else if (o == 5) { uint32_t s = pick("stage", 0, m.N - 1); bool t = throws_([&] { p.invalidateStage(s); }); vx_assert(t == !m.ok[s], "invalidating an empty stage is rejected"); if (!t) { m.ok[s] = false; next |= own; } }
    else if (o == 6) { bool t = throws_([&] { p.clearStall(); }); vx_assert(t == (m.stage < 0), "clearing a stall needs one"); if (!t) m.release(); }
    else if (o == 7) { p.flushAllStages(); for (uint32_t s = 0; s < m.N; s++) { m.due[s].first = false; if ((int)s == m.stage) m.release(); m.ok[s] = false; } }
    else if (o == 8) { p.flushAppend(); m.app = false; }
    else if (o == 9) { uint32_t s = pick("stage", 0, m.N - 1); vx_assume(m.has[s]); p.deactivateEventAtStage(s); m.act[s] = false; }
    else { uint32_t s = pick("stage", 0, m.N - 1); vx_assume(m.has[s]); p.activateEventAtStage(s); m.act[s] = true; }
    checkp(p, m);
}
template<class E> static void fires(Box<E>& b, M& m, uint64_t t, int order) {
    std::vector<Fire> want; for (uint32_t k = 0; k < m.N; k++) { uint32_t i = order < 0 ? m.N - 1 - k : k; if (m.due[i].first) { bool pay = !std::is_same_v<E, PhasedUniqueEvent>; want.push_back({t, i, pay || m.ok[i], pay ? m.due[i].second : m.v[i]}); } m.due[i].first = false; }
    std::vector<Fire> got = b.log; b.log.clear(); if (!order) { auto f = [](const Fire& x, const Fire& y) { return x.stage < y.stage; }; std::stable_sort(got.begin(), got.end(), f); }
    vx_assert(got == want, "each stage that holds data, is active and was not flushed runs its handler once, in precedence order, with its data");
}
template<class E> static void cycles(uint32_t N, int steps, int maxop, bool prefill) {
    uint32_t mask = pick("handlers", 0, 1) ? (1u << N) - 1 : 1u | 1u << (N - 1); Box<E> b(N, mask); auto& p = b.p; M m(N); for (uint32_t i = 0; i < N; i++) m.has[i] = m.act[i] = mask >> i & 1;
    int order = pick("precedence", 0, 1) ? 1 : -1; p.setDefaultStagePrecedence(order > 0 ? Pipeline<uint32_t, E>::Precedence::FORWARD : Pipeline<uint32_t, E>::Precedence::BACKWARD);
    p.performOwnUpdates(); Driver d("drv", SchedulingPhase::Flush); go(1); bool next = false;
    auto cycle = [&](bool act) { uint64_t t = now(); bool pend = next; next = false;
        d.tick([&] { if (pend) { m.update(); next = m.any(); } checkp(p, m); if (act) op(p, m, true, next, maxop); });
        checkp(p, m); fires(b, m, t, order); };
    if (prefill) { uint32_t occ = pick("occupied", 1, (1u << N) - 1); d.tick([&] { for (uint32_t i = 0; i < N; i++) if (occ >> i & 1) { uint32_t v = vx_u32("data"); p.writeStage(i, v); m.ok[i] = true; m.v[i] = v; next = true; } }); }
    for (int s = 0; s < steps; s++) cycle(true);
    for (uint32_t s = 0; s < N + 3; s++) cycle(false);
    if (!next) vx_assert(p.empty() || m.stage >= 0, "a self-updating pipeline drains"); vx_reach("end");
}
static int T(int q) { return vx_thorough() ? q + 1 : q; }
VX_ENTRY_S(unique3, setup) { cycles<PhasedUniqueEvent>(3, T(2), 10, true); }
VX_ENTRY_S(payload3, setup) { cycles<PhasedPayloadEvent<uint32_t>>(3, T(1), 10, true); }
VX_ENTRY_S(appends, setup) { cycles<PhasedUniqueEvent>(2, T(3), 3, false); }
// several operations in the same cycle (stall, then flush or invalidate, ...)
VX_ENTRY_S(same_cycle, setup) {
    const uint32_t N = 2; Box<PhasedUniqueEvent> b(N, 3); auto& p = b.p; M m(N); m.has = m.act = {true, true}; p.performOwnUpdates(); Driver d("drv", SchedulingPhase::Flush); go(1); bool next = false;
    auto cycle = [&](int ops) { uint64_t t = now(); bool pend = next; next = false; d.tick([&] { if (pend) { m.update(); next = m.any(); } for (int i = 0; i < ops; i++) op(p, m, true, next, 10); }); checkp(p, m); fires(b, m, t, 0); };
    uint32_t occ = pick("occupied", 1, 3); d.tick([&] { for (uint32_t i = 0; i < N; i++) if (occ >> i & 1) { uint32_t v = vx_u32("data"); p.writeStage(i, v); m.ok[i] = true; m.v[i] = v; next = true; } });
    cycle(T(2)); cycle(0); cycle(0); cycle(0); vx_reach("end");
}
// manual updates behave the same; own updates may start later
VX_ENTRY_S(manual, setup) {
    const uint32_t N = 3; Box<PhasedUniqueEvent> b(N, 5); auto& p = b.p; M m(N); m.has = m.act = {true, false, true}; Driver d("drv", SchedulingPhase::Update); go(1); bool dummy = false;
    for (int s = 0; s < T(2); s++) { uint64_t t = now(); d.tick([&] { op(p, m, false, dummy, 5); if (vx_bool("update")) { p.update(); m.update(); checkp(p, m); } }); fires(b, m, t, 0); }
    vx_reach("end");
}
