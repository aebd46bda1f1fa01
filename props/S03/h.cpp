// How far a run goes, what it fires, where time stands afterwards; clearing and restarting.
#include "common.h"
#include "sparta/events/StartupEvent.hpp"
using namespace sparta; using namespace env;
struct P { uint64_t t; int who; bool cont; bool stop; };
static std::vector<P> pend; static std::vector<std::pair<uint64_t, int>> got; static int startups; static uint64_t startup_at;
static bool stopper[3];
struct H {
    Event<> e0{ES, "e0", CREATE_SPARTA_HANDLER(H, f0)}, e1{ES, "e1", CREATE_SPARTA_HANDLER(H, f1)}, e2{ES, "e2", CREATE_SPARTA_HANDLER(H, f2)};
    PayloadEvent<uint32_t> pl{ES, "pl", CREATE_SPARTA_HANDLER_WITH_DATA(H, fp, uint32_t)};
    SingleCycleUniqueEvent<> sc{ES, "sc", CREATE_SPARTA_HANDLER(H, fs)};
    UniqueEvent<> uq{ES, "uq", CREATE_SPARTA_HANDLER(H, fu)};
    StartupEvent st{ES, CREATE_SPARTA_HANDLER(H, fst)};
    void f(int i) { got.push_back({now(), i}); if (stopper[i]) S->stopRunning(); }
    void f0() { f(0); } void f1() { f(1); } void f2() { f(2); }
    void fp(const uint32_t& x) { got.push_back({now(), 10 + (int)x}); } void fs() { got.push_back({now(), 20}); } void fu() { got.push_back({now(), 30}); }
    void fst() { vx_assert(got.empty(), "start-up handlers run before any event"); startups++; startup_at = now(); }
    Event<>& e(int i) { return i == 0 ? e0 : i == 1 ? e1 : e2; }
};
static H* h;
static void setup0() { base(); h = new H; go(0); }
static void setup() { setup0(); run(1); }
static const uint64_t INF = Scheduler::INDEFINITE;
static bool ran = false, restarted = false, early = false;   // early: a stopped run may leave its limit as the latest continuing time
// one run, checked against the specification
static void do_run(uint64_t n, bool exact) {
    uint64_t t0 = now(); got.clear();
    uint64_t limit = n == INF ? INF : t0 + n - 1;
    uint64_t lastc = 0, first0 = INF; bool anyc = false; for (auto& p : pend) first0 = std::min(first0, p.t);
    for (auto& p : pend) if (p.cont) { anyc = true; lastc = std::max(lastc, p.t); }
    S->run(n, exact, false);
    if (n) ran = true;
    uint64_t t1 = now(); uint64_t lastf = 0; bool stopped = false; uint64_t stop_t = 0;
    std::vector<P> rest;
    for (auto& g : got) {
        bool f = false;
        for (auto& p : pend) if (p.t == g.first && p.who == g.second) { f = true; p.who = -1; if (p.stop) { stopped = true; stop_t = p.t; } break; }
        vx_assert(f, "only pending events fire, each once, at its time");
        vx_assert(g.first >= lastf, "events fire in time order"); lastf = g.first;
        if ((!exact || n == INF) && !early) vx_assert(g.first <= lastc || g.first == first0, "a run does not go on past the last continuing event for events that are not continuing");
        vx_assert(n != 0 && g.first <= limit, "a bounded run fires nothing at or beyond its limit");
    }
    for (auto& p : pend) if (p.who >= 0) rest.push_back(p);
    pend = rest;
    bool cont_left = false;
    for (auto& p : pend) {
        cont_left |= p.cont;
        if (n == 0) continue;
        bool must = p.t <= limit && (!stopped || p.t <= stop_t) && (exact && n != INF ? true : (anyc && p.t <= lastc));
        vx_assert(!must, "a run fires every event due before its end");
    }
    if (n == 0) { vx_assert(t1 == t0, "a run of zero ticks does nothing"); return; }
    if (stopped) { early = true; vx_assert(t1 == stop_t + 1, "a stopped run ends with the tick that stopped it"); vx_reach("stopped"); }
    else if (exact && n != INF) { vx_assert(t1 == t0 + n, "an exact run advances time by exactly the ticks asked for"); }
    else { vx_assert(t1 >= t0 && (got.empty() || t1 >= lastf + 1) && (n == INF || t1 <= t0 + n), "an upper-bounded run does not overrun");
           if (n == INF && !got.empty() && !stopper[1]) vx_assert(t1 == lastf + 1, "an unbounded run ends right after the last event fired"); }
    if (t1 > t0 && !restarted) vx_assert(S->getElapsedTicks() == t1 - 1, "elapsed ticks trail the current tick by one");

    vx_assert(!S->isRunning(), "not running after a run");
    if (!got.empty() && !stopper[1]) vx_assert(S->isFinished() == !cont_left, "finished exactly when no continuing event remains");
    uint64_t first = INF; for (auto& p : pend) first = std::min(first, p.t);
    vx_assert(S->nextEventTick() <= first, "the next event tick is not past the first pending event");
}
static void sched(int i, uint64_t d, bool c, bool st) { h->e(i).setContinuing(c); h->e(i).schedule(d); stopper[i] = st; pend.push_back({now() + d, i, c, st}); }
static void scenario(int runs, uint64_t D, bool stops) {
    for (int i = 0; i < 3; i++) sched(i, vx_pick(vx_range("delay", 0, D)), vx_bool("continuing"), stops && i == 1 && vx_bool("stop"));
    vx_assert(!ran || S->nextEventTick() <= std::min(pend[0].t, std::min(pend[1].t, pend[2].t)), "next event tick");
    for (int r = 0; r < runs; r++) {
        uint64_t n = vx_pick(vx_range("ticks", 0, D + 2)); bool exact = false;
        if (n == D + 2) n = INF; else exact = vx_bool("exact");
        do_run(n, exact);
    }
    if (pend.empty()) vx_reach("all fired"); else vx_reach("some left");
    do_run(12, true); vx_assert(pend.empty() || stopper[1], "events left by earlier runs fire in later runs");
}
VX_ENTRY_S(runs, setup) { scenario(2, vx_thorough() ? 3 : 2, false); }
VX_ENTRY_S(runs_first, setup0) { scenario(1, 3, true); vx_assert(startups == 1 && startup_at == 0, "start-up handlers run exactly once, before the first tick"); }
VX_ENTRY_S(stops, setup) { scenario(vx_thorough() ? 3 : 2, 2, true); }
// exact runs compose: any split fires the same events at the same times
VX_ENTRY_S(split, setup) {
    for (int i = 0; i < 2; i++) sched(i, vx_range("delay", 0, 60), i != 1, false);
    uint64_t a = 1 + 19 * vx_pick(vx_range("a", 0, 2)), b = 1 + 19 * vx_pick(vx_range("b", 0, 2)); uint64_t t0 = now();
    do_run(a, true); do_run(b, true); vx_assert(now() == t0 + a + b, "time after two exact runs"); vx_reach("end");
}
// clearing / restarting drops every pending event, and only new ones fire afterwards
static int outstanding() { return h->pl.getNumOutstandingEvents(); }
VX_ENTRY_S(restart, setup) {
    uint64_t pre = vx_range("pre", 0, 2); if (pre) run(pre);
    uint64_t o0 = vx_pick(vx_range("d0", 0, 2)), o1 = vx_pick(vx_range("d1", 0, 2)); h->e0.schedule(o0); h->uq.schedule(o1); h->pl.preparePayload(1)->schedule(o0);
    if (vx_bool("s")) h->sc.schedule(o1 > 0);
    uint64_t mid = vx_pick(vx_range("mid", 0, 2)); if (mid) run(mid);
    got.clear(); uint64_t t = now(); bool rs = vx_bool("restart");
    if (rs) { t = vx_pick(vx_range("to", 0, 6)); S->restartAt(t); uint64_t el = S->getElapsedTicks(); vx_assert(el == t || el == t + 1, "elapsed ticks after a restart"); }
    else S->clearEvents();
    vx_assert(now() == t, "time after clearing or restarting");
    vx_assert(!h->e0.isScheduled() && !h->uq.isScheduled() && !h->pl.isScheduled() && outstanding() == 0 && !h->sc.isScheduled(), "nothing is scheduled after clearing or restarting");
    vx_assert(S->nextEventTick() == INF, "no next event");
    uint64_t d[4]; d[0] = d[1] = vx_pick(vx_range("nd", 0, 3)); d[2] = d[3] = vx_pick(vx_range("ne", 0, 1));
    h->e0.schedule(d[0]); h->uq.schedule(d[1]); h->pl.preparePayload(2)->schedule(d[2]); h->sc.schedule(d[3]);
    run(4); vx_assert(now() == t + 4, "time after the run");
    for (auto& g : got) vx_note("fired %d at %d\n", g.second, (int)g.first); bool ok[4] = {}; vx_assert(got.size() == 4, "exactly the new events fire");
    for (auto& g : got) { int i = g.second == 0 ? 0 : g.second == 30 ? 1 : g.second == 12 ? 2 : g.second == 20 ? 3 : -1; vx_assert(i >= 0 && !ok[i] && g.first == t + d[i], "each new event fires once at its time"); if (i >= 0) ok[i] = true; }
    vx_reach(rs ? "restarted" : "cleared");
}
// after clearing or restarting, runs go by the new events only
VX_ENTRY_S(restart_runs, setup) {
    h->e0.schedule(vx_pick(vx_range("far", 1, 6)));
    if (vx_bool("restart")) S->restartAt(vx_pick(vx_range("to", 0, 3))); else S->clearEvents();
    for (int i = 0; i < 2; i++) sched(i, vx_pick(vx_range("delay", 0, 4)), vx_bool("continuing"), false);
    uint64_t n = vx_pick(vx_range("ticks", 3, 6)); bool exact = n < 6 && vx_bool("exact"); restarted = true;
    do_run(n == 6 ? INF : n, exact); vx_reach("end");
}
