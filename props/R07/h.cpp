// sparta::SharedData: a latch; and the GlobalEvent it uses.
#include "common.h"
#include "sparta/resources/SharedData.hpp"
#include "sparta/events/GlobalEvent.hpp"
using namespace sparta; using namespace env;
static void setup() { base(); }
struct M { bool p = false, n = false; uint32_t pv = 0, nv = 0; bool pend = false; void update() { p = n; pv = nv; n = false; pend = false; } };
template<class D> static void checks(D& d, M& m) {
    const D& c = d; vx_assert(d.isValid() == m.p && d.isValidNS() == m.n, "validity of the present and next value");
    if (m.p) vx_assert(c.read() == m.pv && d.access() == m.pv, "the present value"); else vx_assert(throws_([&] { c.read(); }) && throws_([&] { d.access(); }), "reading an invalid value is rejected");
    if (m.n) vx_assert(c.readNS() == m.nv && d.accessNS() == m.nv, "the next value"); else vx_assert(throws_([&] { c.readNS(); }), "reading an invalid next value is rejected");
}
template<class D> static void op(D& d, M& m) {
    uint64_t o = vx_pick(vx_range("op", 0, 5)); uint32_t v = vx_u32("data");
    if (o == 0) { d.write(v); m.n = true; m.nv = v; m.pend = true; }
    else if (o == 1) { d.writePS(v); m.p = true; m.pv = v; }
    else if (o == 2) { d.clear(); m.p = m.n = false; }
    else if (o == 3) { d.clearNS(); m.n = false; }
    else if (o == 4) { d.clearPS(); m.p = false; }
    checks(d, m);
}
static int T(int q) { return vx_thorough() ? q + 1 : q; }
VX_ENTRY_S(latch, setup) {
    uint32_t i = vx_u32("init"); SharedData<uint32_t> d("d", C, i); M m; m.p = true; m.pv = i; Driver dr("drv", PHASES[vx_pick(vx_range("phase", 2, 6))]); go(1); checks(d, m);
    for (int t = 0; t < T(2); t++) { dr.tick([&] { if (m.pend) m.update(); checks(d, m); op(d, m); op(d, m); }); checks(d, m); }
    for (int t = 0; t < 2; t++) dr.tick([&] { if (m.pend) m.update(); checks(d, m); }); vx_reach("end");
}
VX_ENTRY_S(manual, setup) {
    uint32_t i = vx_u32("init"); SharedData<uint32_t, true> d("d", C, i); M m; m.p = true; m.pv = i; checks(d, m);
    for (int t = 0; t < T(3); t++) { op(d, m); if (vx_bool("update")) { d.update(); m.update(); checks(d, m); } } vx_reach("end");
}
// a copy or a moved object carries the values and the pending update; the source and earlier updates do not interfere
VX_ENTRY_S(copies, setup) {
    typedef SharedData<uint32_t> D; uint32_t i = vx_u32("init"), j = vx_u32("init2"); std::unique_ptr<D> a(new D("a", C, i)), b; M m, mb; m.p = true; m.pv = i; Driver dr("drv", SchedulingPhase::Tick); go(1);
    uint64_t how = vx_pick(vx_range("how", 0, 3)); bool drop = vx_bool("drop");
    if (how >= 2) { b.reset(new D("b", C, j)); mb.p = true; mb.pv = j; }
    dr.tick([&] { op(*a, m); if (b && vx_bool("write_target")) { uint32_t v = vx_u32("data"); b->write(v); }
        if (how == 0) b.reset(new D(*a)); else if (how == 1) b.reset(new D(std::move(*a))); else if (how == 2) *b = *a; else *b = std::move(*a);
        mb = m; if (drop || (how & 1)) a.reset(); checks(*b, mb); });
    dr.tick([&] { if (mb.pend) mb.update(); checks(*b, mb); if (a) { if (m.pend) m.update(); checks(*a, m); op(*a, m); } op(*b, mb); });
    dr.tick([&] { if (mb.pend) mb.update(); checks(*b, mb); if (a) { if (m.pend) m.update(); checks(*a, m); } }); vx_reach("end");
}
// global events: every schedule call fires once, in its phase, after its delay; a destroyed or assigned event never fires its old schedule
struct G { std::vector<uint64_t> at; std::unique_ptr<GlobalEvent<SchedulingPhase::Update>> e; G() { e.reset(new GlobalEvent<SchedulingPhase::Update>(C, CREATE_SPARTA_HANDLER(G, f))); } void f() { vx_assert(S->getCurrentSchedulingPhase() == SchedulingPhase::Update, "fires in its phase"); at.push_back(now()); } };
VX_ENTRY_S(global_event, setup) {
    G g, h; Driver dr("drv", SchedulingPhase::Tick); go(1); std::vector<uint64_t> want;
    for (int t = 0; t < 2; t++) dr.tick([&] { for (int k = 0; k < 2; k++) if (vx_bool("sched")) { uint64_t d = vx_pick(vx_range("delay", 1, 3)); g.e->schedule(d); want.push_back(now() + d); } });
    uint64_t how = vx_pick(vx_range("how", 0, 3)), t = now(); 
    if (how == 1) { g.e.reset(); want.erase(std::remove_if(want.begin(), want.end(), [&](uint64_t x) { return x >= t; }), want.end()); }
    else if (how == 2) { *g.e = *h.e; want.erase(std::remove_if(want.begin(), want.end(), [&](uint64_t x) { return x >= t; }), want.end()); dr.tick([&] { g.e->schedule(1); }); vx_assert(h.at.empty(), "not before its delay"); run(1); vx_assert(h.at.size() == 1, "an assigned event fires the handler it was given"); }
    else if (how == 3) { G k; *k.e = *g.e; dr.tick([&] { k.e->schedule(1); }); want.push_back(now()); run(1); }
    for (int i = 0; i < 5; i++) run(1);
    std::sort(want.begin(), want.end()); vx_assert(g.at == want, "fires exactly at the scheduled ticks"); vx_reach("end");
}
