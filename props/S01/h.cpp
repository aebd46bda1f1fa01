// Events fire exactly once, exactly when scheduled, unless cancelled.
#include "common.h"
using namespace sparta; using namespace env;
struct Fired { uint64_t t; uint32_t v; };
static std::vector<Fired> got;
struct Pend { uint64_t t; uint32_t v; bool live; };
static std::vector<Pend> pend;          // reference: everything ever scheduled
static size_t checked;                  // prefix of got already matched
struct H {
    PayloadEvent<uint32_t> pl{ES, "pl", CREATE_SPARTA_HANDLER_WITH_DATA(H, onp, uint32_t)};
    Event<> ev{ES, "ev", CREATE_SPARTA_HANDLER(H, one)};
    UniqueEvent<> uq{ES, "uq", CREATE_SPARTA_HANDLER(H, one)};
    SingleCycleUniqueEvent<> sc{ES, "sc", CREATE_SPARTA_HANDLER(H, one)};
    // drivers that run operations while the scheduler is running
    UniqueEvent<SchedulingPhase::Trigger> early{ES, "early", CREATE_SPARTA_HANDLER(H, drv)};
    UniqueEvent<SchedulingPhase::PostTick> late{ES, "late", CREATE_SPARTA_HANDLER(H, drvl)};
    void onp(const uint32_t& d) { got.push_back({now(), d}); }
    void (*self)() = nullptr;
    void one() { got.push_back({now(), 0}); if (self) self(); }
    void (*op)(int) = nullptr; int step = 0;
    void drv() { if (op) op(step++); }
    void drvl() { if (op) op(step++); }
};
static H* h;
static void setup() { base(); h = new H; go(1); }
static void setup0() { base(); h = new H; go(0); }   // before the first tick ever runs
static void sched_ref(uint64_t d, uint32_t v) { pend.push_back({now() + d, v, true}); }
static bool due(uint64_t t) { for (auto& p : pend) if (p.live && p.t == t) return true; return false; }
static unsigned live() { unsigned n = 0; for (auto& p : pend) n += p.live; return n; }
// everything that fired since the last call must be pending for that tick; each pending entry is consumed once
static void match() {
    for (; checked < got.size(); ++checked) {
        bool f = false;
        for (auto& p : pend) if (p.live && p.t == got[checked].t && p.v == got[checked].v) { p.live = false; f = true; break; }
        vx_assert(f, "an event fired only at a time (with the data) it was scheduled for, at most once");
    }
}
static void nothing_overdue() { for (auto& p : pend) if (p.live) vx_assert(p.t >= now(), "no event scheduled for the past is left unfired"); }
static void run1() { uint64_t t = now(); run(1); vx_assert(now() == t + 1, "an exact run of one tick advances time by one"); match(); nothing_overdue(); }
static void finish() { for (int i = 0; i < 6; i++) run1(); vx_assert(live() == 0, "every scheduled event fired"); vx_reach("end"); }
enum Where { OUTSIDE, EARLY, LATE };
static Where where = OUTSIDE;
static uint64_t lo() { return where == LATE ? 1 : 0; }  // scheduling an earlier phase of the tick being run is rejected by design
// ---- PayloadEvent
static void pl_op(int i) {
    uint64_t op = vx_range("op", 0, 5);
    match();
    if (op <= 1) {
        uint64_t d = vx_range("delay", lo(), 2); uint32_t v = vx_u8("payload");
        h->pl.preparePayload(v)->schedule(d); sched_ref(d, v);
    } else if (op == 2) {
        unsigned n = live(); vx_assert(h->pl.cancel() == n, "cancel() reports the number of events cancelled");
        for (auto& p : pend) p.live = false;
    } else if (op == 3) {
        uint64_t d = vx_range("rel", lo(), 2); unsigned n = 0;
        for (auto& p : pend) if (p.live && p.t == now() + d) { p.live = false; n++; }
        uint32_t r = h->pl.cancel(d);
        vx_assert(r == n, "cancel(rel) reports the number of events cancelled");
    } else if (op == 4) {
        uint32_t v = vx_u8("criteria"); unsigned n = 0; bool any = false;
        for (auto& p : pend) if (p.live && p.v == v) any = true;
        vx_assert(h->pl.confirmIf(v) == any, "confirmIf finds a pending payload");
        for (auto& p : pend) if (p.live && p.v == v) { p.live = false; n++; }
        vx_assert(h->pl.getHandleIf(v).size() == n, "getHandleIf returns the matching pending events");
        vx_assert(h->pl.cancelIf(v) == n, "cancelIf cancels exactly the matching events");
    } else {
        uint32_t v = vx_u8("criteria"); unsigned n = 0;
        for (auto& p : pend) if (p.live && p.v < v) { p.live = false; n++; }
        std::function<bool(const uint32_t&)> f = [v](const uint32_t& x) { return x < v; };
        vx_assert(bool(h->pl.confirmIf(f)) == (n > 0), "confirmIf(predicate)");
        vx_assert(h->pl.getHandleIf(f).size() == n, "getHandleIf(predicate)");
        vx_assert(h->pl.cancelIf(f) == n, "cancelIf(predicate) cancels exactly the matching events");
    }
    vx_assert(h->pl.getNumOutstandingEvents() == live(), "outstanding count");
    vx_assert(h->pl.isScheduled() == (live() > 0), "isScheduled()");
    for (uint64_t q = 0; q <= 2 && where == OUTSIDE; q++) vx_assert(h->pl.isScheduled(q) == due(now() + q), "isScheduled(rel)");
}
// ---- Event (any number of instances)
template<class E> static void ev_query(E& e) {
    for (uint64_t q = lo(); q <= 2; q++) vx_assert(e.isScheduled(q) == due(now() + q), "isScheduled(rel)");
    vx_assert(e.isScheduled() == (live() > 0), "isScheduled()");
}
static void ev_op(int) {
    uint64_t op = vx_range("op", 0, 3); match();
    if (op <= 1) { uint64_t d = vx_range("delay", lo(), 2); h->ev.schedule(d); sched_ref(d, 0); }
    else if (op == 2) { h->ev.cancel(); for (auto& p : pend) p.live = false; }
    else { uint64_t d = vx_range("rel", lo(), 2); h->ev.cancel(d); for (auto& p : pend) if (p.t == now() + d) p.live = false; }
    ev_query(h->ev);
}
// ---- UniqueEvent: at most one instance per tick
static void uq_op(int) {
    uint64_t op = vx_range("op", 0, 3); match();
    if (op <= 1) { uint64_t d = vx_range("delay", lo(), 2); h->uq.schedule(d); if (!due(now() + d)) sched_ref(d, 0); }
    else if (op == 2) { h->uq.cancel(); for (auto& p : pend) p.live = false; }
    else { uint64_t d = vx_range("rel", lo(), 2); h->uq.cancel(d); for (auto& p : pend) if (p.t == now() + d) p.live = false; }
    ev_query(h->uq);
}
// ---- SingleCycleUniqueEvent: this cycle or the next
static void sc_op(int) {
    uint64_t op = vx_range("op", 0, 2); match();
    if (op <= 1) { uint64_t d = vx_range("delay", lo(), 1); h->sc.schedule(d); if (!due(now() + d)) sched_ref(d, 0); }
    else { h->sc.cancel(); for (auto& p : pend) p.live = false; }
    vx_assert(h->sc.isScheduled() == (live() > 0), "isScheduled()");
}
static void outside(void (*op)(int), int steps) {
    for (int i = 0; i < steps; i++) { if (vx_bool("run")) run1(); op(i); }
    finish();
}
static void inside(void (*op)(int), int steps) {
    h->op = op;
    for (int i = 0; i < steps; i++) {
        where = vx_bool("late") ? LATE : EARLY;
        if (where == LATE) h->late.schedule(uint64_t(0)); else h->early.schedule(uint64_t(0));
        run1();
        vx_assert(h->step == i + 1, "the driving event fired once");
    }
    where = OUTSIDE; h->op = nullptr; finish();
}
static int N(int q) { return vx_thorough() ? q + 1 : q; }
VX_ENTRY_S(payload_outside, setup) { outside(pl_op, N(3)); }
VX_ENTRY_S(payload_inside, setup) { inside(pl_op, N(3)); }
VX_ENTRY_S(event_outside, setup) { outside(ev_op, N(4)); }
VX_ENTRY_S(event_inside, setup) { inside(ev_op, N(4)); }
VX_ENTRY_S(unique_outside, setup) { outside(uq_op, N(4)); }
VX_ENTRY_S(unique_inside, setup) { inside(uq_op, N(4)); }
VX_ENTRY_S(single_outside, setup) { outside(sc_op, N(5)); }
VX_ENTRY_S(single_inside, setup) { inside(sc_op, N(5)); }
VX_ENTRY_S(payload_start, setup0) { outside(pl_op, 2); }
VX_ENTRY_S(event_start, setup0) { outside(ev_op, 3); }
VX_ENTRY_S(unique_start, setup0) { outside(uq_op, 3); }
VX_ENTRY_S(single_start, setup0) { outside(sc_op, N(4)); }
// operations from inside the event's own handler: it fires at most once per tick, and next tick iff (still) scheduled
static uint64_t next_ = ~uint64_t(0); static int self_n = 0;
static void sc_self() {
    vx_assert(got.size() == 1 || got[got.size() - 2].t != now(), "a single-cycle unique event fires at most once per cycle");
    if (self_n-- > 0) for (int i = 0; i < 3; i++) { uint64_t op = vx_range("op", 0, 2); if (op <= 1) { h->sc.schedule(op); if (op == 1) next_ = now() + 1; } else { h->sc.cancel(); next_ = ~uint64_t(0); } }
}
VX_ENTRY_S(single_self, setup) {
    h->self = sc_self; self_n = 2; h->sc.schedule(uint64_t(0)); next_ = now();
    for (int i = 0; i < 4; i++) { bool exp = next_ == now(); size_t n = got.size(); run(1); vx_assert(got.size() == n + exp, "fires exactly when scheduled"); }
    vx_reach("end");
}
// arbitrary delays: order and exact times hold for any distances between the events
VX_ENTRY_S(any_delay, setup) {
    uint64_t t0 = now(), lim = (uint64_t(1) << 40) - 1, d[4];
    d[0] = vx_range("d0", 0, lim); d[1] = vx_range("d1", 0, lim); d[2] = vx_range("d2", 0, lim); d[3] = vx_range("d3", 0, lim);
    h->ev.schedule(d[0]); sched_ref(d[0], 0);
    h->pl.preparePayload(7)->schedule(d[1]); sched_ref(d[1], 7);
    h->ev.schedule(d[2]); sched_ref(d[2], 0);
    if (vx_bool("cancel")) { h->ev.cancel(d[3]); for (auto& p : pend) if (p.v == 0 && p.t == t0 + d[3]) p.live = false; }
    else { h->pl.preparePayload(9)->schedule(d[3]); sched_ref(d[3], 9); }
    uint64_t last = 0; for (auto& p : pend) if (p.live && p.t > last) last = p.t;
    bool any = live() > 0;
    S->run(Scheduler::INDEFINITE, false, false);
    match(); vx_assert(live() == 0, "every scheduled event fired");
    for (size_t i = 1; i < got.size(); i++) vx_assert(got[i - 1].t <= got[i].t, "events fire in time order");
    if (any && pend.size() == 4) vx_assert(now() == last + 1, "an unbounded run ends right after the last event");
    vx_reach("end");
}
// payload handles: any copying, moving, dropping and re-use keeps exactly the pending deliveries
struct Obj { uint32_t v; bool pending; uint64_t t; bool cancelled; int handles; };
static void handles_op(std::vector<Obj>& o, std::unique_ptr<ScheduleableHandle>* sl, int* at) {
    uint64_t op = vx_range("hop", 0, 5); int i = vx_range("slot", 0, 1) ? 1 : 0;
    auto drop = [&](int k) { if (at[k] >= 0) o[at[k]].handles--; at[k] = -1; };
    if (op == 0) { uint32_t v = o.size() + 1; auto n = std::make_unique<ScheduleableHandle>(h->pl.preparePayload(v)); sl[i] = std::move(n); drop(i); o.push_back({v, false, 0, false, 1}); at[i] = o.size() - 1; return; }
    vx_assume(at[i] >= 0); Obj& x = o[at[i]];
    if (op == 1) { int j = vx_range("slot", 0, 1) ? 1 : 0; if (sl[j]) *sl[j] = *sl[i]; else sl[j].reset(new ScheduleableHandle(*sl[i])); int s = at[i]; o[s].handles++; drop(j); at[j] = s; }
    else if (op == 2) { sl[i].reset(new ScheduleableHandle(std::move(*sl[i]))); }
    else if (op == 3) { uint64_t d = vx_range("delay", 0, 1); bool t = throws_([&] { (*sl[i])->schedule(d); }); vx_assert(t == (x.pending || x.cancelled), "a payload can be scheduled again only when it is neither pending nor cancelled"); if (!t) { x.pending = true; x.t = now() + d; } }
    else if (op == 4) { sl[i].reset(); drop(i); }
    else { (*sl[i])->cancel(); x.cancelled = true; x.pending = false; }
}
VX_ENTRY_S(handles, setup) {
    std::vector<Obj> o; { std::unique_ptr<ScheduleableHandle> sl[2]; int at[2] = {-1, -1};
    auto runr = [&] { size_t k = got.size(); run(1); for (; k < got.size(); k++) { bool f = false; for (auto& x : o) if (x.pending && x.t == got[k].t && x.v == got[k].v) { x.pending = false; f = true; } vx_assert(f, "an event fired only at a time (with the data) it was scheduled for, at most once"); }
        for (auto& x : o) if (x.pending) vx_assert(x.t >= now(), "no event scheduled for the past is left unfired"); };
    auto count = [&] { unsigned n = 0; for (auto& x : o) n += (x.pending || x.handles > 0); vx_assert(h->pl.getNumOutstandingEvents() == n, "outstanding payloads are those pending or still held"); };
    int steps = N(4);
    handles_op(o, sl, at);
    for (int s = 1; s < steps; s++) { handles_op(o, sl, at); count(); if (vx_bool("run")) { runr(); count(); } }
    for (int s = 0; s < 3; s++) runr();
    for (auto& x : o) vx_assert(!x.pending, "every scheduled event fired"); }
    vx_assert(h->pl.getNumOutstandingEvents() == 0 && !h->pl.isScheduled(), "nothing outstanding once the handles are gone"); vx_reach("end");
}
