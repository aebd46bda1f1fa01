// Data and signal ports: delivery time, phase, data, cancellation, binding rules, automatic precedence.
#include "common.h"
#include "sparta/ports/DataPort.hpp"
#include "sparta/ports/SignalPort.hpp"
#include "sparta/ports/PortSet.hpp"
using namespace sparta; using namespace env;
struct Got { uint64_t t; uint32_t v; SchedulingPhase ph; };
static const SchedulingPhase PH[] = {SchedulingPhase::Trigger, SchedulingPhase::Update, SchedulingPhase::PortUpdate, SchedulingPhase::Flush, SchedulingPhase::Collection, SchedulingPhase::Tick, SchedulingPhase::PostTick};
struct In {
    std::vector<Got> got; DataInPort<uint32_t> p;
    In(TreeNode* ps, const std::string& n, SchedulingPhase ph, uint64_t d) : p(ps, n, ph, d) { p.registerConsumerHandler(CREATE_SPARTA_HANDLER_WITH_DATA(In, f, uint32_t)); }
    In(TreeNode* ps, const std::string& n, uint64_t d) : p(ps, n, d) { p.registerConsumerHandler(CREATE_SPARTA_HANDLER_WITH_DATA(In, f, uint32_t)); }
    void f(const uint32_t& v) { got.push_back({now(), v, S->getCurrentSchedulingPhase()}); }
};
struct Sig {
    std::vector<Got> got; SignalInPort p;
    Sig(TreeNode* ps, const std::string& n, SchedulingPhase ph, uint64_t d) : p(ps, n, ph, d) { p.registerConsumerHandler(CREATE_SPARTA_HANDLER(Sig, f)); }
    void f() { got.push_back({now(), 0, S->getCurrentSchedulingPhase()}); }
};
static PortSet* PS;
static void setup() { base(); PS = new PortSet(R); }
struct Drv { PhasedUniqueEvent e; std::function<void()> f; Drv(const std::string& n, SchedulingPhase p) : e(ES, n, p, CREATE_SPARTA_HANDLER(Drv, g)) {} void g() { if (f) f(); } };
// one send from an event of any phase to two receivers of any delivery phase and delay
VX_ENTRY_S(data_timing, setup) {
    int sp = vx_pick(vx_range("send_phase", 0, 6)), dp = vx_pick(vx_range("delivery_phase", 2, 6)); uint64_t d0 = vx_pick(vx_range("delay0", 0, 2));
    DataOutPort<uint32_t> o(PS, "o"); In a(PS, "a", PH[dp], d0), b(PS, "b", SchedulingPhase::PostTick, 1);
    sparta::bind(o, a.p); sparta::bind(o, b.p); Drv d("drv", PH[sp]); go(1);
    uint64_t rel = vx_range("rel", 0, 2); uint32_t v = vx_u32("data"); uint64_t t = now(); bool thrown = false; size_t imm = 0;
    d.f = [&] { thrown = throws_([&] { o.send(v, rel); }); imm = a.got.size(); };
    d.e.schedule(uint64_t(0)); for (int i = 0; i < 6; i++) run(1);
    if (rel + d0 == 0 && dp < sp) { vx_assert(thrown && a.got.empty() && b.got.empty(), "a zero-cycle send to an earlier phase is rejected"); vx_reach("late"); return; }
    vx_assert(!thrown, "a send to the same or a later phase, or a later cycle, is accepted");
    vx_assert(a.got.size() == 1 && b.got.size() == 1, "each bound in-port receives the data once");
    vx_assert(a.got[0].v == v && b.got[0].v == v, "the data sent is the data received");
    vx_assert(a.got[0].t == t + rel + d0 && b.got[0].t == t + rel + 1, "data arrives after the send delay plus the port delay");
    vx_assert(a.got[0].ph == PH[dp] && b.got[0].ph == SchedulingPhase::PostTick, "data arrives in the delivery phase of the port");
    vx_assert(imm == (rel + d0 == 0 && dp == sp), "a zero-cycle send in the delivery phase is delivered at once");
    vx_reach("end");
}
VX_ENTRY_S(default_phase, setup) {
    uint64_t d0 = vx_pick(vx_range("delay", 0, 3)); DataOutPort<uint32_t> o(PS, "o"); In a(PS, "a", d0); sparta::bind(a.p, o); go(1);
    uint32_t v = vx_u32("data"); uint64_t rel = vx_range("rel", 0, uint64_t(1) << 34), t = now(); o.send(v, rel);
    vx_assert(a.p.isDriven() && o.isDriven(), "a sent value drives the port"); S->run(Scheduler::INDEFINITE, false, false);
    vx_assert(a.got.size() == 1 && a.got[0].t == t + rel + d0 && a.got[0].v == v, "data arrives after the send delay plus the port delay, however long");
    vx_assert(a.got[0].ph == (d0 ? SchedulingPhase::PortUpdate : SchedulingPhase::Tick), "delivery phase is Tick without delay and PortUpdate with one");
    vx_assert(a.p.getPortDelay() == d0 && a.p.getDeliverySchedulingPhase() == a.got[0].ph, "port attributes");
    vx_assert(!a.p.isDriven() && !o.isDriven(), "nothing is in flight after delivery"); vx_reach("end");
}
// sequences of sends, cancels and ticks against a list of values in flight
struct Fl { uint64_t t; uint32_t v; int port; bool live; };
VX_ENTRY_S(data_ops, setup) {
    DataOutPort<uint32_t> o(PS, "o"); In a(PS, "a", SchedulingPhase::Tick, 0), b(PS, "b", 1); sparta::bind(o, a.p); sparta::bind(o, b.p); go(1);
    std::vector<Fl> fl; In* in[2] = {&a, &b}; size_t seen[2] = {0, 0};
    auto live = [&](int p) { unsigned n = 0; for (auto& f : fl) n += f.live && (p < 0 || f.port == p); return n; };
    auto tick = [&] { run(1); for (int p = 0; p < 2; p++) for (; seen[p] < in[p]->got.size(); seen[p]++) { Got& g = in[p]->got[seen[p]]; bool ok = false;
            for (auto& f : fl) if (f.live && f.port == p && f.t == g.t && f.v == g.v) { f.live = false; ok = true; break; } vx_assert(ok, "only sent, uncancelled data is received, once, in its cycle"); }
        for (auto& f : fl) if (f.live) vx_assert(f.t >= now(), "no data is lost"); };
    int n = vx_thorough() ? 5 : 4;
    for (int i = 0; i < n; i++) {
        uint64_t op = i ? vx_pick(vx_range("op", 1, 6)) : 1;
        if (op <= 1) { uint32_t v = vx_u8("data"); uint64_t r = vx_pick(vx_range("rel", 0, 1)); o.send(v, r); fl.push_back({now() + r, v, 0, true}); fl.push_back({now() + r + 1, v, 1, true}); }
        else if (op == 2) tick();
        else if (op == 3) { unsigned k = live(-1); vx_assert(o.cancel() == k, "cancel on the out-port cancels everything in flight"); for (auto& f : fl) f.live = false; }
        else if (op == 4 || op == 5) {   // by value or by predicate, on the out-port or on one in-port
            bool all = vx_bool("on_out_port"); uint32_t v = vx_u8("criteria"); unsigned k = 0; auto m = [&](uint32_t x) { return op == 4 ? x == v : x > v; };
            for (auto& f : fl) if (f.live && (all || f.port == 1) && m(f.v)) { f.live = false; k++; }
            std::function<bool(const uint32_t&)> g = [v](const uint32_t& x) { return x > v; };
            vx_assert((op == 4 ? all ? o.cancelIf(v) : b.p.cancelIf(v) : all ? o.cancelIf(g) : b.p.cancelIf(g)) == k, "cancelIf cancels exactly the matching data on the port, and reports how many");
        }
        else { unsigned k = live(0); vx_assert(a.p.cancel() == k, "cancel on one in-port"); for (auto& f : fl) if (f.port == 0) f.live = false; }
        vx_assert(a.p.isDriven() == (live(0) > 0) && b.p.isDriven() == (live(1) > 0) && o.isDriven() == (live(-1) > 0), "isDriven()");
        for (uint64_t q = 0; q < 3; q++) for (int p = 0; p < 2; p++) { bool e = false; for (auto& f : fl) e |= f.live && f.port == p && f.t == now() + q; vx_assert(in[p]->p.isDriven(q) == e, "isDriven(rel)"); }
    }
    for (int i = 0; i < 4; i++) tick();
    vx_assert(live(-1) == 0, "everything sent and not cancelled arrives"); vx_reach("end");
}
// the received value stays readable until pulled or cleared
VX_ENTRY_S(container, setup) {
    DataOutPort<uint32_t> o(PS, "o"); In a(PS, "a", 0); SignalOutPort so(PS, "so"); Sig s(PS, "s", SchedulingPhase::Tick, 0); sparta::bind(o, a.p); sparta::bind(so, s.p); go(1);
    bool valid = false, sval = false; uint32_t val = 0; uint64_t ts = 0, sts = 0;
    int n = vx_thorough() ? 6 : 5;
    for (int i = 0; i < n; i++) {
        uint64_t op = vx_pick(vx_range("op", 0, 4));
        if (op == 0) { uint32_t v = vx_u32("data"); o.send(v); ts = now(); run(1); valid = true; val = v; }
        else if (op == 1) { so.send(); sts = now(); run(1); sval = true; }
        else if (op == 2) { if (valid) vx_assert(a.p.pullData() == val, "pullData returns the last data received"); else vx_assert(throws_([&] { a.p.pullData(); }), "pulling without data is rejected"); valid = false; }
        else if (op == 3) { a.p.clearData(); s.p.clearData(); valid = sval = false; }
        else run(1);
        vx_assert(a.p.dataReceived() == valid && s.p.dataReceived() == sval, "dataReceived tells whether data is waiting");
        vx_assert(a.p.dataReceivedThisCycle() == (valid && ts == now()) && s.p.dataReceivedThisCycle() == (sval && sts == now()), "dataReceivedThisCycle");
        if (valid) { vx_assert(a.p.peekData() == val, "peekData returns the last data received"); vx_assert(a.p.getReceivedTimeStamp() == C->getCycle(ts), "time stamp of the data"); }
        else vx_assert(throws_([&] { a.p.peekData(); }) && throws_([&] { a.p.getReceivedTimeStamp(); }), "peeking without data is rejected");
    }
    vx_reach("end");
}
VX_ENTRY_S(signals, setup) {
    int sp = vx_pick(vx_range("send_phase", 0, 6)), dp = vx_pick(vx_range("delivery_phase", 2, 6)); uint64_t d0 = vx_pick(vx_range("delay", 0, 2));
    SignalOutPort o(PS, "o"); Sig a(PS, "a", PH[dp], d0), b(PS, "b", SchedulingPhase::PostTick, 2); sparta::bind(o, a.p); sparta::bind(o, b.p); Drv d("drv", PH[sp]), e("drv2", SchedulingPhase::Trigger); go(1);
    uint64_t r1 = vx_range("rel1", 0, 2), r2 = vx_range("rel2", 0, 2), t = now(); bool thrown = false;
    d.f = [&] { thrown = throws_([&] { o.send(r1); }); }; d.e.schedule(uint64_t(0)); if (!(r1 + d0 == 0 && dp <= sp)) { e.f = [&] { o.send(r2); }; e.e.schedule(uint64_t(vx_bool("second_next_cycle"))); }
    bool two = bool(e.f); uint64_t t2 = two && e.e.isScheduled(1) ? t + 1 : t;
    for (int i = 0; i < 7; i++) run(1);
    if (r1 + d0 == 0 && dp < sp) { vx_assert(thrown, "a zero-cycle send to an earlier phase is rejected"); return; }
    auto chk = [&](Sig& s, uint64_t dl, SchedulingPhase ph) { uint64_t x = t + r1 + dl, y = t2 + r2 + dl; unsigned nx = 0, ny = 0;
        for (auto& g : s.got) { nx += g.t == x; ny += g.t == y; vx_assert(g.ph == ph, "a signal arrives in the delivery phase of the port"); vx_assert(g.t == x || (two && g.t == y), "a signal arrives only after a send's delay plus the port delay"); }
        vx_assert(nx == 1 && (!two || ny == 1), "every signal arrives, and only once per cycle"); };
    vx_assert(!thrown, "send accepted"); chk(a, d0, PH[dp]); chk(b, 2, SchedulingPhase::PostTick); vx_reach("end");
}
VX_ENTRY_S(signal_far, setup) {
    uint64_t d0 = vx_pick(vx_range("delay", 0, 3)); SignalOutPort o(PS, "o"); Sig a(PS, "a", SchedulingPhase::Tick, d0); sparta::bind(a.p, o); go(1);
    uint64_t rel = vx_range("rel", 0, uint64_t(1) << 34), t = now(); o.send(rel); S->run(Scheduler::INDEFINITE, false, false);
    vx_assert(a.got.size() == 1 && a.got[0].t == t + rel + d0, "a signal arrives after the send delay plus the port delay, however long"); vx_reach("end");
}
// which pairs of ports may be bound
struct Null { void f(const uint32_t&) {} void g(const double&) {} void h() {} };
VX_ENTRY_S(binding, setup) {
    DataOutPort<uint32_t> o1(PS, "o1"), o2(PS, "o2"); DataOutPort<double> od(PS, "od"); SignalOutPort os(PS, "os");
    DataInPort<uint32_t> i1(PS, "i1"), i2(PS, "i2", 1); DataInPort<double> id(PS, "id"); SignalInPort is(PS, "sigin");
    Port* p[] = {&o1, &o2, &i1, &i2, &od, &id, &os, &is}; static const int ty[] = {0, 0, 0, 0, 1, 1, 2, 2}; static const bool out[] = {1, 1, 0, 0, 1, 0, 1, 0};
    size_t nb[8] = {}; bool done[8][8] = {};
    for (int i = 0, nbind = vx_thorough() ? 3 : 2; i < nbind; i++) { int x = vx_pick(vx_range("p", 0, 7)), y = vx_pick(vx_range("q", 0, 7));
        bool ok = ty[x] == ty[y] && out[x] != out[y] && !done[x][y]; bool t = throws_([&] { sparta::bind(p[x], p[y]); });
        vx_assert(t == !ok, "exactly one in-port and one out-port of the same type can be bound, once"); if (ok) { done[x][y] = done[y][x] = true; nb[x]++; nb[y]++; }
        for (int k = 0; k < 8; k++) vx_assert(p[k]->getNumBoundPorts() == nb[k] && p[k]->isBound() == (nb[k] > 0), "both ends know they are bound"); }
    go(1);
    if (!nb[0]) vx_assert(throws_([&] { o1.send(1); }), "sending on an unbound port is rejected"); vx_reach("end");
}
// zero-delay connection: producer event, then delivery, then consumer event, whatever the scheduling order
VX_ENTRY_S(auto_order, setup) {
    struct Seq { std::string s; } q; struct X { std::string* s; char c; void f() { *s += c; } };
    DataOutPort<uint32_t> o(PS, "o"); X x1{&q.s, 'p'}, x2{&q.s, 'c'};
    struct D { std::string* s; void f(const uint32_t&) { *s += 'd'; } } dd{&q.s}; DataInPort<uint32_t> in(PS, "inp", SchedulingPhase::Tick, 0);
    in.registerConsumerHandler(SpartaHandler::from_member_1<D, uint32_t, &D::f>(&dd, "d"));
    UniqueEvent<> prod(ES, "zp", SpartaHandler::from_member<X, &X::f>(&x1, "p")); UniqueEvent<> cons(ES, "ac", SpartaHandler::from_member<X, &X::f>(&x2, "c"));
    bool rp = vx_bool("register_producer"), rc = vx_bool("register_consumer"), via_in = vx_bool("bind_through_in");
    if (rp) o.registerProducingEvent(prod.getScheduleable()); if (rc) in.registerConsumerEvent(cons.getScheduleable());
    if (via_in) sparta::bind(in, o); else sparta::bind(o, in); go(1);
    int perm = vx_pick(vx_range("perm", 0, 5)); static const int P[6][3] = {{0,1,2},{0,2,1},{1,0,2},{1,2,0},{2,0,1},{2,1,0}};
    for (int k : P[perm]) { if (k == 0) prod.schedule(uint64_t(1)); else if (k == 1) cons.schedule(uint64_t(1)); else o.send(5, 1); }
    run(2); std::string& s = q.s; vx_assert(s.size() == 3, "all three fire");
    if (rp) vx_assert(s.find('p') < s.find('d'), "a registered producer fires before the delivery"); if (rc) vx_assert(s.find('d') < s.find('c'), "the delivery fires before a registered consumer");
    if (rp && rc) vx_assert(s == "pdc", "producer, delivery, consumer"); vx_reach("end");
}
