// Order of events within one tick: scheduling phases and declared precedences.
#include "common.h"
#include "sparta/events/PhasedUniqueEvent.hpp"
#include "sparta/events/GlobalOrderingPoint.hpp"
#include "sparta/events/Precedence.hpp"
using namespace sparta; using namespace env;
static const int MAXN = 5;
static std::vector<int> order; static int spawn_from = -1, spawn_to = -1; static bool spawn_ok = false, spawn_thrown = false;
static void fire(int i);
template<int I> struct N {
    std::unique_ptr<PhasedUniqueEvent> u; std::unique_ptr<PhasedPayloadEvent<uint32_t>> p;
    void f() { fire(I); } void g(const uint32_t& x) { vx_assert(x == 100 + I, "payload"); fire(I); }
    void make(SchedulingPhase ph, bool payload) {
        std::string n = "e" + std::to_string(I);
        if (payload) p.reset(new PhasedPayloadEvent<uint32_t>(ES, n, ph, CREATE_SPARTA_HANDLER_WITH_DATA(N, g, uint32_t)));
        else u.reset(new PhasedUniqueEvent(ES, n, ph, CREATE_SPARTA_HANDLER(N, f)));
    }
    Scheduleable& s() { return u ? u->getScheduleable() : p->getScheduleable(); }
    void sched(uint64_t d) { if (u) u->schedule(d); else p->preparePayload(100 + I)->schedule(d); }
};
static N<0>* n0; static N<1>* n1; static N<2>* n2; static N<3>* n3; static N<4>* n4;
static Scheduleable& sch(int i) { return i == 0 ? n0->s() : i == 1 ? n1->s() : i == 2 ? n2->s() : i == 3 ? n3->s() : n4->s(); }
static void sched(int i, uint64_t d) { if (i == 0) n0->sched(d); else if (i == 1) n1->sched(d); else if (i == 2) n2->sched(d); else if (i == 3) n3->sched(d); else n4->sched(d); }
static void make(int i, SchedulingPhase ph, bool pl) { if (i == 0) n0->make(ph, pl); else if (i == 1) n1->make(ph, pl); else if (i == 2) n2->make(ph, pl); else if (i == 3) n3->make(ph, pl); else n4->make(ph, pl); }
static void fire(int i) {
    order.push_back(i);
    if (i == spawn_from) {
        spawn_from = -1; bool t = throws_([] { sched(spawn_to, 0); });
        spawn_thrown = t; spawn_ok = !t;
    }
}
static void setup() { base(); n0 = new N<0>; n1 = new N<1>; n2 = new N<2>; n3 = new N<3>; n4 = new N<4>; }
static bool before[MAXN][MAXN]; static int ph[MAXN];
static bool closure(int n) {   // transitive closure; false when there is a cycle
    for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) if (ph[i] < ph[j]) before[i][j] = true;
    for (int k = 0; k < n; k++) for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) if (before[i][k] && before[k][j]) before[i][j] = true;
    for (int i = 0; i < n; i++) if (before[i][i]) return false;
    return true;
}
static void check_order(int n) {
    for (size_t a = 0; a < order.size(); a++) for (size_t b = a + 1; b < order.size(); b++)
        vx_assert(!before[order[b]][order[a]], "no event fires before one that precedes it in the same tick");
}
// schedule the events of mask (in rotated order), run one tick
static void trial(int n) {
    if (throws_([] { finalize(); })) { vx_fail("an acyclic precedence is rejected"); return; }
    run(1); order.clear();
    uint64_t rot = vx_range("rot", 0, n - 1), rev = vx_bool("rev"); int cnt = 0;
    for (int k = 0; k < n; k++) { int i = rev ? (rot + n - k) % n : (rot + k) % n; sched(i, 0); cnt++; }
    run(1);
    vx_assert((int)order.size() == cnt, "each event fires once"); check_order(n); vx_reach("order");
}
static void add_edge(int a, int b) { if (a != b) { sch(a).precedes(sch(b)); before[a][b] = true; } }
// within one phase: any sequence of edges over four events (two of them payload events)
static void dag(int n, int edges) {
    for (int i = 0; i < n; i++) { ph[i] = 5; make(i, SchedulingPhase::Tick, i & 1); }
    for (int e = 0; e < edges; e++) { uint64_t a = vx_pick(vx_range("from", 0, n - 1)), b = vx_pick(vx_range("to", 0, n - 1)); add_edge(a, b); }
    if (!closure(n)) { vx_assert(throws_([] { finalize(); }), "a precedence cycle is rejected"); vx_reach("cycle"); return; }
    trial(n);
}
VX_ENTRY_S(edges3, setup) { dag(3, 3); }
VX_ENTRY_S(edges4, setup) { dag(4, 3); }
VX_ENTRY_S(edges5, setup) { dag(5, 4); }
// a total order over five events declared pairwise, any permutation
VX_ENTRY_S(chain, setup) {
    int n = 5; for (int i = 0; i < n; i++) { ph[i] = 5; make(i, SchedulingPhase::Tick, i & 1); }
    bool used[MAXN] = {}; int perm[MAXN];
    for (int k = 0; k < n; k++) { uint64_t a = vx_pick(vx_range("perm", 0, n - 1)); vx_assume(!used[a]); used[a] = true; perm[k] = a; }
    bool rev = vx_bool("declare_backwards");
    for (int k = 0; k + 1 < n; k++) { int j = rev ? n - 2 - k : k; add_edge(perm[j], perm[j + 1]); }
    closure(n); trial(n);
}
// phases chosen freely, two edges
VX_ENTRY_S(phases, setup) {
    int n = 3; for (int i = 0; i < n; i++) { ph[i] = vx_pick(vx_range("phase", 0, NUM_SCHEDULING_PHASES - 1)); make(i, (SchedulingPhase)ph[i], i == 1); }
    uint64_t a = vx_pick(vx_range("from", 0, n - 1)), b = vx_pick(vx_range("to", 0, n - 1)); add_edge(a, b);
    if (vx_thorough()) { a = vx_pick(vx_range("from", 0, n - 1)), b = vx_pick(vx_range("to", 0, n - 1)); add_edge(a, b); }
    if (!closure(n)) { vx_assert(throws_([] { finalize(); }), "a precedence cycle is rejected"); vx_reach("cycle"); return; }
    trial(n);
}
// precedences through a named global ordering point
VX_ENTRY_S(gop, setup) {
    int n = 4; for (int i = 0; i < n; i++) { ph[i] = 5; make(i, SchedulingPhase::Tick, false); }
    GlobalOrderingPoint g(R, "user_point"); int side[MAXN];
    N<0>& a = *n0; N<1>& b = *n1; N<2>& c = *n2; N<3>& d = *n3;
    PhasedUniqueEvent* ev[4] = {a.u.get(), b.u.get(), c.u.get(), d.u.get()};
    for (int i = 0; i < n; i++) { side[i] = vx_pick(vx_range("side", 0, 2)); if (side[i] == 1) *ev[i] >> g; else if (side[i] == 2) g >> *ev[i]; }
    for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) if (side[i] == 1 && side[j] == 2) before[i][j] = true;
    uint64_t x = vx_pick(vx_range("from", 0, n - 1)), y = vx_pick(vx_range("to", 0, n - 1)); add_edge(x, y);
    if (!closure(n)) { vx_assert(throws_([] { finalize(); }), "a precedence cycle is rejected"); vx_reach("cycle"); return; }
    trial(n);
}
// a handler schedules another event for the tick being executed
VX_ENTRY_S(spawn, setup) {
    int n = 4; for (int i = 0; i < n; i++) { ph[i] = vx_pick(vx_range("phase", 4, 6)); make(i, (SchedulingPhase)ph[i], i & 1); }
    uint64_t a = vx_pick(vx_range("from", 0, n - 1)), b = vx_pick(vx_range("to", 0, n - 1)); add_edge(a, b);
    if (!closure(n)) return;
    finalize(); run(1); order.clear();
    int from = vx_pick(vx_range("spawner", 0, n - 1)), to = vx_pick(vx_range("spawned", 0, n - 1)); vx_assume(from != to);
    for (int i = 0; i < n; i++) if (i != to) sched(i, 0);
    spawn_from = from; spawn_to = to;
    run(1);
    if (before[from][to]) { vx_assert(spawn_ok, "scheduling a later event for the current tick is accepted"); vx_reach("later"); }
    if (before[to][from]) { vx_assert(spawn_thrown, "scheduling an already passed event for the current tick is rejected"); vx_reach("earlier"); }
    vx_assert((int)order.size() == n - 1 + (spawn_ok ? 1 : 0), "an accepted event fires in the same tick, a rejected one does not");
    if (!before[to][from]) check_order(n);
    run(2); vx_assert((int)order.size() == n - 1 + (spawn_ok ? 1 : 0), "and nothing is left over");
}
// removing a precedence removes exactly that constraint
VX_ENTRY_S(unlink, setup) {
    int n = 3; for (int i = 0; i < n; i++) { ph[i] = 5; make(i, SchedulingPhase::Tick, i & 1); }
    bool e[3][3] = {};
    for (int k = 0; k < 3; k++) { uint64_t a = vx_pick(vx_range("from", 0, 2)), b = vx_pick(vx_range("to", 0, 2)); if (a == b) continue; add_edge(a, b); e[a][b] = true; }
    uint64_t a = vx_pick(vx_range("ufrom", 0, 2)), b = vx_pick(vx_range("uto", 0, 2)); vx_assume(a != b);
    vx_assert(sch(a).unlink(&sch(b)) == e[a][b], "unlink reports whether the precedence existed"); before[a][b] = false;
    if (!closure(n)) { vx_assert(throws_([] { finalize(); }), "a precedence cycle is rejected"); vx_reach("cycle"); return; }
    trial(n);
}
