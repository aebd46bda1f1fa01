// Clocks: periods from ratios/frequencies, cycle<->tick conversion, delivery on clock edges, clock crossing.
#include "common.h"
#include "sparta/ports/DataPort.hpp"
#include "sparta/ports/PortSet.hpp"
using namespace sparta; using namespace env;
static ClockManager* M;
static void setup() { S = new Scheduler; M = new ClockManager(S); }
static uint64_t gcd_(uint64_t a, uint64_t b) { while (b) { uint64_t t = a % b; a = b; b = t; } return a; }
static uint64_t ratio(const char* n, int hi) { return vx_pick(vx_range(n, 1, hi)); }
// three clocks: root -> a, and b under root or under a
VX_ENTRY_S(ratios, setup) {
    int hi = vx_thorough() ? 6 : 4; uint64_t pa = ratio("pa", hi), ca = ratio("ca", hi), pb = ratio("pb", hi), cb = ratio("cb", hi); bool under_a = vx_bool("under_a");
    Clock::Handle r = M->makeRoot(), a = M->makeClock("a", r, pa, ca), b = M->makeClock("b", under_a ? a : r, pb, cb);
    M->normalize();
    uint64_t P = r->getPeriod(), A = a->getPeriod(), B = b->getPeriod(), Q = under_a ? A : P;
    vx_assert(P > 0 && A > 0 && B > 0, "periods are positive");
    vx_assert(A * pa == P * ca, "the period of a clock is its ratio to its parent"); vx_assert(B * pb == Q * cb, "the period of a grandchild clock is its ratio to its parent");
    vx_assert(gcd_(P, gcd_(A, B)) == 1, "the common tick is the coarsest that divides every period");
    uint64_t c = vx_range("cycle", 0, 0xffff);
    for (auto& k : {r, a, b}) {
        uint64_t p = k->getPeriod();
        vx_assert(k->getTick(c) == c * p, "cycles convert to ticks by the period");
        vx_assert(k->getCycle(c * p) == c && (p == 1 || k->getCycle(c * p + p - 1) == c) && k->getCycle(c * p + p) == c + 1, "ticks convert to the cycle containing them");
    }
    vx_reach("end");
}
VX_ENTRY_S(siblings, setup) {   // three children, different ratios
    uint64_t p[3], c[3]; Clock::Handle r = M->makeRoot(), k[3];
    for (int i = 0; i < 3; i++) { p[i] = ratio("p", 2 + (i > 0)); c[i] = ratio("c", 3); k[i] = M->makeClock("k" + std::to_string(i), i == 2 ? k[1] : r, p[i], c[i]); }
    M->normalize(); uint64_t g = r->getPeriod();
    for (int i = 0; i < 3; i++) { uint64_t par = i == 2 ? k[1]->getPeriod() : r->getPeriod(); vx_assert(k[i]->getPeriod() * p[i] == par * c[i], "period ratio"); g = gcd_(g, k[i]->getPeriod()); }
    vx_assert(g == 1, "the common tick is the coarsest that divides every period"); vx_reach("end");
}
VX_ENTRY_S(frequencies, setup) {
    // whole-picosecond periods: the frequency is 10^6 / period
    static const double f[] = {1.0, 100.0, 125.0, 200.0, 250.0, 400.0, 500.0, 800.0, 1000.0, 2000.0, 2500.0, 4000.0, 0.5, 0.001};
    static const uint32_t ps[] = {1000000, 10000, 8000, 5000, 4000, 2500, 2000, 1250, 1000, 500, 400, 250, 2000000, 1000000000};
    int i = vx_pick(vx_range("f", 0, 13)), j = vx_pick(vx_range("g", 0, 13));
    Clock::Handle r = M->makeRoot(), a = M->makeClock("a", r, f[i]), b = M->makeClock("b", vx_bool("under") ? a : r, f[j]);
    M->normalize();
    vx_assert(r->getPeriod() == 1 && a->getPeriod() == ps[i] && b->getPeriod() == ps[j], "a clock's period is the picoseconds of its frequency");
    vx_assert(a->getFrequencyMhz() == f[i] && b->getFrequencyMhz() == f[j], "frequency as given"); vx_reach("end");
}
// current cycle, edges and event delivery in cycles of the clock, from any point in time
static std::vector<uint64_t> at;
struct H { TreeNode* n; EventSet es; Event<> e; UniqueEvent<> u; PayloadEvent<int> p;
    H(TreeNode* nd) : n(nd), es(nd), e(&es, "e", CREATE_SPARTA_HANDLER(H, f)), u(&es, "u", CREATE_SPARTA_HANDLER(H, f)), p(&es, "p", CREATE_SPARTA_HANDLER_WITH_DATA(H, g, int)) {}
    void f() { at.push_back(now()); } void g(const int&) { at.push_back(now()); } };
static H* hh[2]; static Clock::Handle ck[2];
static void two(uint64_t p0, uint64_t p1) {
    Clock::Handle r = M->makeRoot(); ck[0] = M->makeClock("a", r, 1, p0); ck[1] = M->makeClock("b", r, 1, p1);
    M->normalize(); R = new RootTreeNode; R->setClock(r.get());
    for (int i = 0; i < 2; i++) { auto* n = new TreeNode(R, i ? "nb" : "na", "node"); n->setClock(ck[i].get()); hh[i] = new H(n); }
    finalize(); run(1);
}
template<int PA, int PB> static void setup2() { setup(); two(PA, PB); }
static void cycles() {
    uint64_t t = vx_range("now", 1, 0xffffffffff); S->restartAt(t); run(1); t++;
    for (int i = 0; i < 2; i++) {
        uint64_t p = ck[i]->getPeriod();
        vx_assert(ck[i]->currentTick() == t && ck[i]->currentCycle() * p <= t && t < (ck[i]->currentCycle() + 1) * p, "the current cycle is the one containing the current tick");
        vx_assert(ck[i]->isPosedge() == (ck[i]->currentCycle() * p == t), "a clock edge is the first tick of a cycle");
    }
    int w = vx_bool("which"); uint64_t d = vx_range("delay", 0, 50), k = vx_pick(vx_range("kind", 0, 2));
    if (k == 0) hh[w]->e.schedule(d); else if (k == 1) hh[w]->u.schedule(d); else hh[w]->p.preparePayload(1)->schedule(d);
    run(50 * ck[w]->getPeriod() + 2);
    vx_assert(at.size() == 1 && at[0] == t + d * ck[w]->getPeriod(), "an event with a delay of d cycles fires d periods of its clock later");
    vx_reach("end");
}
static void setup_23() { setup2<2, 3>(); }
static void setup_17() { setup2<7, 1>(); }
VX_ENTRY_S(cycles_2_3, setup_23) { cycles(); }
VX_ENTRY_S(cycles_7_1, setup_17) { cycles(); }
VX_ENTRY_S(elapsed, setup_23) {
    for (int i = 0; i < 4; i++) { uint64_t n = vx_range("ticks", 1, 9); S->run(n, true, false); for (auto& c : ck) vx_assert(c->elapsedCycles() == S->getElapsedTicks() / c->getPeriod(), "elapsed cycles are the elapsed ticks in periods"); }
    vx_reach("end");
}
// clock crossing: the arrival is the first destination edge at or after the combined delay
static void crossing() {
    int w = vx_bool("dir"); Clock *s = ck[w].get(), *d = ck[!w].get(); uint64_t ps = s->getPeriod(), pd = d->getPeriod();
    uint64_t c = vx_range("src_cycle", 1, 0xffff); S->restartAt(c * ps); uint64_t t = c * ps;
    uint64_t a = vx_range("src_delay", 0, 0xfff), b = vx_range("dst_delay", 0, 0xfff);
    uint64_t r = calculateClockCrossingDelay(a, s, b, d);
    vx_assert(r >= a + b && r < a + b + pd, "a crossing waits for the delays and then less than one destination period");
    vx_assert((t + r) % pd == 0, "a crossing arrives on a destination clock edge");
    uint64_t arr = vx_range("arr_cycle", 0x4000, 0xffff) * pd;
    uint64_t q = calculateReverseClockCrossingDelay(arr, a, s, b, d);
    vx_assert(q >= a + b && q < a + b + ps && (arr - q) % ps == 0, "the reverse crossing is the last source edge early enough");
    vx_reach("end");
}
static void setup_34() { setup2<3, 4>(); }
static void setup_62() { setup2<6, 4>(); }
VX_ENTRY_S(crossing_2_3, setup_23) { crossing(); }
VX_ENTRY_S(crossing_7_1, setup_17) { crossing(); }
VX_ENTRY_S(crossing_3_4, setup_34) { crossing(); }
VX_ENTRY_S(crossing_6_4, setup_62) { crossing(); }
