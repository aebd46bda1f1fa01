// Counters, cycle counters and histograms against plain arithmetic.
#include "common.h"
#include "sparta/statistics/Counter.hpp"
#include "sparta/statistics/ReadOnlyCounter.hpp"
#include "sparta/statistics/CycleCounter.hpp"
#include "sparta/statistics/Histogram.hpp"
#include "sparta/statistics/CycleHistogram.hpp"
#include "sparta/statistics/EnumCycleHistogram.hpp"
#include "sparta/statistics/EnumHistogram.hpp"
#include "sparta/statistics/StateHistogram.hpp"
#include "sparta/statistics/BasicHistogram.hpp"
#include "sparta/statistics/StatisticSet.hpp"
#include "sparta/utils/Enum.hpp"
using namespace sparta; using namespace env;
// the time on the clock, so that cycles can pass without running the scheduler
template<Clock::Cycle Clock::*M> struct Priv { friend Clock::Cycle& cyc(Clock& c) { return c.*M; } };
Clock::Cycle& cyc(Clock&); template struct Priv<&Clock::elapsed_cycles_>;
static uint64_t T() { return C->elapsedCycles(); }
static void pass(uint64_t d) { cyc(*C) += d; }
static StatisticSet* SS;
static Counter *cn, *ci, *cl; static CycleCounter* cc; static ReadOnlyCounter* ro; static uint64_t rov;
static void setup_c() { base(); SS = new StatisticSet(R); cn = new Counter(SS, "cn", "d", Counter::COUNT_NORMAL); ci = new Counter(SS, "ci", "d", Counter::COUNT_INTEGRAL); cl = new Counter(SS, "cl", "d", Counter::COUNT_LATEST);
    cc = new CycleCounter(SS, "cc", "d", Counter::COUNT_NORMAL, C); ro = new ReadOnlyCounter(SS, "ro", "d", Counter::COUNT_NORMAL, &rov); }
VX_ENTRY_S(counter, setup_c) {
    Counter* k[3] = {cn, ci, cl}; uint64_t m[3] = {0, 0, 0};
    for (int s = 0; s < (vx_thorough() ? 5 : 4); s++) {
        int w = vx_pick(vx_range("which", 0, 2)), op = vx_pick(vx_range("op", 0, 4)); uint64_t v = vx_u64("v"); Counter& c = *k[w];
        if (op == 0) { ++c; m[w]++; } else if (op == 1) { vx_assert(c++ == m[w], "post-increment returns the count before"); m[w]++; }
        else if (op == 2) { m[w] += v; vx_assert((c += v) == m[w], "adding returns the new count"); } else if (op == 3) { m[w] += v; vx_assert(c.increment(v) == m[w], "increment returns the new count"); }
        else { uint64_t h = 77; bool t = throws_([&] { if (v & 1) c.set(v); else c = v; }); (void)h; vx_assert(t == (w != 2), "only a counter with behaviour 'latest' can be written"); if (!t) m[w] = v; }
        for (int i = 0; i < 3; i++) vx_assert(k[i]->get() == m[i] && (uint64_t)*k[i] == m[i] && static_cast<CounterBase*>(k[i])->get() == m[i], "a counter holds the sum of what was added, or the last value written");
        vx_assert((*cn == *ci) == (m[0] == m[1]), "counters compare by value");
    }
    rov = vx_u64("ro"); vx_assert(ro->get() == rov && (uint64_t)*ro == rov && (*ro == *cn) == (rov == m[0]), "a read-only counter reads the variable it refers to");
    vx_reach("end");
}
static const uint32_t ML[] = {0, 1, 6, 0xffffffffu};
VX_ENTRY_S(cycle_counter, setup_c) {
    uint64_t cnt = 0; cyc(*C) = 0xfffffffeu; uint64_t start = 0; uint32_t mult = 1; bool on = false;     for (int s = 0; s < (vx_thorough() ? 4 : 3); s++) {
        int op = vx_pick(vx_range("op", 0, 3)); uint32_t d = op < 3 ? vx_pick(vx_range("delay", 0, 2)) : 0, a = vx_u32("mult");
        if (op == 0 || op == 1) { bool t = throws_([&] { if (op) cc->startCountingWithMultiplier(a, d); else cc->startCounting(d); }); vx_assert(t == on, "counting is started only when stopped"); if (!t) { on = true; start = T() + d; mult = op ? a : 1; } }
        else if (op == 2) { if (on && T() + d < start) { vx_assert(throws_([&] { cc->stopCounting(d); }), "counting cannot stop before it starts"); vx_reach("early"); return; }
            bool t = throws_([&] { cc->stopCounting(d); }); vx_assert(t == !on, "counting is stopped only when started"); if (!t) { cnt += (T() + d - start) * mult; on = false; } }
        else if (op == 3) { if (on) vx_assume(T() >= start); if (on) cnt += (T() - start) * mult; cc->updateCountingMultiplier(a); on = true; start = T(); mult = a; vx_assert(cc->getCurrentMultiplier() == a, "the multiplier in force"); }
        vx_assert(cc->isCounting() == on, "whether it is counting");
        pass(vx_pick(vx_range("dt", 0, 2)));
        vx_assert(cc->get() == cnt + (on && T() > start ? (T() - start) * mult : 0), "the count is the cycles spent counting, times the multiplier"); vx_assert((uint64_t)*cc == cc->get(), "conversion to a number");
    }
    vx_reach("end");
}
VX_ENTRY_S(cycle_counter_wide, setup_c) {   // one interval, any times
    uint64_t t0 = vx_range("t0", 0, uint64_t(1) << 40), d1 = vx_range("dt1", 0, uint64_t(1) << 40), d2 = vx_range("dt2", 0, uint64_t(1) << 40); uint32_t dl = vx_u32("delay"), de = vx_u32("delay2"); uint32_t m = 1;
    cyc(*C) = t0; cc->startCounting(dl);
    pass(d1); vx_assert(cc->get() == (d1 > dl ? (d1 - dl) * m : 0), "the count so far");
    if (d1 + de < dl) { vx_assert(throws_([&] { cc->stopCounting(de); }), "counting cannot stop before it starts"); vx_reach("early"); return; }
    cc->stopCounting(de); vx_assert(cc->get() == (d1 + de - dl) * m, "the cycles counted"); pass(d2); vx_assert(cc->get() == (d1 + de - dl) * m, "no counting while stopped"); vx_reach("end");
}
// value histograms
static const uint64_t HC[][3] = {{0, 7, 1}, {3, 12, 4}, {10, 40, 8}, {0, 1, 2}, {uint64_t(1) << 63, (uint64_t(1) << 63) + 9, 2}, {5, 6, 1}, {1, 0xffffffffffffffffull - 1, uint64_t(1) << 31}};
struct SaHist : HistogramStandalone { using HistogramStandalone::HistogramStandalone; std::vector<uint64_t> maxes(StatisticSet* s, const std::string& p, int n) { std::vector<uint64_t> r; for (int i = 0; i < n; i++) r.push_back(s->getCounterAs<Counter>(p + "maxval" + std::to_string(i))->get()); return r; } };
static SaHist* sh[6]; static Histogram* th[6];
static void setup_h() { base(); SS = new StatisticSet(R); for (int i = 0; i < 6; i++) { sh[i] = new SaHist(SS, "h" + std::to_string(i) + "_", HC[i][0], HC[i][1], HC[i][2], i % 3 + 1); th[i] = new Histogram(R, "t" + std::to_string(i), "d", HC[i][0], HC[i][1], HC[i][2], i % 3, InstrumentationNode::VIS_NORMAL, InstrumentationNode::VIS_NORMAL); } }
static void hcheck(HistogramBase& h, const uint64_t* c, std::vector<uint64_t>& v, uint64_t sum) {
    uint64_t uf = 0, of = 0, n = (c[1] - c[0]) / c[2] + 1, all = 0; for (auto x : v) { uf += x < c[0]; of += x > c[1]; }
    vx_assert(h.getUnderflowBin().get() == uf && h.getOverflowBin().get() == of, "values outside the range are counted as underflow or overflow");
    vx_assert(h.getNumBins() == n && h.getRegularBin().size() == n && h.getNumValuesPerBin() == c[2] && h.getHistogramLowerValue() == c[0] && h.getHistogramUpperValue() == c[1], "the shape of the histogram");
    for (uint64_t b = 0; b < n; b++) { uint64_t lo = c[0] + b * c[2], hi = lo + c[2] - 1, k = 0; if (hi > c[1] || hi < lo) hi = c[1]; for (auto x : v) k += x >= lo && x <= hi; uint64_t g = h.getRegularBin()[b].get(); vx_assert(g == k, "each bin counts the values in its range"); all += g; }
    vx_assert(h.getAggValues().get() == v.size() && all + uf + of == v.size(), "every value is counted exactly once"); (void)sum;
}
static void hist(int i, bool sa, int steps, uint64_t lo = 0) {
    HistogramBase& h = sa ? (HistogramBase&)*sh[i] : (HistogramBase&)*th[i]; std::vector<uint64_t> v; uint64_t sum = 0; int nm = sa ? i % 3 + 1 : i % 3; std::vector<uint64_t> top(nm, 0);
    StatisticSet* ss = sa ? SS : th[i]->getChildAs<StatisticSet>("stats"); std::string p = sa ? "h" + std::to_string(i) + "_" : "";
    for (int s = 0; s < steps; s++) { uint64_t x = vx_range("v", lo, ~uint64_t(0)); h.addValue(x); v.push_back(x); sum += x;
        // the nm largest, ascending
        if (nm) { uint64_t y = x; if (y > top[0]) { top[0] = y; for (int j = 0; j + 1 < nm; j++) if (top[j] > top[j + 1]) std::swap(top[j], top[j + 1]); } } }
    hcheck(h, HC[i], v, sum);
    vx_assert(ss->getCounterAs<Counter>(p + "sum")->get() == sum && ss->getCounterAs<Counter>(p + "total")->get() == v.size(), "the sum and number of the values");
    for (int j = 0; j < nm; j++) vx_assert(ss->getCounterAs<Counter>(p + "maxval" + std::to_string(j))->get() == top[j], "the largest values seen, in ascending order");
    vx_reach("end");
}
VX_ENTRY_S(histogram, setup_h) { int i = vx_pick(vx_range("cfg", 0, 5)); hist(i, true, vx_thorough() ? 4 : 3); }
VX_ENTRY_S(histogram_node, setup_h) { int i = vx_pick(vx_range("cfg", 0, 5)); hist(i, false, vx_thorough() ? 4 : 3); }
VX_ENTRY_S(histogram_max, setup_h) { hist(2, vx_bool("standalone"), vx_thorough() ? 6 : 5, 41); }
VX_ENTRY_S(histogram_shape, setup_c) {
    uint64_t lo = vx_pick(vx_range("lo", 0, 9)), hi = vx_pick(vx_range("hi", 0, 9)), n = vx_pick(vx_range("per_bin", 0, 5)); bool bad = hi <= lo || n == 0 || (n & (n - 1));
    if (n == 0) return; // division by zero is a caller error
    vx_assert(throws_([&] { HistogramStandalone h(SS, "x", lo, hi, n, 0); }) == bad, "a histogram with an empty range or bins of a size that is not a power of two is rejected");
    vx_assert(throws_([&] { CycleHistogramStandalone h(SS, C, "y", "d", lo, hi, n); }) == bad, "the same for cycle histograms"); vx_reach("end");
}
enum class E : uint64_t { A = 2, __FIRST = A, B, X, D, __LAST };
static std::ostream& operator<<(std::ostream& o, E e) { return o << "E" << (int)e; }
enum class P : uint64_t { __FIRST = 0, P0 = __FIRST, P1, P2, __LAST };
namespace sparta { namespace utils { template<> const std::unique_ptr<std::string[]> Enum<P>::names_(new std::string[4]); } }
static utils::Enum<P> PN(P::P0, "P0", P::P1, "P1", P::P2, "P2");
static EnumHistogram<P>* eh; static BasicHistogram<int64_t>* bh; static BasicHistogram<int64_t, true>* bhu; static BasicHistogram<uint32_t>* bh1;
static StateHistogram<P>* st;
static void setup_e() { base(); SS = new StatisticSet(R); eh = new EnumHistogram<P>(R, "eh", "d"); bh = new BasicHistogram<int64_t>(*SS, "b", "d", {-5, 0, 3, 100}); bhu = new BasicHistogram<int64_t, true>(*SS, "u", "d", {-1, 10}); bh1 = new BasicHistogram<uint32_t>(*SS, "v", "d", {7}); st = new StateHistogram<P>(R, "st", "d", P::P1); }
static uint64_t ctr(const char* n) { return SS->getCounterAs<Counter>(n)->get(); }
VX_ENTRY_S(enum_and_basic, setup_e) {
    uint64_t n[3] = {0, 0, 0}; int N = vx_thorough() ? 5 : 3; auto* es = eh->getChildAs<StatisticSet>("stats");
    for (int i = 0; i < N; i++) { uint64_t v = vx_range("e", 0, 2); eh->addValue((P)v); for (int j = 0; j < 3; j++) n[j] += v == (uint64_t)j; }
    const char* en[3] = {"bin_P0_0", "bin_P1_1", "bin_P2_2"};
    for (int j = 0; j < 3; j++) vx_assert(es->getCounterAs<Counter>(en[j])->get() == n[j], "each enumerator is counted in its bin"); vx_assert(es->getCounterAs<Counter>("total")->get() == (uint64_t)N, "every value is counted once");
    int64_t bl[4] = {-5, 0, 3, 100}; uint64_t b[4] = {0, 0, 0, 0}; uint64_t one = 0, u0 = 0, u1 = 0;
    for (int i = 0; i < N; i++) { int64_t v = (int64_t)vx_u64("v"); bh->addValue(v); for (int j = 0; j < 4; j++) b[j] += (j == 0 || v >= bl[j]) && (j == 3 || v < bl[j + 1]);
        bh1->addValue((uint32_t)v); one++; bool t = throws_([&] { bhu->addValue(v); }); vx_assert(t == (v < -1), "a value below the first bucket is rejected when asked for"); if (!t) { if (v < 10) u0++; else u1++; } }
    vx_assert(ctr("b_n5") == b[0] && ctr("b_0") == b[1] && ctr("b_3") == b[2] && ctr("b_100") == b[3], "each bucket counts the values from its bound up to the next"); vx_assert(ctr("v_7") == one && ctr("u_n1") == u0 && ctr("u_10") == u1, "single bucket, and bucket with underflow check");
    vx_reach("end");
}
// histograms of cycles: at any time, the bins partition the elapsed cycles
static const uint64_t CC[][4] = {{0, 3, 1, 0}, {2, 9, 4, 5}, {1, 4, 1, 0}, {0, 6, 2, 6}};
static CycleHistogram* ch[4]; static EnumCycleHistogram<E>* ec; static CycleHistogramStandalone* cs;
static void setup_y() { base(); SS = new StatisticSet(R); for (int i = 0; i < 4; i++) ch[i] = new CycleHistogram(R, "c" + std::to_string(i), "d", CC[i][0], CC[i][1], CC[i][2], CC[i][3]);
    ec = new EnumCycleHistogram<E>(R, "ec", "d", E::B); cs = new CycleHistogramStandalone(SS, C, "cs", "d", 1, 5, 1, 2); st = new StateHistogram<P>(R, "st", "d", P::P1); }
static int bin(uint64_t v, const uint64_t* c) { return v < c[0] ? -1 : v > c[1] ? -2 : (int)((v - c[0]) / c[2]); }
template<class H> static void ccheck(H& h, const uint64_t* c, uint64_t* t, uint64_t uf, uint64_t of, uint64_t total, uint64_t mx, StatisticSet* ss, const char* maxname) {
    uint64_t n = (c[1] - c[0]) / c[2] + 1, all = uf + of; auto& b = h.getRegularBin(); vx_assert(b.size() == n && h.getNumBins() == n, "the number of bins");
    vx_assert(h.getUnderflowBin().get() == uf && h.getOverflowBin().get() == of, "cycles spent outside the range are counted as underflow or overflow");
    for (uint64_t i = 0; i < n; i++) { vx_assert(b[i].get() == t[i], "each bin counts the cycles spent at a value in its range"); all += t[i]; }
    vx_assert(h.getAggCycles().get() == total, "the total is the elapsed cycles"); vx_assert(all == total, "every cycle is counted exactly once");
    vx_assert(ss->getCounterAs<Counter>(maxname)->get() == mx, "the largest value held");
}
template<class H> static void cyclehist(H& h, const uint64_t* c, StatisticSet* ss, const char* mn, int steps) {
    uint64_t t[10] = {0}, uf = 0, of = 0, total = 0, cur = c[3], mx = c[3], hi = c[1] + 2;
    auto spend = [&](uint64_t v, uint64_t d) { int b = bin(v, c); if (b == -1) uf += d; else if (b == -2) of += d; else t[b] += d; total += d; };
    for (int s = 0; s < steps; s++) {
        uint64_t d = vx_range("dt", 0, uint64_t(1) << 32); pass(d); spend(cur, d);
        uint64_t v = vx_pick(vx_range("v", c[0] ? c[0] - 1 : 0, hi)); bool add = vx_bool("add");
        if (add) { h.addValue(v); spend(v, 1); pass(1); cur = c[3]; } else { h.setValue(v); cur = v; }
        if (v > mx) mx = v; ccheck(h, c, t, uf, of, total, mx, ss, mn);
    }
    uint64_t d = vx_range("dt", 0, uint64_t(1) << 32); pass(d); spend(cur, d); ccheck(h, c, t, uf, of, total, mx, ss, mn); vx_reach("end");
}
VX_ENTRY_S(cycle_histogram, setup_y) { int i = vx_pick(vx_range("cfg", 0, 3)); cyclehist(*ch[i], CC[i], ch[i]->template getChildAs<StatisticSet>("stats"), "max_value", vx_thorough() ? 4 : 3); }
VX_ENTRY_S(cycle_histogram_standalone, setup_y) { static const uint64_t c[4] = {1, 5, 1, 2}; cyclehist(*cs, c, SS, "cs_max", vx_thorough() ? 4 : 3); }
VX_ENTRY_S(enum_cycle_histogram, setup_y) {
    uint64_t t[4] = {0}, total = 0; int cur = 1, mx = 1; auto* ss = ec->getChildAs<StatisticSet>("stats"); const char* n[4] = {"cycle_countE2", "cycle_countE3", "cycle_countE4", "cycle_countE5"};
    for (int s = 0; s < (vx_thorough() ? 4 : 3); s++) {
        uint64_t d = vx_range("dt", 0, uint64_t(1) << 32), dl = vx_pick(vx_range("delay", 0, 1)) ? vx_range("dl", 0, 1000) : 0; pass(d); t[cur] += d; total += d; int v;
        if (vx_bool("stop")) { ec->stopCounting((E)(cur + 2), dl); v = 1; } else { v = vx_pick(vx_range("v", 0, 3)); ec->startCounting((E)(v + 2), dl); if (v > mx) mx = v; }
        pass(dl); t[cur] += dl; total += dl; cur = v;     // the change takes effect after the delay
        for (int i = 0; i < 4; i++) vx_assert(ss->getCounterAs<CycleCounter>(n[i])->get() == t[i], "each bin counts the cycles spent in its state");
        vx_assert(ss->getCounterAs<CycleCounter>("total")->get() == total && t[0] + t[1] + t[2] + t[3] == total, "the bins partition the elapsed cycles"); vx_assert(ss->getCounterAs<Counter>("max_value")->get() == (uint64_t)mx + 2, "the largest state held");
        vx_assert(ss->getCounterAs<CycleCounter>("UF")->get() == 0 && ss->getCounterAs<CycleCounter>("OF")->get() == 0, "no underflow or overflow");
    }
    vx_reach("end");
}
VX_ENTRY_S(state_histogram, setup_y) {
    uint64_t t[3] = {0}, total = 0; int cur = 1; auto* ss = st->getChildAs<StatisticSet>("stats"); const char* n[3] = {"bin_P0", "bin_P1", "bin_P2"};
    for (int s = 0; s < (vx_thorough() ? 6 : 5); s++) {
        uint64_t d = vx_range("dt", 0, uint64_t(1) << 32); pass(d); t[cur] += d; total += d; int v = vx_pick(vx_range("v", 0, 2)); bool nx = vx_bool("next");
        if (nx) { st->setNextState((P)v); pass(1); t[cur]++; total++; } else st->setState((P)v); cur = v; vx_assert(st->getState() == (P)v, "the current state");
        for (int i = 0; i < 3; i++) vx_assert(ss->getCounterAs<CycleCounter>(n[i])->get() == t[i], "each bin counts the cycles spent in its state");
    }
    vx_reach("end");
}
