// Statistic windows and statistic expressions against plain arithmetic over the counters.
#include "common.h"
#include "sparta/statistics/Counter.hpp"
#include "sparta/statistics/ReadOnlyCounter.hpp"
#include "sparta/statistics/StatisticSet.hpp"
#include "sparta/statistics/StatisticDef.hpp"
#include "sparta/statistics/StatisticInstance.hpp"
#include "sparta/statistics/Expression.hpp"
#include "sparta/statistics/ContextCounter.hpp"
#include "sparta/statistics/WeightedContextCounter.hpp"
#include "sparta/simulation/ParameterSet.hpp"
#include <cmath>
#include <cstring>
using namespace sparta; using namespace env; using statistics::expression::Expression;
template<Scheduler::Tick Scheduler::*M> struct Priv { friend Scheduler::Tick& ticks(Scheduler& s) { return s.*M; } };
Scheduler::Tick& ticks(Scheduler&); template struct Priv<&Scheduler::elapsed_ticks_>;
static uint64_t T() { return S->getElapsedTicks(); }
static void pass(uint64_t d) { ticks(*S) += d; }
static bool same(double a, double b) { uint64_t x, y; memcpy(&x, &a, 8); memcpy(&y, &b, 8); return x == y || a == b || (a != a && b != b); }
static StatisticSet* SS; static TreeNode* N; static Counter *ca, *cb, *cl; static ReadOnlyCounter *cr, *crl; static uint64_t rv, rlv;
struct PS : ParameterSet { PS(TreeNode* n) : ParameterSet(n) {} PARAMETER(uint32_t, par, 5, "p") };
static PS* ps; static StatisticDef *sd, *sn;
static void setup_b() { base(); N = new TreeNode(R, "n", "d"); ps = new PS(N); SS = new StatisticSet(N);
    ca = new Counter(SS, "a", "d", Counter::COUNT_NORMAL); cb = new Counter(SS, "b", "d", Counter::COUNT_INTEGRAL); cl = new Counter(SS, "latest", "d", Counter::COUNT_LATEST);
    cr = new ReadOnlyCounter(SS, "ro", "d", Counter::COUNT_NORMAL, &rv); crl = new ReadOnlyCounter(SS, "rol", "d", Counter::COUNT_LATEST, &rlv);
    sd = new StatisticDef(SS, "sd", "d", SS, "(a+b)*2 - latest"); sn = new StatisticDef(SS, "nest", "d", SS, "sd/ro + rol"); }
// --- windows
static StatisticInstance* W[8]; static const TreeNode* WN[8];
static void setup_w() { setup_b(); const TreeNode* n[8] = {ca, cb, cl, cr, crl, sd, sn, ps->getChild("par")}; for (int i = 0; i < 8; i++) { WN[i] = n[i]; W[i] = new StatisticInstance(n[i]); } }
struct M { double a, b, l, r, rl; };
static M cur() { return M{(double)ca->get(), (double)cb->get(), (double)cl->get(), (double)cr->get(), (double)crl->get()}; }
static double want(int k, const M& s, const M& e) {    // the value of statistic k over the window from s to e
    double sdv = ((e.a - s.a) + (e.b - s.b)) * 2.0 - e.l;
    switch (k) { case 0: return e.a - s.a; case 1: return e.b - s.b; case 2: return e.l; case 3: return e.r - s.r; case 4: return e.rl; case 5: return sdv; case 6: return sdv / (e.r - s.r) + e.rl; default: return 5; }
}
static void change() { int w = vx_pick(vx_range("which", 0, 4)); uint64_t v = vx_u64("v"); if (w == 0) *ca += v; else if (w == 1) *cb += v; else if (w == 2) *cl = v; else if (w == 3) rv = v; else rlv = v; }
VX_ENTRY_S(window, setup_w) {
    int k = vx_pick(vx_range("stat", 0, 7)); StatisticInstance& w = *W[k]; M s{0, 0, 0, 0, 0}, e = s; bool ended = false; uint64_t st = T(), en = 0;
    for (int i = 0; i < (vx_thorough() ? 4 : 3); i++) {
        pass(vx_range("dt", 0, uint64_t(1) << 40)); int op = vx_pick(vx_range("op", 0, 3));
        if (op < 2) change(); else if (op == 2) { w.start(); s = cur(); ended = false; st = T(); } else { w.end(); e = cur(); ended = true; en = T(); }
        vx_assert(same(w.getValue(), want(k, s, ended ? e : cur())), "a statistic has the value of its window: from the start to now, or to the end once ended");
        vx_assert(w.getStart() == st && w.getEnd() == (ended ? en : Scheduler::INDEFINITE), "the window starts and ends at the elapsed ticks of the calls");
    }
    vx_reach("end");
}
VX_ENTRY_S(copies, setup_w) {    // copies, moves and assignments keep the window
    int k = vx_pick(vx_range("stat", 0, 7)), j = vx_pick(vx_range("other", 0, 7)); StatisticInstance& w = *W[k]; M s = cur(); change(); bool st = vx_bool("start"); if (st) { w.start(); s = cur(); } change(); bool en = vx_bool("end"); M e = cur(); if (en) { w.end(); pass(3); }
    StatisticInstance c(w); StatisticInstance a(*W[j]); a = w; StatisticInstance d(c); StatisticInstance m(std::move(d));
    change(); M x = en ? e : cur(); double v = want(k, s, x);
    vx_assert(same(w.getValue(), v) && same(c.getValue(), v) && same(a.getValue(), v) && same(m.getValue(), v), "copies have the value of the original");
    c.start(); change(); M y = cur(); vx_assert(same(w.getValue(), want(k, s, en ? e : cur())) && same(a.getValue(), want(k, s, en ? e : cur())), "windows of copies are independent"); (void)y;
    if (W[j] != W[k]) vx_assert(same(W[j]->getValue(), want(j, M{0, 0, 0, 0, 0}, cur())), "the source of an overwritten instance is unaffected"); vx_reach("end");
}
VX_ENTRY_S(accumulate, setup_w) {   // a cumulative statistic keeps its first start
    int k = vx_pick(vx_range("stat", 0, 4)); StatisticInstance& w = *W[k]; change(); w.start(); M s = cur(); w.accumulateStatistic(); change(); w.end(); M e = cur(); vx_assert(same(w.getValue(), want(k, s, e)), "the first window");
    change(); w.start(); change(); w.end(); vx_assert(same(w.getValue(), want(k, s, cur())), "an accumulating statistic counts from its first start"); vx_reach("end");
}
VX_ENTRY_S(raw, setup_w) { int k = vx_pick(vx_range("stat", 0, 4)); change(); W[k]->start(); change(); M e = cur(); double r[5] = {e.a, e.b, e.l, e.r, e.rl}; vx_assert(same(W[k]->getRawLatest(), r[k]), "the raw value ignores the window"); vx_reach("end"); }
VX_ENTRY_S(future, setup_w) { int k = vx_pick(vx_range("stat", 0, 7)); StatisticInstance& w = *W[k]; uint64_t t0 = vx_range("t0", 0, 1 << 20), t1 = vx_range("t1", 0, 1 << 20), t2 = vx_range("t2", 0, 1 << 20); bool en = vx_bool("end");
    ticks(*S) = t0; w.start(); ticks(*S) = t1; bool endt = en && throws_([&] { w.end(); }); ticks(*S) = t2; vx_pick(t0 > t2); vx_pick(t1 < t0); vx_pick(t1 > t2);
    bool bad = (en && t1 < t0) || t0 > t2 || (en && t1 > t2); bool rev = false, fut = false; if (bad) vx_pick(t0 % 4); // the tick appears in the message
    try { (void)w.getValue(); } catch (const ReversedStatisticRange&) { rev = true; } catch (const FutureStatisticRange&) { fut = true; }
    vx_assert(!endt || ((k == 5 || k == 6 || k == 7) && t1 < t0), "ending a window fails only when its expression has no value");
    vx_assert((rev || fut) == bad && rev == (en && ticks(*S) == t2 && w.getEnd() < w.getStart()), "a window that is reversed or lies in the future has no value"); vx_reach("end"); }
// --- expressions
typedef double (*Fn)(double, double, double);
static const struct { const char* e; Fn f; } X[] = {
    {"x+y-z", [](double x, double y, double z) { return x + y - z; }}, {"x-y-z", [](double x, double y, double z) { return (x - y) - z; }}, {"x-y+z", [](double x, double y, double z) { return (x - y) + z; }}, {"x - (y + z)", [](double x, double y, double z) { return x - (y + z); }},
    {"x+y*z", [](double x, double y, double z) { return x + y * z; }}, {"x*y+z", [](double x, double y, double z) { return x * y + z; }}, {"(x+y)*z", [](double x, double y, double z) { return (x + y) * z; }}, {"x/y/z", [](double x, double y, double z) { return (x / y) / z; }}, {"x/y*z", [](double x, double y, double z) { return (x / y) * z; }}, {"x*y/z", [](double x, double y, double z) { return (x * y) / z; }}, {"x/(y*z)", [](double x, double y, double z) { return x / (y * z); }},
    {"-x", [](double x, double, double) { return -x; }}, {"x - -y", [](double x, double y, double) { return x - -y; }}, {"+x*-y", [](double x, double y, double) { return x * -y; }}, {"-(x-y)*z", [](double x, double y, double z) { return -(x - y) * z; }}, {"x-y/z", [](double x, double y, double z) { return x - y / z; }},
    {"2*x+0.5", [](double x, double, double) { return 2.0 * x + 0.5; }}, {"1.5e3-x", [](double x, double, double) { return 1500.0 - x; }}, {"x*1e-1", [](double x, double, double) { return x * 0.1; }},
    {"min(x,y)", [](double x, double y, double) { return y < x ? y : x; }}, {"max(x,y)", [](double x, double y, double) { return x < y ? y : x; }}, {"min(x, max(y, z))", [](double x, double y, double z) { double m = y < z ? z : y; return m < x ? m : x; }}, {"max(x+1,y)*z", [](double x, double y, double z) { x += 1.0; return (x < y ? y : x) * z; }},
    {"cond(x-y, x, z)", [](double x, double y, double z) { return x - y != 0 ? x : z; }}, {"cond(is_greater(x,y),x-y,y-x)", [](double x, double y, double) { return x > y ? x - y : y - x; }}, {"ifnan(x/y, z)", [](double x, double y, double z) { double q = x / y; return std::isnan(q) || std::isinf(q) ? z : q; }},
    {"is_greater(x,y)", [](double x, double y, double) { return double(x > y); }}, {"is_lesser(x,y)", [](double x, double y, double) { return double(x < y); }}, {"is_equal(x,y)", [](double x, double y, double) { return double(x == y); }}, {"is_not_equal(x,y)", [](double x, double y, double) { return double(x != y); }}, {"is_greater_equal(x,y)", [](double x, double y, double) { return double(x >= y); }}, {"is_lesser_equal(x,y)", [](double x, double y, double) { return double(x <= y); }},
    {"logical_and(x,y)", [](double x, double y, double) { return double(x && y); }}, {"logical_or(x,y)", [](double x, double y, double) { return double(x || y); }}, {"isnan(x/y)", [](double x, double y, double) { return double(std::isnan(x / y)); }}, {"isinf(x/y)", [](double x, double y, double) { return double(std::isinf(x / y)); }}, {"signbit(x-y)", [](double x, double y, double) { return double(std::signbit(x - y)); }}, {"abs(x-y)", [](double x, double y, double) { return std::fabs(x - y); }}, {"FABS(x-Y_)", nullptr},
    {"floor(x/y)", [](double x, double y, double) { return std::floor(x / y); }}, {"ceil(x/y)", [](double x, double y, double) { return std::ceil(x / y); }}, {"trunc(x/y)", [](double x, double y, double) { return std::trunc(x / y); }}, {"round(x/y)", [](double x, double y, double) { return std::round(x / y); }},
    {"  ( x )", [](double x, double, double) { return x; }}, {"x*c_half", [](double x, double, double) { return x * 0.5; }}, {"C_PI*x", [](double x, double, double) { return M_PI * x; }}, {"x*c_nan", [](double x, double, double) { return x * NAN; }}, {"x+c_inf", [](double x, double, double) { return x + INFINITY; }},
    {"infra+nand-cycles_busy", [](double x, double y, double z) { return x + y - z; }}, {"min_lat*c_pipe-g_ticksy", [](double x, double y, double z) { return x * y - z; }}, {"e5+x", [](double x, double y, double) { return y + x; }}};
static const int NX = sizeof(X) / sizeof(X[0]);
static uint64_t xv, yv, zv; static Expression* EX[NX]; static bool bad_parse[NX];
static void setup_x() { base(); N = new TreeNode(R, "n", "d"); SS = new StatisticSet(N);
    const char* xs[] = {"x", "infra", "min_lat"}; for (auto n : xs) new ReadOnlyCounter(SS, n, "d", Counter::COUNT_NORMAL, &xv); const char* ys[] = {"y", "nand", "c_pipe", "e5"}; for (auto n : ys) new ReadOnlyCounter(SS, n, "d", Counter::COUNT_NORMAL, &yv); const char* zs[] = {"z", "cycles_busy", "g_ticksy"}; for (auto n : zs) new ReadOnlyCounter(SS, n, "d", Counter::COUNT_NORMAL, &zv);
    for (int i = 0; i < NX; i++) try { EX[i] = new Expression(X[i].e, SS); } catch (const std::exception& e) { bad_parse[i] = true; } }
VX_ENTRY_S(expression, setup_x) {
    int i = vx_pick(vx_range("expr", 0, NX - 1)); if (!X[i].f) { vx_assert(bad_parse[i], "a name that does not exist is rejected"); return; }
    vx_note("%s", X[i].e); vx_assert(!bad_parse[i], "a well-formed expression is accepted"); bool br = strchr(X[i].e, '(') && strpbrk(X[i].e, "m_r"), lib = strstr(X[i].e, "isnan") || strstr(X[i].e, "isinf") || strstr(X[i].e, "signbit") || strstr(X[i].e, "abs") || strstr(X[i].e, "floor") || strstr(X[i].e, "ceil") || strstr(X[i].e, "trunc") || strstr(X[i].e, "round");
    uint64_t m = lib ? 9 : br ? 0xffff : ~uint64_t(0); xv = vx_range("x", 0, m); yv = vx_range("y", 0, m); zv = vx_range("z", 0, m); if (lib) { xv = vx_pick(xv); yv = vx_pick(yv); }
    bool cp = vx_bool("copy"); Expression c(*EX[i]); vx_assert(same((cp ? c : *EX[i]).evaluate(), X[i].f((double)xv, (double)yv, (double)zv)), "an expression has the value its formula has over the counters' values"); vx_reach("end");
}
// --- context counters
// JSON report formatting, not under check here
bool __groupedPrinting(std::set<const void*>&, void*, void*, const std::vector<ContextCounterInfo>&, const std::string&, const sparta::InstrumentationNode::visibility_t) { return false; }
bool __groupedPrintingReduced(std::set<const void*>&, void*, void*, const std::vector<ContextCounterInfo>&) { return false; }
bool __groupedPrintingDetail(std::set<const void*>&, void*, void*, const std::vector<ContextCounterInfo>&) { return false; }
static ContextCounter<Counter>* CC; static WeightedContextCounter<Counter>* WC; static StatisticInstance *SC, *SW; static Expression *EA, *EM, *EB;
static void setup_c() { setup_b(); CC = new ContextCounter<Counter>(SS, "cc", "d", 3, "th", Counter::COUNT_NORMAL, InstrumentationNode::VIS_NORMAL);
    WC = new WeightedContextCounter<Counter>(SS, "wc", "d", 3, Counter::COUNT_NORMAL, InstrumentationNode::VIS_NORMAL); SC = new StatisticInstance(CC); SW = new StatisticInstance(WC);
    EA = new Expression("n.stats.wc.weightedAvg_", R); EM = new Expression("n.stats.wc.max_", R); EB = new Expression("2*n.stats.wc.weightedAvg_ - n.stats.a", R); }
static const double WT[5][3] = {{1, 1, 1}, {0.5, 2, -1}, {3, 3, 3}, {0, 0, 0}, {0.25, 0, 8}};
VX_ENTRY_S(context, setup_c) {
    double s[3] = {0, 0, 0}, e[3]; bool ended = false; int wi = 0;
    for (int i = 0; i < (vx_thorough() ? 4 : 3); i++) { int op = vx_pick(vx_range("op", 0, 5)); uint64_t v = vx_u64("v");
        if (op < 3) CC->context(op) += v; else if (op == 3) { SC->start(); for (int k = 0; k < 3; k++) s[k] = double(CC->context(k).get()); ended = false; } else if (op == 4) { SC->end(); ended = true; for (int k = 0; k < 3; k++) e[k] = double(CC->context(k).get()); } else CC->context(1) += v;
        double c[3]; for (int k = 0; k < 3; k++) c[k] = ended ? e[k] : double(CC->context(k).get());
        vx_assert(same(SC->getValue(), (c[0] - s[0]) + (c[1] - s[1]) + (c[2] - s[2])), "a context counter's aggregate is the sum of its contexts over the window"); }
    vx_assert(CC->numContexts() == 3 && throws_([&] { CC->context(3); }), "contexts are numbered from zero"); (void)wi; vx_reach("end");
}
VX_ENTRY_S(weighted, setup_c) {
    vx_assert(throws_([&] { WC->assignContextWeights({1, 2}); }), "the number of weights is that of the contexts or one"); int wi = vx_pick(vx_range("weights", 0, 4)); if (wi == 2) WC->assignContextWeights({3}); else if (wi) WC->assignContextWeights({WT[wi][0], WT[wi][1], WT[wi][2]}); else if (vx_bool("none")) WC->assignContextWeights({});
    uint64_t m = vx_thorough() ? ~uint64_t(0) : uint64_t(1) << 40; uint64_t v[3] = {vx_range("v0", 0, m), vx_range("v1", 0, m), vx_range("v2", 0, m)}, w = vx_range("a", 0, m); bool end = vx_bool("end"); Expression* E = vx_bool("second") ? EB : EA;
    if (E == EA && vx_bool("start")) { E->start(); w = 0; } if (E != EA) { E->start(); *ca += w; } for (int i = 0; i < 3; i++) WC->context(i) += v[i];
    double avg = 0; for (int i = 0; i < 3; i++) avg += double(v[i]) * WT[wi][i]; avg /= 3; double x = E == EA ? avg : 2.0 * avg - double(w);
    vx_assert(same(WC->calculateWeightedAverage(), avg) && same(E->evaluate(), x), "the weighted average is the mean of the contexts' values times their weights, also in an expression"); (void)end;
    double mx = double(v[0]); for (int i = 1; i < 3; i++) mx = mx < double(v[i]) ? double(v[i]) : mx; vx_assert(same(EM->evaluate(), mx), "the maximum is that of the contexts"); vx_reach("end");
}
// --- instances with a calculator and with sub-statistics
struct Calc { double v; uint64_t n; void calc() { v = double(n) + 1; } } static calc_; static std::shared_ptr<StatInstCalculator> CP;
static StatisticInstance* mk(int k) { std::vector<const TreeNode*> used; if (k == 0) return new StatisticInstance(CP, used); if (k == 1) return new StatisticInstance(CC); if (k == 2) return new StatisticInstance(ca); return new StatisticInstance(sd); }
static double val(int k) { return k == 0 ? double(calc_.n) + 1 : k == 1 ? double(CC->context(0).get()) + double(CC->context(1).get()) + double(CC->context(2).get()) : k == 2 ? double(ca->get()) : (double(ca->get()) + double(cb->get())) * 2.0 - double(cl->get()); }
static size_t subs(int k) { return k == 1 ? 3 : 0; }
static void setup_m() { setup_c(); CP.reset(new StatInstCalculator(SpartaHandler::from_member<Calc, &Calc::calc>(&calc_, "calc"), calc_.v)); CP->setNode(WC); }
static bool ok(const StatisticInstance& s, int k) { if (!same(s.getValue(), val(k))) return false; size_t n = s.getSubStatistics().size(); return k == 0 || n == subs(k); }
VX_ENTRY_S(transfer, setup_m) {   // copy, move and assignment carry everything a statistic instance is
    int k = vx_pick(vx_range("from", 0, 3)), j = vx_pick(vx_range("to", 0, 3)), how = vx_pick(vx_range("how", 0, 3)); calc_.n = vx_range("n", 0, 1 << 20); std::unique_ptr<StatisticInstance> a(mk(k)), b(mk(j));
    if (how == 0) *b = *a; else if (how == 1) *b = std::move(*a); else if (how == 2) b.reset(new StatisticInstance(*a)); else b.reset(new StatisticInstance(std::move(*a)));
    if (how % 2 == 0) vx_assert(ok(*a, k), "the source of a copy is unchanged"); a.reset();
    calc_.n = vx_u64("n2") & 0xffffff; *ca += vx_u64("a"); *cb += vx_u64("b"); *cl = vx_u64("l"); CC->context(1) += vx_u64("c"); CC->context(2) += vx_u64("d");
    vx_assert(ok(*b, k), "the target has the source's value and sub-statistics"); StatisticInstance c(*b); vx_assert(ok(c, k) && ok(*b, k), "and so has a copy of it"); vx_reach("end");
}
// --- the operators of Expression objects
static double fld(double x) { return x * 2 + 1; } static double bsub(double x, double y) { return x - y; }
VX_ENTRY_S(operators, setup_x) {
    static const int XI = 39; int i = -1; for (int q = 0; q < NX; q++) if (!strcmp(X[q].e, "  ( x )")) i = q; (void)XI; Expression x(*EX[i]), y("y", SS), z("z", SS), r; xv = vx_u64("x"); yv = vx_u64("y"); zv = vx_u64("z"); double a = double(xv), b = double(yv), c = double(zv);
    vx_assert(!r.hasContent() && throws_([&] { r.evaluate(); }), "an empty expression has no value");
    int op = vx_pick(vx_range("op", 0, 13)); double w = 0; Expression e(x);
    switch (op) { case 0: r = x + y; w = a + b; break; case 1: r = x - y; w = a - b; break; case 2: r = x * y; w = a * b; break; case 3: r = x / y; w = a / b; break; case 4: r = -x; w = -a; break; case 5: r = +x; w = a; break;
        case 6: e += y; r = e; w = a + b; break; case 7: e -= y; r = e; w = a - b; break; case 8: e *= y; r = std::move(e); w = a * b; break; case 9: e /= y; r = e; w = a / b; break;
        case 10: r = 2.5; w = 2.5; break; case 11: r = (x - y) * z; w = (a - b) * c; break; case 12: r = x - (y + z); w = a - (b + c); break; default: r = e.bfunc("f", &bsub, e, y); w = a - b; break; }
    vx_assert(same(r.evaluate(), w), "combining expressions combines their values"); vx_assert(same(x.evaluate(), a) && same(y.evaluate(), b), "and leaves the operands unchanged");
    Expression s(r), t(x); t = s; vx_assert(same(t.evaluate(), w) && same(s.evaluate(), w), "assignment copies"); Expression em; if (vx_bool("empty")) { t = em; vx_assert(!t.hasContent() && same(s.evaluate(), w), "assigning an empty expression empties"); } else { Expression u(std::move(s)); t = std::move(u); vx_assert(same(t.evaluate(), w), "moves keep the value"); }
    Expression fu("fld", &fld, x); vx_assert(same(fu.evaluate(), fld(a)), "unary functions apply"); vx_reach("end");
}
// --- what must be refused
static const char* BAD[] = {"", "x+", "*x", "x y", "(x", "x)", "min(x)", "min(x,y,z)", "cond(x,y)", "x++", "nosuch", "nosuch(x)", "x+nosuch*y", "2x", "1.5.2", "x,y", "x-nosuch.y", "max x,y", "()", "is_greater(x)", "x^y"};
VX_ENTRY_S(refused, setup_x) { int i = vx_pick(vx_range("bad", 0, sizeof(BAD) / sizeof(*BAD) - 1)); vx_note("%s", BAD[i]); bool t = false; try { Expression e(BAD[i], SS); vx_note("%s", e.stringize().c_str()); } catch (const SpartaException&) { t = true; } vx_assert(t, "a malformed expression or an unknown name is refused"); vx_reach("end"); }
static StatisticDef *c1, *c2, *c3, *c4, *c5;
static void setup_y() { setup_b(); c1 = new StatisticDef(SS, "c1", "d", SS, "c2+a"); c2 = new StatisticDef(SS, "c2", "d", SS, "c3*2"); c3 = new StatisticDef(SS, "c3", "d", SS, "c1-b"); c4 = new StatisticDef(SS, "c4", "d", SS, "c4+1"); c5 = new StatisticDef(SS, "c5", "d", SS, "sd+sd*nest+a*a"); }
VX_ENTRY_S(cycles, setup_y) { int i = vx_pick(vx_range("which", 0, 4)); StatisticDef* d[5] = {c1, c2, c3, c4, c5}; bool t = throws_([&] { StatisticInstance s(d[i]); }); vx_assert(t == (i < 4), "statistics defined by one another in a cycle are refused, and shared sub-expressions are not");
    if (i == 4) { change(); StatisticInstance s(c5); M e = cur(); change(); s.start(); M b = cur(); change(); e = cur(); double q = want(5, b, e); vx_assert(same(s.getValue(), q + q * want(6, b, e) + (e.a - b.a) * (e.a - b.a)), "a statistic used twice has the same value both times"); } vx_reach("end"); }
