// Scoreboard: readiness reaches every view exactly at its forwarding latency, and callbacks fire once.
#include "common.h"
#include "sparta/resources/Scoreboard.hpp"
#include "sparta/simulation/ResourceTreeNode.hpp"
#include "sparta/simulation/ResourceFactory.hpp"
using namespace sparta; using namespace env; typedef Scoreboard::RegisterBitMask B;
static const int64_t LAT[2][2][2] = {{{0, 2}, {-1, 1}}, {{1, 0}, {3, 1}}};   // scoreboard, producer, consumer
static ResourceFactory<Scoreboard, Scoreboard::ScoreboardParameters> fac; static ResourceTreeNode* RN[2]; static Scoreboard* SB[2]; static ScoreboardView* V[2][3]; static const int UNIT[3] = {0, 1, 1};
static void setup0() { base(); typedef Scoreboard::ScoreboardParameters::LatencyMatrixParameterType M; const char* n[2] = {"sb", "sc"};
    M m[2] = {{{"", "A", "B"}, {"A", "0", "0x2"}, {"B", "-1", "1"}}, {{"", "A", "B"}, {"A", "1", "0"}, {"B", "3", "01"}}};
    for (int i = 0; i < 2; i++) { RN[i] = new ResourceTreeNode(R, n[i], "d", &fac); dynamic_cast<Parameter<M>*>(RN[i]->getParameterSet()->getParameter("latency_matrix"))->operator=(m[i]); }
    go(1); for (int i = 0; i < 2; i++) SB[i] = RN[i]->getResourceAs<Scoreboard>(); }
static void views(int i) { const char* u[3] = {"A", "B", "B"}; for (int k = 0; k < 3; k++) V[i][k] = new ScoreboardView(u[k], i ? "sc" : "sb", R); }
static void setup() { setup0(); views(0); views(1); }
static B mask(uint64_t w, int word) { B b; memcpy((char*)&b + 8 * word, &w, 8); return b; }   // one symbolic word of the bit set
struct Cb { int view; uint64_t need; uint64_t inst; bool live; int id; };
struct Up { uint64_t t; int view; uint64_t m; };
VX_ENTRY_S(history, setup) {
    int s = vx_pick(vx_range("scoreboard", 0, 1)), w = vx_pick(vx_range("word", 0, 1)) * 7; uint64_t t = 0, init = w ? 0 : 0xffffffff, glob = init, rd[3] = {init, init, init}; std::vector<Cb> cbs; std::vector<Up> up; std::vector<int> want; static std::vector<int> got; got.clear(); int n = vx_thorough() ? 4 : 3, ids = 0; uint64_t everm = 0;
    auto upd = [&](int v, uint64_t m) { rd[v] |= m; for (auto& c : cbs) if (c.live && c.view == v && (c.need & ~rd[v]) == 0) { c.live = false; want.push_back(c.id); } };
    for (int i = 0; i < n; i++) { int op = vx_pick(vx_range("op", i == n - 1 ? 0 : 0, 5)); uint64_t m = op == 3 ? 0 : vx_u64("mask");
        switch (op) {
        case 0: vx_assume(m != 0); SB[s]->set(mask(m, w)); glob |= m; for (int v = 0; v < 3; v++) upd(v, m); break;
        case 1: { int v = vx_pick(vx_range("producer", 0, 1)); V[s][v]->setReady(mask(m, w)); if (m == 0) break; everm |= m; glob |= m; for (int k = 0; k < 3; k++) { int64_t l = LAT[s][UNIT[v]][UNIT[k]]; if (l == 0) upd(k, m); else if (l > 0) up.push_back({t + uint64_t(l), k, m}); } break; }
        case 2: { uint64_t fl = 0; for (auto& u : up) fl |= u.m; vx_assume((fl & m) == 0); SB[s]->clearBits(mask(m, w)); glob &= ~m; for (int v = 0; v < 3; v++) rd[v] &= ~m; break; }
        case 3: { run(1); t++; std::vector<Up> r; for (auto& u : up) if (u.t < t) upd(u.view, u.m); else r.push_back(u); up = r; break; }
        case 4: { int v = vx_pick(vx_range("view", 0, 2)); uint64_t in = vx_pick(vx_range("inst", 0, 1)); int id = ids++; V[s][v]->registerReadyCallback(mask(m, w), in, [id](const B&) { got.push_back(id); }); cbs.push_back({v, m, in, true, id}); break; }
        default: { int v = vx_pick(vx_range("view", 0, 2)); uint64_t in = vx_pick(vx_range("inst", 0, 1)); V[s][v]->clearCallbacks(in); for (auto& c : cbs) if (c.view == v && c.inst == in) c.live = false; } }
        vx_assert(SB[s]->isSet(mask(~uint64_t(0), w) & mask(glob, w)) && !((SB[s]->isSet(mask(glob | m, w))) != ((m & ~glob) == 0)), "the scoreboard holds the bits set and not cleared");
        uint64_t q = i == n - 1 ? vx_u64("query") : m; for (int v = 0; v < 3; v++) vx_assert(V[s][v]->isSet(mask(q, w)) == ((q & ~rd[v]) == 0), "a view shows a bit ready exactly from its forwarding latency on");
        vx_assert(got == want, "a readiness callback fires once, at the first update that makes its bits ready"); }
    vx_reach("end");
}
// a view created late starts with what is ready
VX_ENTRY_S(late_view, setup0) { uint64_t c = vx_u64("clear"), m = vx_u64("set"); SB[0]->clearBits(mask(c, 0)); if (vx_bool("set")) { vx_assume(m != 0); SB[0]->set(mask(m, 0)); } else m = 0; uint64_t r = (uint64_t(0xffffffff) & ~c) | m, q = vx_u64("query"); views(0);
    for (int v = 0; v < 3; v++) vx_assert(V[0][v]->isSet(mask(q, 0)) == ((q & ~r) == 0), "a new view starts with the bits that are ready"); vx_reach("end"); }
// callbacks that act on their own view
VX_ENTRY_S(reentrant, setup) {
    static std::vector<int> got; got.clear(); static uint64_t m0, m1, n0, n1; static int act, done; done = 0; m0 = vx_u64("bits0"); m1 = vx_u64("bits1"); n0 = vx_u64("need0"); n1 = vx_u64("need1"); vx_assume(m0 && m1); vx_assume((n0 & 0xffffffff) == 0 && (n1 & 0xffffffff) == 0); act = vx_pick(vx_range("action", 0, 4)); static ScoreboardView* v; v = V[0][0];
    v->registerReadyCallback(mask(n0, 0), 1, [](const B&) { got.push_back(0); if (act == 0) v->setReady(mask(m1, 0)); else if (act == 1) v->clearCallbacks(1); else if (act == 2) v->clearCallbacks(2); else if (act == 3) v->registerReadyCallback(mask(n1, 0), 3, [](const B&) { got.push_back(2); }); else SB[0]->clearBits(mask(m0, 0)); });
    v->registerReadyCallback(mask(n1, 0), 2, [](const B&) { got.push_back(1); });
    SB[0]->set(mask(m0, 0)); uint64_t r = m0 | 0xffffffff; bool f0 = (n0 & ~r) == 0; std::vector<int> want; if (f0) { want.push_back(0); if (act == 0) r |= m1; if (act == 4) r &= ~m0; }
    if (!(f0 && act == 2) && (n1 & ~r) == 0) want.push_back(1); if (f0 && act == 3 && (n1 & ~r) == 0) want.push_back(2);
    vx_assert(got == want, "callbacks fire once even when one of them changes the scoreboard or the callbacks"); SB[0]->set(mask(~uint64_t(0), 0));
    int c[3] = {0, 0, 0}; for (int x : got) c[x]++; vx_assert(c[0] == 1 && c[1] == ((f0 && act == 2) ? 0 : c[1]) && c[1] <= 1 && c[2] <= 1, "and are forgotten after"); if (act != 2 && (act != 4 || f0)) vx_assert(c[1] == 1 && c[2] == (act == 3), "every callback fires in the end"); vx_reach("end");
}
VX_ENTRY(print) { int a = vx_pick(vx_range("from", 0, 5)), b = vx_pick(vx_range("to", 0, 5)), o = vx_pick(vx_range("at", 0, 2)); int base_ = o == 0 ? 0 : o == 1 ? 60 : 506; B m; for (int i = 0; i < 6; i++) if (i >= a && i <= b) m.set(base_ + i); bool lone = vx_bool("lone"); if (lone) m.set(300);
    std::string w = "["; auto rg = [&] { if (a <= b) { w += (w == "[" ? "" : ",") + std::to_string(base_ + a); if (b > a) w += "-" + std::to_string(base_ + b); } }; if (o == 2) { if (lone) w += "300"; rg(); } else { rg(); if (lone) w += w == "[" ? "300" : ",300"; } w += "]"; vx_note("%s %s", w.c_str(), printBitSet(m).c_str()); vx_assert(printBitSet(m) == w, "bit sets print as ranges"); vx_reach("end"); }
