// Notifications and log messages: each one reaches every matching observer, tap and destination exactly once.
#include "common.h"
#include "sparta/log/NotificationSource.hpp"
#include "sparta/log/MessageSource.hpp"
#include "sparta/log/Tap.hpp"
#include "sparta/simulation/TreeNodePrivateAttorney.hpp"
#include <iostream>
using namespace sparta; using namespace env; typedef NotificationSource<uint32_t> NS; typedef NotificationSource<uint64_t> NS64;
// independent reading of a notification pattern: comma separated globs ('*' any, '?' at most one, '+' at least one), "" matches everything
static bool glob(const char* p, const char* s) { if (!*p) return !*s; if (*p == '*') return glob(p + 1, s) || (*s && glob(p, s + 1)); if (*p == '+') return *s && (glob(p + 1, s + 1) || glob(p, s + 1)); if (*p == '?') return glob(p + 1, s) || (*s && glob(p + 1, s + 1)); return *p == *s && glob(p + 1, s + 1); }
static bool match(const std::string& pat, const std::string& name) { if (pat.empty()) return true; std::string t; bool r = false; for (char c : pat + ",") { if (c == ',') { r = r || glob(t.c_str(), name.c_str()); t.clear(); } else if (c != ' ' && c != '\t') t += c; } return r; }
static const char* NAME[] = {"info", "warn", "info_x", "i"};
static const char* PAT[] = {"", "info", "info,warn", "info*", " warn , info_? ", "i+,info", "?", "in*x,*o,nothing"};
struct Got { int ob; const TreeNode* origin; const TreeNode* at; uint64_t data; };
static std::vector<Got> got;
struct Ob { int id; void f(const TreeNode& o, const TreeNode& p, const uint32_t& d) { got.push_back({id, &o, &p, d}); } void g(const uint32_t& d) { got.push_back({id + 10, nullptr, nullptr, d}); } void h(const TreeNode& o, const TreeNode& p, const uint64_t& d) { got.push_back({id + 20, &o, &p, d}); } };
static Ob OB[2] = {{0}, {1}};
static TreeNode *N[4], *G; static bool attached;   // root, a, a.b (possibly attached late), virtual global
static void setup() { base(); G = TreeNode::getVirtualGlobalNode(); N[0] = R; N[1] = new TreeNode(R, "a", "d"); N[2] = new TreeNode("b", "d"); N[3] = G; attached = false; }
struct Src { NS* s; int node; int name; }; struct Reg { int ob, node, pat; bool priv; };
static bool under(int node, int top) { return top == 3 || node == top || (node == 1 && top == 0) || (node == 2 && attached && top < 2); }
static void reg(const Reg& r) { Ob* o = &OB[r.ob & 1]; TreeNode* n = N[r.node]; std::string p = PAT[r.pat]; if (r.ob < 2) { if (r.priv) TreeNodePrivateAttorney::registerForNotification<uint32_t, Ob, &Ob::f>(n, o, p, false); else n->registerForNotification<uint32_t, Ob, &Ob::f>(o, p, false); } else { if (r.priv) TreeNodePrivateAttorney::registerForNotification<uint32_t, Ob, &Ob::g>(n, o, p, false); else n->registerForNotification<uint32_t, Ob, &Ob::g>(o, p, false); } }
static void dereg(const Reg& r) { Ob* o = &OB[r.ob & 1]; TreeNode* n = N[r.node]; std::string p = PAT[r.pat]; if (r.ob < 2) { if (r.priv) TreeNodePrivateAttorney::deregisterForNotification<uint32_t, Ob, &Ob::f>(n, o, p); else n->deregisterForNotification<uint32_t, Ob, &Ob::f>(o, p); } else { if (r.priv) TreeNodePrivateAttorney::deregisterForNotification<uint32_t, Ob, &Ob::g>(n, o, p); else n->deregisterForNotification<uint32_t, Ob, &Ob::g>(o, p); } }
static void post(const Src& s, const std::vector<Reg>& regs) {
    uint32_t d = vx_u32("data"); got.clear(); uint64_t np = s.s->getNumPosts(); s.s->postNotification(d); vx_assert(s.s->getNumPosts() == np + 1, "posts are counted");
    size_t want = 0; for (auto& r : regs) if (under(s.node, r.node) && match(PAT[r.pat], NAME[s.name])) { want++; size_t n = 0, same = 0; for (auto& q : regs) if (&q != &r && q.ob == r.ob && (r.ob >= 2 || q.node == r.node) && under(s.node, q.node) && match(PAT[q.pat], NAME[s.name])) same++;
            for (auto& g : got) if (r.ob < 2 ? g.ob == r.ob && g.at == N[r.node] : g.ob == (r.ob & 1) + 10) { n++; vx_assert(g.data == d && (r.ob >= 2 || g.origin == s.s), "an observer receives the data, the source and its observation point"); }
            vx_note("reg ob%d node%d pat%d got %zu want %zu", r.ob, r.node, r.pat, n, 1 + same); vx_assert(n == 1 + same, "every matching observer receives a notification exactly once"); }
    vx_assert(got.size() == want, "no other observer receives it"); vx_assert(s.s->observed() == (want > 0) && s.s->getNumObservers() == want, "a source knows whether it is observed"); }
// sources and observers in any order, below a subtree attached early or late
VX_ENTRY_S(history, setup) {
    std::vector<Src> src; std::vector<Reg> regs; int n = vx_thorough() ? 4 : 3; int k = 0; auto add = [&](int node, int name) { src.push_back({new NS(N[node], "s" + std::to_string(k++), "d", NAME[name]), node, name}); };
    add(2, vx_pick(vx_range("name", 0, vx_thorough() ? 3 : 1)));
    for (int i = 0; i < n; i++) switch (vx_pick(vx_range("op", 0, 3))) {
        case 0: { Reg r{(int)vx_pick(vx_range("ob", 0, i ? 0 : 1)) * 2, (int)vx_pick(vx_range("node", 0, 3)), (int)vx_pick(vx_range("pattern", 0, i && !vx_thorough() ? 2 : 7)), false}; bool dup = false; for (auto& q : regs) if (q.ob == r.ob && q.node == r.node && q.pat == r.pat) dup = true; vx_assert(throws_([&] { reg(r); }) == dup, "an observation is made once"); if (!dup) regs.push_back(r); break; }
        case 1: { vx_assume(!regs.empty()); size_t j = vx_pick(vx_range("which", 0, regs.size() - 1)); Reg r = regs[j]; dereg(r); regs.erase(regs.begin() + j); vx_assert(throws_([&] { dereg(r); }), "and removed once"); break; }
        case 2: add(vx_pick(vx_range("node", 0, 2)), vx_pick(vx_range("name", vx_thorough() ? 0 : 1, vx_thorough() ? 3 : 2))); break;
        default: vx_assume(!attached); N[1]->addChild(N[2]); attached = true; }
    for (auto& s : src) post(s, regs); vx_reach("end");
}
// another payload type never reaches these observers, private subtrees are reached by private registrations only, mirrors forward each concrete post once
VX_ENTRY_S(kinds, setup) {
    N[1]->addChild(N[2]); attached = true; NS64 other(N[1], "o", "d", "info"); NS pub(N[1], "p", "d", "info"), con(N[2], "c", "d", "info"), con2(N[2], "c2", "d", "info"), warn(N[2], "w", "d", "warn"); N[2]->makeSubtreePrivate();
    TreeNode sh(R, "shadow", "d"); MirrorNotificationSource<uint32_t> mir(&sh, "m", "d", "info"); mir.addLink(vx_bool("link one") ? static_cast<TreeNode*>(&con) : N[2], ""); bool both = mir.getNumObservationPoints() == 0; (void)both;
    int how = vx_pick(vx_range("registration", 0, 3)); Reg r{how == 0 ? 0 : 2, how == 3 ? 1 : 0, (int)vx_pick(vx_range("pattern", 0, 2)), false}; uint32_t d = vx_u32("data"); uint64_t e = vx_u64("other");
    // 0: callback that reveals its origin through a mirror is refused; 1: below the root; 2: at the mirror; 3: at a node without the mirror
    if (how == 0) { vx_assert(throws_([&] { reg(r); }), "a mirror does not reveal private origins"); vx_reach("end"); return; }
    if (how == 2) sh.registerForNotification<uint32_t, Ob, &Ob::g>(&OB[0], PAT[r.pat]); else reg(r);
    N[0]->registerForNotification<uint64_t, Ob, &Ob::h>(&OB[1], "info");
    auto count = [&](NS& s, size_t want) { got.clear(); s.postNotification(d); vx_assert(got.size() == want, "visible and mirrored notifications arrive exactly once, private ones do not"); for (auto& g : got) vx_assert(g.ob == 10 && g.data == d, "data"); };
    bool viamir = how != 3; bool l2 = con2.observed(); count(pub, how != 2); count(con, viamir); got.clear(); count(con2, l2 && viamir); count(warn, 0);
    got.clear(); other.postNotification(e); vx_assert(got.size() == 1 && got[0].ob == 21 && got[0].data == e, "payload types are kept apart");
    if (how == 2) sh.deregisterForNotification<uint32_t, Ob, &Ob::g>(&OB[0], PAT[r.pat]); else dereg(r); count(pub, 0); count(con, 0); count(con2, 0); vx_reach("end");
}
// state-change callbacks fire exactly at the transitions
VX_ENTRY_S(state, setup) {
    NS s(N[1], "p", "d", "info"); typedef NotificationSourceBase B; static int c[4]; memset(c, 0, sizeof c); static uint32_t last; last = 99; B::ObservationStateChange T[4] = {B::ObservationStateChange::SOLE_OBSERVER_REGISTERING, B::ObservationStateChange::SOLE_OBSERVER_DEREGISTERING, B::ObservationStateChange::OBSERVER_REGISTERING, B::ObservationStateChange::OBSERVER_DEREGISTERING};
    std::vector<std::unique_ptr<B::ObservationStateCallback>> cb; for (int i = 0; i < 4; i++) cb.emplace_back(new B::ObservationStateCallback(s, T[i], [i](const B&, uint32_t n) { c[i]++; last = n; }));
    int w[4] = {0, 0, 0, 0}; std::vector<Reg> regs; int n = vx_thorough() ? 4 : 3; attached = true; uint32_t cur = 0;
    for (int i = 0; i < n; i++) { if (vx_bool("register")) { Reg r{0, (int)vx_pick(vx_range("node", 0, 1)), (int)vx_pick(vx_range("pattern", 0, 4)), false}; for (auto& q : regs) vx_assume(!(q.node == r.node && q.pat == r.pat)); reg(r); regs.push_back(r); if (match(PAT[r.pat], "info")) { w[2]++; if (!cur++) w[0]++; } }
        else { vx_assume(!regs.empty()); size_t j = vx_pick(vx_range("which", 0, regs.size() - 1)); Reg r = regs[j]; dereg(r); regs.erase(regs.begin() + j); if (match(PAT[r.pat], "info")) { w[3]++; if (!--cur) w[1]++; } }
        for (int k = 0; k < 4; k++) vx_assert(c[k] == w[k], "observation callbacks fire at each transition, once"); vx_assert(s.getNumObservers() == cur && s.observed() == (cur > 0), "observers"); if (w[2]) vx_assert(last == cur, "the callback is told how many observers there are"); }
    vx_reach("end");
}
// taps: each destination writes each matching message exactly once, whole and in order
struct Buf : std::streambuf { std::string s; int overflow(int c) override { s += char(c); return c; } std::streamsize xsputn(const char* p, std::streamsize n) override { s.append(p, n); return n; } };
VX_ENTRY_S(taps, setup) {
    static Buf bf[2]; static std::ostream os[2] = {std::ostream(&bf[0]), std::ostream(&bf[1])}; static std::vector<std::unique_ptr<log::Tap>> taps; struct T { int node, pat, dst; bool on; }; std::vector<T> ts; std::vector<std::unique_ptr<log::MessageSource>> ms; struct M { int node, name; }; std::vector<M> mm;
    auto src = [&](int node, int name) { ms.emplace_back(new log::MessageSource(N[node], NAME[name], "d")); mm.push_back({node, name}); }; src(2, 0); if (vx_bool("private")) N[1]->makeSubtreePrivate(); std::vector<std::string> want[2]; uint64_t nm = 0; std::vector<uint64_t> tc;
    int n = vx_thorough() ? 5 : 4;
    for (int i = 0; i < n; i++) switch (vx_pick(vx_range("op", i < 2 ? 0 : 1, i == n - 1 ? 1 : 4))) {
        case 0: { T t{(int)vx_pick(vx_range("node", 0, 3)), (int)vx_pick(vx_range("pattern", 0, i && !vx_thorough() ? 1 : 3)), (int)vx_pick(vx_range("dest", 0, 1)), true}; taps.emplace_back(new log::Tap(N[t.node], PAT[t.pat], os[t.dst])); ts.push_back(t); tc.push_back(0); break; }
        case 1: { size_t j = vx_pick(vx_range("source", 0, ms.size() - 1)); std::string txt = "msg" + std::to_string(nm++) + ";"; if (*ms[j]) *ms[j] << txt; bool seen[2] = {false, false}, any = false; for (size_t k = 0; k < ts.size(); k++) if (ts[k].on && under(mm[j].node, ts[k].node) && match(PAT[ts[k].pat], NAME[mm[j].name])) { seen[ts[k].dst] = true; any = true; tc[k]++; } vx_assert(bool(*ms[j]) == any, "a source that nobody taps is off"); for (int d = 0; d < 2; d++) if (seen[d]) want[d].push_back(txt); break; }
        case 2: { vx_assume(!ts.empty()); int k = ts.size() - 1; taps[k]->detach(); ts[k].on = false; break; }
        case 3: { vx_assume(!ts.empty()); int k = ts.size() - 1; int nn = vx_pick(vx_range("node", 0, 3)); taps[k]->reset(N[nn]); ts[k].node = nn; ts[k].on = true; break; }
        default: if (!attached && vx_bool("attach")) { N[1]->addChild(N[2]); attached = true; } else { vx_assume(ms.size() < 3); src(vx_pick(vx_range("node", 0, 1)) * 2, vx_pick(vx_range("name", 0, 1))); } }
    for (int d = 0; d < 2; d++) { size_t p = 0; for (auto& w : want[d]) { size_t q = bf[d].s.find(w, p); vx_assert(q != std::string::npos && bf[d].s[q + w.size()] == '\n', "each tapped message is written once, in order"); p = q + w.size(); } vx_assert((size_t)std::count(bf[d].s.begin(), bf[d].s.end(), ';') == want[d].size() && (size_t)std::count(bf[d].s.begin(), bf[d].s.end(), '\n') == want[d].size(), "and nothing else is written"); }
    for (size_t k = 0; k < ts.size(); k++) vx_assert(taps[k]->getNumMessages() == tc[k], "a tap counts its messages"); vx_reach("end");
}
