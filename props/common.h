// Shared simulation environment for the harnesses.
#pragma once
#include "vx.h"
#include "sparta/sparta.hpp"
#include "sparta/simulation/RootTreeNode.hpp"
#include "sparta/simulation/Clock.hpp"
#include "sparta/simulation/ClockManager.hpp"
#include "sparta/kernel/Scheduler.hpp"
#include "sparta/events/EventSet.hpp"
#include "sparta/events/Event.hpp"
#include "sparta/events/UniqueEvent.hpp"
#include "sparta/events/SingleCycleUniqueEvent.hpp"
#include "sparta/events/PayloadEvent.hpp"
#include <vector>
#include <string>
#include <memory>
#include <algorithm>
#include <functional>
#include "sparta/events/PhasedUniqueEvent.hpp"
namespace env {
inline sparta::Scheduler* S; inline sparta::RootTreeNode* R; inline sparta::Clock* C; inline sparta::EventSet* ES;
inline void base() {
    S = new sparta::Scheduler; R = new sparta::RootTreeNode; C = new sparta::Clock("clk", S); R->setClock(C);
    ES = new sparta::EventSet(R);
}
inline void finalize() { R->enterConfiguring(); R->enterFinalized(); S->finalize(); }
inline void go(uint64_t ticks = 1) { finalize(); if (ticks) S->run(ticks, true, false); }
inline uint64_t now() { return S->getCurrentTick(); }
inline void run(uint64_t n) { S->run(n, true, false); }
}
static const sparta::SchedulingPhase PHASES[] = {sparta::SchedulingPhase::Trigger, sparta::SchedulingPhase::Update, sparta::SchedulingPhase::PortUpdate, sparta::SchedulingPhase::Flush, sparta::SchedulingPhase::Collection, sparta::SchedulingPhase::Tick, sparta::SchedulingPhase::PostTick};
// runs f in a given phase
struct Driver { sparta::PhasedUniqueEvent e; std::function<void()> f; Driver(const std::string& n, sparta::SchedulingPhase p) : e(env::ES, n, p, CREATE_SPARTA_HANDLER(Driver, g)) {} void g() { if (f) f(); }
    // schedule f for the current tick and run that tick
    void tick(std::function<void()> x) { f = x; e.schedule(uint64_t(0)); env::run(1); f = nullptr; } };
template<class F> bool throws_(F f) { try { f(); } catch (const std::exception&) { return true; } return false; }
