From e4328190dbf55b2aa67b504473fed6bde0eaa662 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:03 +0000
Subject: [PATCH 01/64] fix: PayloadEvent::cancel(rel_cycle) returns the number
 of events it cancelled

---
 sparta/sparta/events/PhasedPayloadEvent.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/sparta/sparta/events/PhasedPayloadEvent.hpp b/sparta/sparta/events/PhasedPayloadEvent.hpp
index 79b7149..7887a2f 100644
--- a/sparta/sparta/events/PhasedPayloadEvent.hpp
+++ b/sparta/sparta/events/PhasedPayloadEvent.hpp
@@ -334,14 +334,17 @@ namespace sparta
          * This will cancel all instances of this event at the given cycle.
          */
         uint32_t cancel(Clock::Cycle rel_cycle) {
-            const uint32_t cancel_cnt = inflight_pl_.size();
+            uint32_t cancel_cnt = 0;
             auto bit = inflight_pl_.begin();
             while(bit != inflight_pl_.end()) {
                 auto proxy = *bit;
                 ++bit;
                 // Cancelling the event will change the inflight_pl_
                 // list, hence we cannot use a range for loop
-                proxy->cancel(rel_cycle);
+                if(proxy->isScheduled(rel_cycle)) {
+                    proxy->cancel(rel_cycle);
+                    ++cancel_cnt;
+                }
             }
             return cancel_cnt;
         }
-- 
2.43.0


From c72a453fcfb8c775b1b9019ef27114fce230b960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:03 +0000
Subject: [PATCH 02/64] fix: SingleCycleUniqueEvent can be rescheduled after
 being cancelled or cleared, and twice in tick 0

---
 .../events/PhasedSingleCycleUniqueEvent.hpp   | 53 +++++++++++++++----
 1 file changed, 44 insertions(+), 9 deletions(-)

diff --git a/sparta/sparta/events/PhasedSingleCycleUniqueEvent.hpp b/sparta/sparta/events/PhasedSingleCycleUniqueEvent.hpp
index 3653b09..af05361 100644
--- a/sparta/sparta/events/PhasedSingleCycleUniqueEvent.hpp
+++ b/sparta/sparta/events/PhasedSingleCycleUniqueEvent.hpp
@@ -58,7 +58,9 @@ namespace sparta
             EventNode(event_set, name, sched_phase),
             local_clk_(getClock()),
             fancy_name_(name + "[" + consumer_event_handler.getName() + "]"),
-            single_cycle_event_scheduleable_(consumer_event_handler, 1 /*HARD CODED*/, sched_phase)
+            consumer_event_handler_(consumer_event_handler),
+            single_cycle_event_scheduleable_(this, CREATE_SPARTA_HANDLER(PhasedSingleCycleUniqueEvent, deliverEvent_),
+                                             1 /*HARD CODED*/, sched_phase)
         {
             single_cycle_event_scheduleable_.setScheduleableClock(getClock());
             single_cycle_event_scheduleable_.setLabel(fancy_name_.c_str());
@@ -126,10 +128,11 @@ namespace sparta
             const auto to_be_scheduled_relative_tick =
                 local_clk_->getTick(Clock::Cycle(rel_cycle));
 
+            // Offset by one to tell tick 0 from "not scheduled"
             const auto to_be_scheduled_abs_tick =
-                local_scheduler_->calcIndexTime(to_be_scheduled_relative_tick);
+                local_scheduler_->calcIndexTime(to_be_scheduled_relative_tick) + 1;
 
-            if(SPARTA_EXPECT_TRUE(next_scheduled_tick_ < to_be_scheduled_abs_tick || is_init_tick_))
+            if(SPARTA_EXPECT_TRUE(next_scheduled_tick_ < to_be_scheduled_abs_tick))
             {
 #ifndef NDEBUG
                 // This is a handy debug assertion to see if
@@ -142,7 +145,6 @@ namespace sparta
                     scheduleRelativeTick(to_be_scheduled_relative_tick, local_scheduler_);
                 prev_scheduled_tick_ = next_scheduled_tick_;
                 next_scheduled_tick_ = to_be_scheduled_abs_tick;
-                is_init_tick_ = false; //only allow one event in tick 0
             }
             else if((to_be_scheduled_abs_tick < next_scheduled_tick_) &&
                     (prev_scheduled_tick_ != to_be_scheduled_abs_tick))
@@ -184,6 +186,36 @@ namespace sparta
 #endif
 
     private:
+        //! The Scheduleable put on the Scheduler.  Once cancelled (or
+        //! cleared from the Scheduler), the event can be rescheduled
+        //! for the very same cycles, but not for a cycle it fired in
+        class SingleCycleScheduleable : public Scheduleable
+        {
+        public:
+            SingleCycleScheduleable(PhasedSingleCycleUniqueEvent * parent,
+                                    const SpartaHandler & consumer_event_handler,
+                                    Clock::Cycle delay, SchedulingPhase sched_phase) :
+                Scheduleable(consumer_event_handler, delay, sched_phase, true /* unique */),
+                parent_(parent)
+            {}
+
+        private:
+            void eventCancelled_() override {
+                const bool fired = (parent_->last_fired_tick_ ==
+                                    parent_->local_scheduler_->getCurrentTick() + 1);
+                parent_->next_scheduled_tick_ = fired ? parent_->last_fired_tick_ : 0;
+                parent_->prev_scheduled_tick_ = 0;
+            }
+
+            PhasedSingleCycleUniqueEvent * const parent_;
+        };
+
+        //! Remember when the event fired, then call the consumer
+        void deliverEvent_() {
+            last_fired_tick_ = local_scheduler_->getCurrentTick() + 1;
+            consumer_event_handler_();
+        }
+
         //! Called by the framework on all TreeNodes
         void createResource_() override {
             local_clk_ = getClock();
@@ -197,18 +229,21 @@ namespace sparta
         Scheduler * local_scheduler_ = nullptr;
 
         //! The last time this PhasedSingleCycleUniqueEvent was scheduled (rel cycle == [0,1])
-        //std::array<Scheduler::Tick, 2> next_scheduled_tick_ = {0, 0};
+        //! Stored as tick + 1; 0 means not scheduled
         Scheduler::Tick next_scheduled_tick_ = 0;
         Scheduler::Tick prev_scheduled_tick_ = 0;
 
+        //! The last time this PhasedSingleCycleUniqueEvent fired, as tick + 1
+        Scheduler::Tick last_fired_tick_ = 0;
+
         //! A fancy name for the event handler
         std::string fancy_name_;
 
-        //! The actual scheduled item on the scheduler
-        Scheduleable single_cycle_event_scheduleable_;
+        //! The consumer's handler
+        SpartaHandler consumer_event_handler_;
 
-        //! Track if is in the initial tick = tick 0
-        bool is_init_tick_ = true;
+        //! The actual scheduled item on the scheduler
+        SingleCycleScheduleable single_cycle_event_scheduleable_;
     };
 
 }
-- 
2.43.0


From 4866f64b0c0e6e4fec95ee867ac9a44dca95651c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:29 +0000
Subject: [PATCH 03/64] fix: moving or self-assigning a ScheduleableHandle
 keeps the reference count right

---
 sparta/sparta/events/Scheduleable.hpp | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/sparta/sparta/events/Scheduleable.hpp b/sparta/sparta/events/Scheduleable.hpp
index 9271852..6da5e5f 100644
--- a/sparta/sparta/events/Scheduleable.hpp
+++ b/sparta/sparta/events/Scheduleable.hpp
@@ -547,8 +547,12 @@ namespace sparta
         //! Create an empty Handle
         ScheduleableHandle() = default;
 
-        // Default move
-        ScheduleableHandle(ScheduleableHandle &&) = default;
+        //! Move a Handle; the original no longer references the Scheduleable
+        ScheduleableHandle(ScheduleableHandle && orig) noexcept :
+            scheduleable_(orig.scheduleable_)
+        {
+            orig.scheduleable_ = nullptr;
+        }
 
         //! Copy a Handle, increment the count
         ScheduleableHandle(const ScheduleableHandle & orig)
@@ -610,9 +614,11 @@ namespace sparta
 
         //! Assignment
         ScheduleableHandle & operator=(const ScheduleableHandle & rhs) {
-            disconnect_();
-            scheduleable_ = rhs.scheduleable_;
-            connect_();
+            if(this != &rhs) {
+                disconnect_();
+                scheduleable_ = rhs.scheduleable_;
+                connect_();
+            }
             return *this;
         }
 
-- 
2.43.0


From d287f30b826f3aa70b533f02bd4f6b6619f5c790 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:19 +0000
Subject: [PATCH 04/64] fix: the stop event of a run that ended early no longer
 stops a later run

---
 sparta/src/Scheduler.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/sparta/src/Scheduler.cpp b/sparta/src/Scheduler.cpp
index e1af41d..d65f2db 100644
--- a/sparta/src/Scheduler.cpp
+++ b/sparta/src/Scheduler.cpp
@@ -472,6 +472,7 @@ void Scheduler::run(Tick num_ticks,
     // Flag running. Do not return from this method without setting
     // running_ = false;
     running_ = (current_tick_quantum_ != nullptr);
+    const Tick stop_tick = current_tick_ + num_ticks - 1;
     if(SPARTA_EXPECT_TRUE(measure_run_time)) {
         // Start the timer
         timer_.resume();
@@ -658,6 +659,12 @@ void Scheduler::run(Tick num_ticks,
     // Reset the Scheduling phase
     current_scheduling_phase_ = SchedulingPhase::Trigger;
 
+    // If the run ended ahead of its stop event, the stop event must
+    // not stop a later run
+    if(SPARTA_EXPECT_FALSE((num_ticks != INDEFINITE) && (current_tick_ < stop_tick))) {
+        cancelEvent(stop_event_.get());
+    }
+
     // Update elapsed_ticks_
     elapsed_ticks_ += std::llabs(int64_t(current_tick_) - int64_t(elapsed_ticks_));
 
-- 
2.43.0


From 95d5c88d26154dbffb45b0139d5b81ee52cc5d1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:19 +0000
Subject: [PATCH 05/64] fix: unique events that fired before
 Scheduler::restartAt can be scheduled at the same tick again

---
 sparta/sparta/events/PhasedSingleCycleUniqueEvent.hpp | 11 +++++++++++
 sparta/sparta/events/PhasedUniqueEvent.hpp            |  8 +++++++-
 sparta/sparta/kernel/Scheduler.hpp                    |  8 ++++++++
 sparta/src/Scheduler.cpp                              |  1 +
 4 files changed, 27 insertions(+), 1 deletion(-)

diff --git a/sparta/sparta/events/PhasedSingleCycleUniqueEvent.hpp b/sparta/sparta/events/PhasedSingleCycleUniqueEvent.hpp
index af05361..b7a304f 100644
--- a/sparta/sparta/events/PhasedSingleCycleUniqueEvent.hpp
+++ b/sparta/sparta/events/PhasedSingleCycleUniqueEvent.hpp
@@ -125,6 +125,14 @@ namespace sparta
                         << getName() << "' in any relative time other than 0 or 1. rel_cycle given: "
                         << rel_cycle);
 
+            // A restarted Scheduler may go through the same ticks again
+            if(SPARTA_EXPECT_FALSE(last_restart_ != local_scheduler_->getRestartCount())) {
+                last_restart_ = local_scheduler_->getRestartCount();
+                next_scheduled_tick_ = 0;
+                prev_scheduled_tick_ = 0;
+                last_fired_tick_ = 0;
+            }
+
             const auto to_be_scheduled_relative_tick =
                 local_clk_->getTick(Clock::Cycle(rel_cycle));
 
@@ -236,6 +244,9 @@ namespace sparta
         //! The last time this PhasedSingleCycleUniqueEvent fired, as tick + 1
         Scheduler::Tick last_fired_tick_ = 0;
 
+        //! The Scheduler's restart count at that time
+        uint64_t last_restart_ = 0;
+
         //! A fancy name for the event handler
         std::string fancy_name_;
 
diff --git a/sparta/sparta/events/PhasedUniqueEvent.hpp b/sparta/sparta/events/PhasedUniqueEvent.hpp
index 233193b..5b0fe1d 100644
--- a/sparta/sparta/events/PhasedUniqueEvent.hpp
+++ b/sparta/sparta/events/PhasedUniqueEvent.hpp
@@ -91,7 +91,8 @@ namespace sparta
                                   sparta::Scheduler * scheduler) override final
         {
             sparta_assert(scheduler_);
-            sparta_assert(last_tick_called_ != (scheduler->getCurrentTick() + rel_tick),
+            sparta_assert((last_tick_called_ != (scheduler->getCurrentTick() + rel_tick)) ||
+                        (last_restart_called_ != scheduler->getRestartCount()),
                         "PhasedUniqueEvent (UniqueEvent) '" << getName()
                         << "' was already scheduled and fired this cycle."
                         "\t\nAre you missing a precedence rule?");
@@ -118,6 +119,7 @@ namespace sparta
             // lack of a clock), I cannot remember the time...
             if(SPARTA_EXPECT_TRUE(local_clk_ != nullptr)) {
                 last_tick_called_ = local_clk_->getScheduler()->getCurrentTick();
+                last_restart_called_ = local_clk_->getScheduler()->getRestartCount();
             }
             pue_consumer_event_handler_();
         }
@@ -134,6 +136,10 @@ namespace sparta
         //! The last time this PhasedUniqueEvent was called -- for sanity checking
         Scheduler::Tick last_tick_called_ = Scheduler::Tick(-1);
 
+        //! The Scheduler's restart count at that time -- a restarted
+        //! Scheduler may go through the same tick again
+        uint64_t last_restart_called_ = 0;
+
         //! A fancy name for the event handler
         std::string fancy_name_;
     };
diff --git a/sparta/sparta/kernel/Scheduler.hpp b/sparta/sparta/kernel/Scheduler.hpp
index 24d7d84..70a8707 100644
--- a/sparta/sparta/kernel/Scheduler.hpp
+++ b/sparta/sparta/kernel/Scheduler.hpp
@@ -458,6 +458,11 @@ public:
      */
     void restartAt(Tick t);
 
+    //! \return The number of times the scheduler has been (re)started with restartAt
+    uint64_t getRestartCount() const noexcept {
+        return restart_count_;
+    }
+
     /**
      * \brief A method used for debugging the scheduler.
      *        Prints the scheduler's schedule of events.
@@ -952,6 +957,9 @@ private:
     //! Elapsed ticks
     Tick elapsed_ticks_ = 0;
 
+    //! How many times restartAt has been called
+    uint64_t restart_count_ = 0;
+
     //! Previous tick that someone kicked the WDT
     Tick prev_wdt_tick_ = 0;
 
diff --git a/sparta/src/Scheduler.cpp b/sparta/src/Scheduler.cpp
index d65f2db..ac9e60e 100644
--- a/sparta/src/Scheduler.cpp
+++ b/sparta/src/Scheduler.cpp
@@ -282,6 +282,7 @@ void Scheduler::restartAt(Tick t)
     }
 
     clearEvents();
+    ++restart_count_;
     current_tick_ = t;
     if(first_tick_ || (t == 0)) {
         elapsed_ticks_ = t;
-- 
2.43.0


From 3bb29cbf99fcacafda1488252f88f66a3fb80b14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:47 +0000
Subject: [PATCH 06/64] fix: data and signal ports do not truncate send delays
 to 32 bits

---
 sparta/sparta/ports/DataPort.hpp   | 2 +-
 sparta/sparta/ports/SignalPort.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/sparta/sparta/ports/DataPort.hpp b/sparta/sparta/ports/DataPort.hpp
index 5e2c364..4b089c5 100644
--- a/sparta/sparta/ports/DataPort.hpp
+++ b/sparta/sparta/ports/DataPort.hpp
@@ -503,7 +503,7 @@ namespace sparta
          */
         void send_(const DataT & dat, sparta::Clock::Cycle rel_time)
         {
-            const uint32_t total_delay = rel_time + port_delay_;
+            const Clock::Cycle total_delay = rel_time + port_delay_;
 
             // Most of the time there is a delay.
             if(SPARTA_EXPECT_FALSE(total_delay == 0))
diff --git a/sparta/sparta/ports/SignalPort.hpp b/sparta/sparta/ports/SignalPort.hpp
index 5957dad..e1a1ac3 100644
--- a/sparta/sparta/ports/SignalPort.hpp
+++ b/sparta/sparta/ports/SignalPort.hpp
@@ -282,7 +282,7 @@ namespace sparta
          */
         void send_(sparta::Clock::Cycle rel_time)
         {
-            const uint32_t total_delay = rel_time + port_delay_;
+            const Clock::Cycle total_delay = rel_time + port_delay_;
             // Most of the time there is a delay.
             if(SPARTA_EXPECT_FALSE(total_delay == 0))
             {
-- 
2.43.0


From 6204fb0c71f83dd1f9e55583080fbe19e17c4481 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:16:05 +0000
Subject: [PATCH 07/64] fix: an infinite Buffer keeps its order and its entries
 when it grows

---
 sparta/sparta/resources/Buffer.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sparta/sparta/resources/Buffer.hpp b/sparta/sparta/resources/Buffer.hpp
index 9c7adc8..0d5e13d 100644
--- a/sparta/sparta/resources/Buffer.hpp
+++ b/sparta/sparta/resources/Buffer.hpp
@@ -917,6 +917,7 @@ namespace sparta
             // Make all the pointers in buffer_map_ point to the appropriate indexes.
             for(uint32_t i = 0; i < num_valid_; ++i) {
                 buffer_map_[i] = &data_pool_[address_map_[i]];
+                buffer_map_[i]->physical_idx = i;
             }
 
             // Resize the validator vector and relink the validator data pool.
@@ -995,7 +996,7 @@ namespace sparta
             // Store the index in the data_pool_ to which current
             // free_position_ points to. We need to relink all these
             // pointers once the data_pool_ resizes.
-            address_map_[num_valid_] =
+            address_map_[idx] =
                 static_cast<uint32_t>(free_position_ - &data_pool_[0]);
             ++num_valid_;
             free_position_ = free_position_->next_free;
-- 
2.43.0


From 037c988091f2b8b0f78149a328ea4c407e84726f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:16:06 +0000
Subject: [PATCH 08/64] fix: destroying or clearing a moved-from Buffer does
 not write out of bounds

---
 sparta/sparta/resources/Buffer.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sparta/sparta/resources/Buffer.hpp b/sparta/sparta/resources/Buffer.hpp
index 0d5e13d..da6daed 100644
--- a/sparta/sparta/resources/Buffer.hpp
+++ b/sparta/sparta/resources/Buffer.hpp
@@ -702,6 +702,10 @@ namespace sparta
                               }
                           });
             std::fill(buffer_map_.begin(), buffer_map_.end(), nullptr);
+            if(data_pool_size_ == 0) {
+                // Nothing is stored in a moved-from Buffer
+                return;
+            }
             for(uint32_t i = 0; i < data_pool_size_ - 1; ++i) {
                 data_pool_[i].next_free = &data_pool_[i + 1];
             }
-- 
2.43.0


From 415b68cf40d97a312b1f82096f32509e21f88a44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:32 +0000
Subject: [PATCH 09/64] fix: Queue iterators stay valid after 2^32 pushes

---
 sparta/sparta/resources/Queue.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sparta/sparta/resources/Queue.hpp b/sparta/sparta/resources/Queue.hpp
index 28ea639..f8c6a3d 100644
--- a/sparta/sparta/resources/Queue.hpp
+++ b/sparta/sparta/resources/Queue.hpp
@@ -237,7 +237,7 @@ namespace sparta
              * \param q  a pointer to the underlaying queue.
              * \param begin_itr if true iterator points to tail (begin()), if false points to head (end())
              */
-            QueueIterator(QueuePointerType q, uint32_t physical_index, uint32_t obj_id) :
+            QueueIterator(QueuePointerType q, uint32_t physical_index, uint64_t obj_id) :
                 attached_queue_(q),
                 physical_index_(physical_index),
                 obj_id_(obj_id)
-- 
2.43.0


From 3c5c47efaf9be14214518270169e784d82100f34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:03 +0000
Subject: [PATCH 10/64] fix: CircularBuffer iterators stay valid after 2^32
 pushes

---
 sparta/sparta/resources/CircularBuffer.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sparta/sparta/resources/CircularBuffer.hpp b/sparta/sparta/resources/CircularBuffer.hpp
index 3630fee..647b42c 100644
--- a/sparta/sparta/resources/CircularBuffer.hpp
+++ b/sparta/sparta/resources/CircularBuffer.hpp
@@ -689,7 +689,7 @@ namespace sparta
 
         // Used by the internal iterator type to see if it's still
         // valid
-        bool isValidIterator_(uint32_t window_idx) const {
+        bool isValidIterator_(uint64_t window_idx) const {
             return (window_idx >= start_idx_ && window_idx < end_idx_);
         }
 
-- 
2.43.0


From 1c604def5244000d7c1a6e14c3cc614da603dd8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:29 +0000
Subject: [PATCH 11/64] fix: inserting into a full CircularBuffer replaces the
 oldest entry instead of exceeding the capacity

---
 sparta/sparta/resources/CircularBuffer.hpp | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/sparta/sparta/resources/CircularBuffer.hpp b/sparta/sparta/resources/CircularBuffer.hpp
index 647b42c..a176222 100644
--- a/sparta/sparta/resources/CircularBuffer.hpp
+++ b/sparta/sparta/resources/CircularBuffer.hpp
@@ -732,9 +732,18 @@ namespace sparta
             }
             sparta_assert(entry.isValid(),
                         "Cannot insert into Circularbuffer at given iterator");
-            auto it = circularbuffer_data_.insert(entry.getInternalBufferEntry_(),
-                                                  CircularBufferData(std::forward<U>(dat), end_idx_));
-            ++num_valid_;
+            auto pos = entry.getInternalBufferEntry_();
+            if(num_valid_ == max_size_) {
+                // Overwrite the oldest entry, like push_back
+                if(pos == circularbuffer_data_.begin()) {
+                    ++pos;
+                }
+                circularbuffer_data_.pop_front();
+            }
+            else {
+                ++num_valid_;
+            }
+            auto it = circularbuffer_data_.insert(pos, CircularBufferData(std::forward<U>(dat), end_idx_));
             invalidateIndexes_();
             return iterator(this, it, it->window_idx);
         }
-- 
2.43.0


From 1bd593ea84b87c3c270b119eb1ff98ca3255bc5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:29 +0000
Subject: [PATCH 12/64] fix: CircularBuffer erase and insert update the
 utilization counters

---
 sparta/sparta/resources/CircularBuffer.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sparta/sparta/resources/CircularBuffer.hpp b/sparta/sparta/resources/CircularBuffer.hpp
index a176222..d95bc7f 100644
--- a/sparta/sparta/resources/CircularBuffer.hpp
+++ b/sparta/sparta/resources/CircularBuffer.hpp
@@ -700,6 +700,7 @@ namespace sparta
             circularbuffer_data_.erase(entry.getInternalBufferEntry_());
             --num_valid_;
             invalidateIndexes_();
+            updateUtilizationCounters_();
         }
 
         template<typename U>
@@ -745,6 +746,7 @@ namespace sparta
             }
             auto it = circularbuffer_data_.insert(pos, CircularBufferData(std::forward<U>(dat), end_idx_));
             invalidateIndexes_();
+            updateUtilizationCounters_();
             return iterator(this, it, it->window_idx);
         }
 
-- 
2.43.0


From 4b4cea614c04bbec0226f4dd75e9fcafbef00120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:29 +0000
Subject: [PATCH 13/64] fix: writing over a valid Array entry destroys the
 entry it replaces

---
 sparta/sparta/resources/Array.hpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/sparta/sparta/resources/Array.hpp b/sparta/sparta/resources/Array.hpp
index 15e0432..8ccc9c4 100644
--- a/sparta/sparta/resources/Array.hpp
+++ b/sparta/sparta/resources/Array.hpp
@@ -940,11 +940,16 @@ namespace sparta
                 if constexpr (ArrayT == ArrayType::AGED) {
                     aged_list_.erase(array_[idx].list_pointer);
                 }
+                // dat may refer to the entry being replaced
+                DataT replacement(std::forward<U>(dat));
+                array_[idx].~ArrayPosition();
+                new (array_.get() + idx) ArrayPosition(std::move(replacement));
+            }
+            else {
+                // Since we are not timed. Write the data and validate it,
+                // then do pipeline collection.
+                new (array_.get() + idx) ArrayPosition(std::forward<U>(dat));
             }
-
-            // Since we are not timed. Write the data and validate it,
-            // then do pipeline collection.
-            new (array_.get() + idx) ArrayPosition(std::forward<U>(dat));
             valid_index_set_.insert(idx);
 
             // Timestamp the entry in the array, for fast age comparison between two indexes.
-- 
2.43.0


From ddacdaaf39232823a946849f87a2ecb9f0ab7c2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:25 +0000
Subject: [PATCH 14/64] fix: FrontArray::readValid finds the nth valid entry
 when there are gaps

---
 sparta/sparta/resources/FrontArray.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sparta/sparta/resources/FrontArray.hpp b/sparta/sparta/resources/FrontArray.hpp
index e7b9121..28abdc9 100644
--- a/sparta/sparta/resources/FrontArray.hpp
+++ b/sparta/sparta/resources/FrontArray.hpp
@@ -57,7 +57,7 @@ namespace sparta{
             uint32_t i = 0;
             while(n <= nth)
             {
-                if(BaseArray::isValid(n))
+                if(BaseArray::isValid(i))
                 {
                     ++n;
                 }
-- 
2.43.0


From 5b711ddc44da8c64d0d77a7676bbe22cb603be78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:25 +0000
Subject: [PATCH 15/64] fix: FrontArray rvalue push_front and push_back compile

---
 sparta/sparta/resources/FrontArray.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sparta/sparta/resources/FrontArray.hpp b/sparta/sparta/resources/FrontArray.hpp
index 28abdc9..ee4319f 100644
--- a/sparta/sparta/resources/FrontArray.hpp
+++ b/sparta/sparta/resources/FrontArray.hpp
@@ -132,7 +132,7 @@ namespace sparta{
          * \param dat The data to push
          * \return The index it was inserted
          */
-        uint32_t push_front(DataT&& dat) { return writeFront(std::forward(dat)); }
+        uint32_t push_front(DataT&& dat) { return writeFront(std::move(dat)); }
 
         /**
          * \brief Push the first available index in the Array starting from the back
@@ -146,7 +146,7 @@ namespace sparta{
          * \param dat The data to push
          * \return The index it was inserted
          */
-        uint32_t push_back(DataT && dat) { return writeBack(std::forward(dat)); }
+        uint32_t push_back(DataT && dat) { return writeBack(std::move(dat)); }
 
     private:
         template<typename U>
-- 
2.43.0


From 297d1682078be43e160ada14fdbdae368cef2b48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:17 +0000
Subject: [PATCH 16/64] fix: Pipe::flushIf of appended data does not corrupt
 the number of valid entries

---
 sparta/sparta/resources/Pipe.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sparta/sparta/resources/Pipe.hpp b/sparta/sparta/resources/Pipe.hpp
index f041552..06f4801 100644
--- a/sparta/sparta/resources/Pipe.hpp
+++ b/sparta/sparta/resources/Pipe.hpp
@@ -385,7 +385,7 @@ public:
             PipeEntry & pe = pipe_[getPhysicalStage_(i)];
             if(pe.data.isValid()) {
                 if(pe.data.getValue() == criteria){
-                    if(pe.data.isValid()) {
+                    if(i >= 0) { // appended data does not count yet
                         --num_valid_;
                     }
                     pe.data.clearValid();
@@ -408,7 +408,7 @@ public:
             PipeEntry & pe = pipe_[getPhysicalStage_(i)];
             if(pe.data.isValid()) {
                 if(compare(pe.data.getValue())){
-                    if(pe.data.isValid()) {
+                    if(i >= 0) { // appended data does not count yet
                         --num_valid_;
                     }
                     pe.data.clearValid();
-- 
2.43.0


From 4703f8a515fa6e89d4013dae41d56ba1f97f0a29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:17 +0000
Subject: [PATCH 17/64] fix: flushing a Pipeline stage cancels its events also
 after a stall, deactivation or invalidation in the same cycle

---
 sparta/sparta/resources/Pipeline.hpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/sparta/sparta/resources/Pipeline.hpp b/sparta/sparta/resources/Pipeline.hpp
index b7f58f8..c0745ad 100644
--- a/sparta/sparta/resources/Pipeline.hpp
+++ b/sparta/sparta/resources/Pipeline.hpp
@@ -1026,11 +1026,10 @@ namespace sparta
         {
             sparta_assert(stage_id < num_stages_,
                           "Try to cancel events for invalid pipeline stage[" << stage_id << "]");
-            if (pipe_.isValid(stage_id) && events_valid_at_stage_[stage_id]) {
-                sparta_assert(event_list_at_stage_[stage_id].size());
-                for (const auto & ev_ptr :  event_list_at_stage_[stage_id]) {
-                    ev_ptr->cancel(sparta::Clock::Cycle(0));
-                }
+            // The events may have been scheduled this cycle before the stage was
+            // deactivated (by a stall or the user) or invalidated
+            for (const auto & ev_ptr :  event_list_at_stage_[stage_id]) {
+                ev_ptr->cancel(sparta::Clock::Cycle(0));
             }
         }
 
-- 
2.43.0


From 7effcd1c82c0a20abb14054f4f1ac33a68437647 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:13 +0000
Subject: [PATCH 18/64] fix: several writes to a SharedData in one cycle do not
 lose the data

---
 sparta/sparta/resources/SharedData.hpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/sparta/sparta/resources/SharedData.hpp b/sparta/sparta/resources/SharedData.hpp
index 8b23e9c..82d5caa 100644
--- a/sparta/sparta/resources/SharedData.hpp
+++ b/sparta/sparta/resources/SharedData.hpp
@@ -233,16 +233,24 @@ namespace sparta
         void writeImpl_(U && dat) {
             data_[NState_()] = std::forward<U>(dat);
             if constexpr (!manual_update) {
-                ev_update_.schedule(1);
+                // Several writes in the same cycle cause one update
+                if(!update_pending_) {
+                    update_pending_ = true;
+                    ev_update_.schedule(1);
+                }
             }
         }
 
         void update_()
         {
+            update_pending_ = false;
             current_state_ = NState_();
             clearNS();
         }
 
+        // Is an update already scheduled?
+        bool update_pending_ = false;
+
         // Global Event
         GlobalEvent<SchedulingPhase::Update> ev_update_;
 
-- 
2.43.0


From 9b8dfe6b245ce16baf8617cbd42b14ca760e99e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:13 +0000
Subject: [PATCH 19/64] fix: copying or moving a SharedData keeps its pending
 update

---
 sparta/sparta/resources/SharedData.hpp | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/sparta/sparta/resources/SharedData.hpp b/sparta/sparta/resources/SharedData.hpp
index 82d5caa..f604557 100644
--- a/sparta/sparta/resources/SharedData.hpp
+++ b/sparta/sparta/resources/SharedData.hpp
@@ -54,6 +54,15 @@ namespace sparta
             ev_update_.resetHandler(CREATE_SPARTA_HANDLER(SharedData, update_));
         }
 
+        // Take over a pending update: the copied GlobalEvent is not scheduled
+        void copyPendingUpdate_(const bool update_pending)
+        {
+            update_pending_ = update_pending;
+            if(update_pending_) {
+                ev_update_.schedule(1);
+            }
+        }
+
     public:
         /**
          * \brief Construct a SharedData item
@@ -76,6 +85,7 @@ namespace sparta
             data_(rhs.data_)
         {
             resetHandler_();
+            copyPendingUpdate_(rhs.update_pending_);
         }
 
         SharedData(SharedData&& rhs) :
@@ -84,6 +94,8 @@ namespace sparta
             data_(std::move(rhs.data_))
         {
             resetHandler_();
+            copyPendingUpdate_(rhs.update_pending_);
+            rhs.update_pending_ = false;
         }
 
         SharedData& operator=(const SharedData& rhs)
@@ -93,6 +105,7 @@ namespace sparta
 
             current_state_ = rhs.current_state_;
             data_ = rhs.data_;
+            copyPendingUpdate_(rhs.update_pending_);
 
             return *this;
         }
@@ -104,6 +117,10 @@ namespace sparta
 
             current_state_ = std::move(rhs.current_state_);
             data_ = std::move(rhs.data_);
+            copyPendingUpdate_(rhs.update_pending_);
+            if(&rhs != this) {
+                rhs.update_pending_ = false;
+            }
 
             return *this;
         }
-- 
2.43.0


From 2d19ffdb2a5061601147caaa508e6a6c9afc4b5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:46 +0000
Subject: [PATCH 20/64] fix: an assigned GlobalEvent does not refer to a
 destroyed life tracker

---
 sparta/sparta/utils/LifeTracker.hpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/sparta/sparta/utils/LifeTracker.hpp b/sparta/sparta/utils/LifeTracker.hpp
index 79f3ad3..9b9fe13 100644
--- a/sparta/sparta/utils/LifeTracker.hpp
+++ b/sparta/sparta/utils/LifeTracker.hpp
@@ -72,6 +72,20 @@ namespace sparta
                 tracked_object(obj)
             {}
 
+            //! A copy has its own lifetime (it never shares or outlives the other tracker)
+            LifeTracker(const LifeTracker & rhs) :
+                LifeTracker(rhs.tracked_object)
+            {}
+
+            //! Expires the receivers of this tracker; later receivers follow its own lifetime
+            LifeTracker & operator=(const LifeTracker & rhs)
+            {
+                std::shared_ptr<LifeTracker<TrackedObjectT>>::operator=
+                    (std::shared_ptr<LifeTracker<TrackedObjectT>>(this, [] (LifeTracker<TrackedObjectT> *) {}));
+                tracked_object = rhs.tracked_object;
+                return *this;
+            }
+
             TrackedObjectT * tracked_object;
         };
 
-- 
2.43.0


From 4aed792874f75d11e344af79a244b48ccdb337ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:15 +0000
Subject: [PATCH 21/64] fix: deleting a checkpoint keeps the deltas that the
 current checkpoint depends on

---
 sparta/sparta/serialization/checkpoint/FastCheckpointer.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sparta/sparta/serialization/checkpoint/FastCheckpointer.hpp b/sparta/sparta/serialization/checkpoint/FastCheckpointer.hpp
index 419d3bf..a4ab1f1 100644
--- a/sparta/sparta/serialization/checkpoint/FastCheckpointer.hpp
+++ b/sparta/sparta/serialization/checkpoint/FastCheckpointer.hpp
@@ -820,7 +820,7 @@ namespace sparta::serialization::checkpoint
                 // If nothing later in the chain (tree) depends on d's data, it can be deleted.
                 // This also patches the checkpoint tree around the deleted checkpoint
                 //! \todo canDelete is recursive at worst and might benefit from optimization
-                if(d->canDelete()) {
+                if(d->canDelete() && !recursForwardFindAlive_(d)) {
                     // Get checkpoint id regardless of whether alive or dead
                     chkpt_id_t id = d->getID();
                     if (d->isFlaggedDeleted()) {
@@ -857,8 +857,8 @@ namespace sparta::serialization::checkpoint
                 // Only check descendants for snapshot-ness
                 if(dc->isSnapshot()){
                     // Found a live snapshot that ends this branch. d is not needed
-                    // after this
-                    return false;
+                    // after this, but other branches may need it
+                    continue;
                 }
                 if(dc == getCurrent_()){
                     // Found current in this search chain
-- 
2.43.0


From d21efac02b8395bc3f4ce438b8154ed5996a58c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:15 +0000
Subject: [PATCH 22/64] fix: the head checkpoint cannot be deleted

---
 sparta/sparta/serialization/checkpoint/FastCheckpointer.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sparta/sparta/serialization/checkpoint/FastCheckpointer.hpp b/sparta/sparta/serialization/checkpoint/FastCheckpointer.hpp
index a4ab1f1..6828e5c 100644
--- a/sparta/sparta/serialization/checkpoint/FastCheckpointer.hpp
+++ b/sparta/sparta/serialization/checkpoint/FastCheckpointer.hpp
@@ -225,6 +225,10 @@ namespace sparta::serialization::checkpoint
                 throw CheckpointError("Could not delete checkpoint ID=")
                     << id << " because no checkpoint by this ID was found";
             }
+            if(d == getHead()){
+                throw CheckpointError("Could not delete checkpoint ID=")
+                    << id << " because it is the head checkpoint";
+            }
 
             // Allow deletion and change ID to UNIDENTIFIED_CHECKPOINT.
             // This is still part of a chain though until there are no
-- 
2.43.0


From 26af2aae36283fced1cd305c69e17d1e431bc8af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:15 +0000
Subject: [PATCH 23/64] fix: findLatestCheckpointAtOrBefore does not return a
 deleted checkpoint

---
 sparta/sparta/serialization/checkpoint/FastCheckpointer.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sparta/sparta/serialization/checkpoint/FastCheckpointer.hpp b/sparta/sparta/serialization/checkpoint/FastCheckpointer.hpp
index 6828e5c..5da8b33 100644
--- a/sparta/sparta/serialization/checkpoint/FastCheckpointer.hpp
+++ b/sparta/sparta/serialization/checkpoint/FastCheckpointer.hpp
@@ -413,7 +413,7 @@ namespace sparta::serialization::checkpoint
 
             // Search backward
             do{
-                if(d->getTick() <= tick){
+                if(d->getTick() <= tick && !d->isFlaggedDeleted()){
                     break;
                 }
                 d = static_cast<checkpoint_type*>(d->getPrev());
-- 
2.43.0


From 51b3b4bd6bfe61fc46e43c98b0af2f1337f30c5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:15 +0000
Subject: [PATCH 24/64] fix: delta checkpoints record that an ArchData was
 cleaned or reset

---
 sparta/sparta/functional/ArchData.hpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/sparta/sparta/functional/ArchData.hpp b/sparta/sparta/functional/ArchData.hpp
index 4cce93e..91da83a 100644
--- a/sparta/sparta/functional/ArchData.hpp
+++ b/sparta/sparta/functional/ArchData.hpp
@@ -760,7 +760,9 @@ namespace sparta
 
             if(canFreeLines()){
                 // Delete all lines allocated first (map contains pointers to lines)
+                // The next delta checkpoint must record that they are back to their initial bytes
                 for(LineMap::iterator itr = line_map_.begin(); itr != line_map_.end(); ++itr){
+                    freed_lines_.push_back((*itr)->getIdx());
                     delete *itr;
                 }
 
@@ -770,6 +772,7 @@ namespace sparta
                 // Overwrite all lines with initial bytes
                 for(LineMap::iterator itr = line_map_.begin(); itr != line_map_.end(); ++itr){
                     (*itr)->fillWithInitial(initial_, initial_val_size_);
+                    (*itr)->flagDirty();
                 }
 
             }
@@ -982,6 +985,14 @@ namespace sparta
             sparta_assert(out.good(),
                           "Saving delta checkpoint to bad ostream for " << getOwnerNode()->getLocation());
 
+            // Lines freed since the last save or restore are back to their initial bytes
+            for(line_idx_type idx : freed_lines_){
+                if(line_map_.find(idx) == nullptr){
+                    allocateLine_(idx);
+                }
+            }
+            freed_lines_.clear();
+
             for(LineMap::iterator itr = line_map_.begin(); itr != line_map_.end(); ++itr){
                 Line* ln = *itr;
                 if(ln != nullptr && ln->isDirty()){
@@ -1002,6 +1013,7 @@ namespace sparta
             sparta_assert(out.good(),
                           "Saving delta checkpoint to bad ostream for " << getOwnerNode()->getLocation());
 
+            freed_lines_.clear();
             for(LineMap::iterator itr = line_map_.begin(); itr != line_map_.end(); ++itr){
                 Line* ln = *itr;
                 if(ln != nullptr){
@@ -1046,6 +1058,7 @@ namespace sparta
         void restoreAll(StorageT& in) {
             // Fresh, empty state, ready to be overwritten
             clean();
+            freed_lines_.clear();
 
             restore(in);
         }
@@ -1654,6 +1667,7 @@ namespace sparta
         /*!
          * \brief Map of line offsets to lines which are currently allocated
          */
+        std::vector<line_idx_type> freed_lines_; //!< Lines freed by clean() since the last save or restore
         LineMap       line_map_;
 
         /*!
-- 
2.43.0


From 2f5f416c6ecd8d5b77683df780438e67b823329d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:15 +0000
Subject: [PATCH 25/64] fix: the first checkpoint after forgetCurrent is a
 snapshot

---
 .../serialization/checkpoint/Checkpointer.hpp | 20 ++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/sparta/sparta/serialization/checkpoint/Checkpointer.hpp b/sparta/sparta/serialization/checkpoint/Checkpointer.hpp
index 20d01d2..d80d4fb 100644
--- a/sparta/sparta/serialization/checkpoint/Checkpointer.hpp
+++ b/sparta/sparta/serialization/checkpoint/Checkpointer.hpp
@@ -248,7 +248,7 @@ namespace sparta::serialization::checkpoint
                 createHead();
             }
 
-            chkpt_id_t id = createCheckpoint_(force_snapshot);
+            chkpt_id_t id = createCheckpoint_(force_snapshot || !is_state_continuous_);
             total_chkpts_created_++;
             return id;
         }
@@ -309,6 +309,7 @@ namespace sparta::serialization::checkpoint
         void forgetCurrent() {
             if(head_){
                 current_ = head_;
+                setStateDiscontinuous_();
             }
         }
 
@@ -694,6 +695,17 @@ namespace sparta::serialization::checkpoint
             sparta_assert(current != nullptr,
                         "Can never setCurrent_ to nullptr except. A null current is a valid state at initialization only")
             current_ = current;
+            is_state_continuous_ = true;
+        }
+
+        /*!
+         * \brief Notes that the state changed other than by running forward from the
+         * current checkpoint (such as by restoring it from elsewhere), so that a
+         * delta to the current checkpoint would not describe it. The next
+         * checkpoint created will be a snapshot.
+         */
+        void setStateDiscontinuous_() noexcept {
+            is_state_continuous_ = false;
         }
 
         /*!
@@ -773,6 +785,12 @@ namespace sparta::serialization::checkpoint
          */
         CheckpointBase* current_ = nullptr;
 
+        /*!
+         * \brief False if the state may differ from the current checkpoint's
+         * by more than the data now flagged as dirty
+         */
+        bool is_state_continuous_ = true;
+
         /*!
          * \brief Total checkpoint ever created by this instance. Monotonically
          * increasing. Includes the head checkpoint
-- 
2.43.0


From a03cf826c5f366a28a6a3867ade978fe8b97d81e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:15 +0000
Subject: [PATCH 26/64] fix: PersistentFastCheckpointer::restore works without
 a head and before a delta checkpoint

---
 .../serialization/checkpoint/PersistentFastCheckpointer.hpp   | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sparta/sparta/serialization/checkpoint/PersistentFastCheckpointer.hpp b/sparta/sparta/serialization/checkpoint/PersistentFastCheckpointer.hpp
index 8b64086..05dd78f 100644
--- a/sparta/sparta/serialization/checkpoint/PersistentFastCheckpointer.hpp
+++ b/sparta/sparta/serialization/checkpoint/PersistentFastCheckpointer.hpp
@@ -236,6 +236,10 @@ namespace sparta::serialization::checkpoint
          * \param in Input stream from which to retrieve checkpoint data
          */
         void restore(std::istream& in) {
+            if(!getHead()){
+                createHead();
+            }
+            setStateDiscontinuous_();
             auto adatas = getArchDatas();
             FileReadAdapter fsa(in);
             for (auto aditr=adatas.begin(); aditr!= adatas.end(); aditr++) {
-- 
2.43.0


From dd35ca39be927ff40e68a8875727a3aef65f9f68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:11 +0000
Subject: [PATCH 27/64] fix: RegisterBits::none compares the bits with zero

---
 sparta/sparta/functional/RegisterBits.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sparta/sparta/functional/RegisterBits.hpp b/sparta/sparta/functional/RegisterBits.hpp
index 1db515a..ebf6c85 100644
--- a/sparta/sparta/functional/RegisterBits.hpp
+++ b/sparta/sparta/functional/RegisterBits.hpp
@@ -713,7 +713,8 @@ namespace sparta
         bool none() const {
             sparta_assert(num_bytes_ > 0);
             const auto mem_data_plus_one = remote_data_ + 1;
-            return (::memcmp(remote_data_, mem_data_plus_one, num_bytes_ - 1) == 0);
+            return (*remote_data_ == 0) &&
+                (::memcmp(remote_data_, mem_data_plus_one, num_bytes_ - 1) == 0);
         }
 
         /**
-- 
2.43.0


From 682596228832348451a7f382e9144e64f0a73a4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:11 +0000
Subject: [PATCH 28/64] fix: RegisterBits::operator<<= shifts overlapping
 double words

---
 sparta/sparta/functional/RegisterBits.hpp | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/sparta/sparta/functional/RegisterBits.hpp b/sparta/sparta/functional/RegisterBits.hpp
index ebf6c85..ed8b58b 100644
--- a/sparta/sparta/functional/RegisterBits.hpp
+++ b/sparta/sparta/functional/RegisterBits.hpp
@@ -570,17 +570,13 @@ namespace sparta
                 //
                 if(double_word_shift_count > 0)
                 {
-                    uint32_t dest_idx = double_word_shift_count;
-                    for(uint32_t src_idx = 0; dest_idx < num_dbl_words; ++dest_idx, ++src_idx) {
-                        *(final_data + dest_idx) = *(src_data + src_idx);
-                        *(src_data + src_idx) = 0;
+                    // In place: start with the most significant word
+                    for(uint32_t dest_idx = num_dbl_words; dest_idx > 0; --dest_idx) {
+                        *(final_data + dest_idx - 1) = dest_idx > double_word_shift_count ?
+                            *(src_data + dest_idx - 1 - double_word_shift_count) : 0;
                     }
                 }
 
-                // Micro-shift:
-                // 1111111111111111 2222222222222222 3333333333333333 4444444444444444
-                // 2222222222222233 3333333333333344 4444444444444400
-                //
                 const uint32_t remaining_bits_to_shift = shift % 64;
                 if(remaining_bits_to_shift)
                 {
-- 
2.43.0


From a2b1f786294dff1c5afc2a249a5c72034a6bdf83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:11 +0000
Subject: [PATCH 29/64] fix: RegisterBits::operator>> by more than the width
 gives zero

---
 sparta/sparta/functional/RegisterBits.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sparta/sparta/functional/RegisterBits.hpp b/sparta/sparta/functional/RegisterBits.hpp
index ed8b58b..64cb3e5 100644
--- a/sparta/sparta/functional/RegisterBits.hpp
+++ b/sparta/sparta/functional/RegisterBits.hpp
@@ -363,7 +363,7 @@ namespace sparta
                 //                  0011111111111111 1122222222222222 2233333333333333
                 //
                 const auto double_words_to_micro_shift = (num_dbl_words - double_word_shift_count);
-                if(double_words_to_micro_shift > 0)
+                if(double_word_shift_count < num_dbl_words)
                 {
                     const uint32_t remaining_bits_to_shift = shift % 64;
                     if(remaining_bits_to_shift)
-- 
2.43.0


From ebb633957d2d02b07b2f71b28a0913390e4bcdd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:11 +0000
Subject: [PATCH 30/64] fix: a value too large for a field at the top of a
 register is rejected

---
 sparta/sparta/functional/Register.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sparta/sparta/functional/Register.hpp b/sparta/sparta/functional/Register.hpp
index 5a6ea7a..0536ebb 100644
--- a/sparta/sparta/functional/Register.hpp
+++ b/sparta/sparta/functional/Register.hpp
@@ -407,7 +407,7 @@ public:
 
             // Check to see if the number of bits being written to the
             // field is larger than the field itself.
-            sparta_assert((field_value_to_be_written_shifted & not_field_mask_).none(),
+            sparta_assert((getNumBits() == MAX_FIELD_BITS) || ((value >> getNumBits()) == 0),
                           "Value of " << value <<  " too large for bit field "
                           << getLocation() << " of size " << getNumBits());
 
-- 
2.43.0


From 8d6f28d8c8f8dd11b5766e1a9be49212cec329d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:11 +0000
Subject: [PATCH 31/64] fix: Register::writeUnmasked index is a multiple of the
 size of the type

---
 sparta/sparta/functional/Register.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sparta/sparta/functional/Register.hpp b/sparta/sparta/functional/Register.hpp
index 0536ebb..222fb3f 100644
--- a/sparta/sparta/functional/Register.hpp
+++ b/sparta/sparta/functional/Register.hpp
@@ -1571,7 +1571,7 @@ public:
     inline void writeUnmasked(T val, index_type idx = 0)
     {
         assert(isWritable());
-        dmiWriteImpl_(&val, sizeof(T), idx);
+        dmiWriteImpl_(&val, sizeof(T), sizeof(T) * idx);
     }
 
 private:
-- 
2.43.0


From c4c175aed73968eda3724675bdd5e8eae80de796 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:11 +0000
Subject: [PATCH 32/64] fix: resetting a register without an initial value is
 not a null access

---
 sparta/sparta/functional/Register.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sparta/sparta/functional/Register.hpp b/sparta/sparta/functional/Register.hpp
index 222fb3f..f3ed979 100644
--- a/sparta/sparta/functional/Register.hpp
+++ b/sparta/sparta/functional/Register.hpp
@@ -802,6 +802,9 @@ public:
      * \note Uses poke internally so no notifications are posted
      */
     void reset(bool unmasked=true) {
+        if(def_.initial_value == nullptr){
+            return; // No default value
+        }
         // Poke the whole value, one-byte at a time
         for(size_type i=0; i<def_.bytes; i++){
             if(unmasked){
-- 
2.43.0


From 0b1bb9936e0630728f5d1e7dcb21d8c3ca1dc92f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:11 +0000
Subject: [PATCH 33/64] fix: RegisterBits of sizes that are not a power of two
 (partial register writes)

---
 sparta/sparta/functional/RegisterBits.hpp | 26 +++++++++++++++++++----
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/sparta/sparta/functional/RegisterBits.hpp b/sparta/sparta/functional/RegisterBits.hpp
index 64cb3e5..3dcb46e 100644
--- a/sparta/sparta/functional/RegisterBits.hpp
+++ b/sparta/sparta/functional/RegisterBits.hpp
@@ -218,12 +218,16 @@ namespace sparta
             {
                 RegisterBits final_value(num_bytes_);
                 // 64-bit chunks
-                for(uint32_t idx = 0; idx < num_bytes_; idx += 8)
+                uint32_t idx = 0;
+                for(; idx + 8 <= num_bytes_; idx += 8)
                 {
                     *reinterpret_cast<uint64_t*>(final_value.local_data_ + idx) =
                         *reinterpret_cast<const uint64_t*>(remote_data_ + idx) |
                         *reinterpret_cast<const uint64_t*>(rh_bits.remote_data_ + idx);
                 }
+                for(; idx < num_bytes_; ++idx) {
+                    final_value.local_data_[idx] = remote_data_[idx] | rh_bits.remote_data_[idx];
+                }
                 return final_value;
             }
             else if(num_bytes_ == 2) {
@@ -234,7 +238,12 @@ namespace sparta
             }
 
             // undefined
-            return RegisterBits(nullptr);
+            // Any other size
+            RegisterBits final_value(num_bytes_);
+            for(uint32_t idx = 0; idx < num_bytes_; ++idx) {
+                final_value.local_data_[idx] = remote_data_[idx] | rh_bits.remote_data_[idx];
+            }
+            return final_value;
         }
 
         /**
@@ -254,12 +263,16 @@ namespace sparta
             {
                 RegisterBits final_value(num_bytes_);
                 // 64-bit chunks
-                for(uint32_t idx = 0; idx < num_bytes_; idx += 8)
+                uint32_t idx = 0;
+                for(; idx + 8 <= num_bytes_; idx += 8)
                 {
                     *reinterpret_cast<uint64_t*>(final_value.local_data_ + idx) =
                         *reinterpret_cast<const uint64_t*>(remote_data_ + idx) &
                         *reinterpret_cast<const uint64_t*>(rh_bits.remote_data_ + idx);
                 }
+                for(; idx < num_bytes_; ++idx) {
+                    final_value.local_data_[idx] = remote_data_[idx] & rh_bits.remote_data_[idx];
+                }
                 return final_value;
             }
             else if(num_bytes_ == 2) {
@@ -270,7 +283,12 @@ namespace sparta
             }
 
             // undefined
-            return RegisterBits(nullptr);
+            // Any other size
+            RegisterBits final_value(num_bytes_);
+            for(uint32_t idx = 0; idx < num_bytes_; ++idx) {
+                final_value.local_data_[idx] = remote_data_[idx] & rh_bits.remote_data_[idx];
+            }
+            return final_value;
         }
 
         /**
-- 
2.43.0


From 8edb2142ae1f0a3e2ee268a6f26d80809a0d7231 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:11 +0000
Subject: [PATCH 34/64] fix: padded and truncated DataView accesses stay within
 the view

---
 sparta/sparta/functional/DataView.hpp | 29 ++++++++++++++++-----------
 1 file changed, 17 insertions(+), 12 deletions(-)

diff --git a/sparta/sparta/functional/DataView.hpp b/sparta/sparta/functional/DataView.hpp
index 691f4ce..ade253f 100644
--- a/sparta/sparta/functional/DataView.hpp
+++ b/sparta/sparta/functional/DataView.hpp
@@ -194,17 +194,19 @@ namespace sparta
         T readPaddedUnsafe(index_type idx=0) const {
             sparta_assert(line_, "There is no line pointer set for this DataView. ArchData likely has not been laid out yet. Tree probably needs to be finalized first.");
             offset_type max_bytes = getSize() - (sizeof(T) * idx); // Must always be a power of 2
+            if(max_bytes >= sizeof(T)){
+                return line_->read<T, BO>(offset_, idx);
+            }
             sparta_assert(isPowerOf2(max_bytes));
 
+            const offset_type loc = offset_ + (sizeof(T) * idx);
             T result;
-            if(max_bytes >= 8){
-                result = line_->read<uint64_t, BO>(offset_, idx);
-            }else if(max_bytes == 4){
-                result = line_->read<uint32_t, BO>(offset_, idx);
+            if(max_bytes == 4){
+                result = line_->read<uint32_t, BO>(loc);
             }else if(max_bytes == 2){
-                result = line_->read<uint16_t, BO>(offset_, idx);
+                result = line_->read<uint16_t, BO>(loc);
             }else if(max_bytes == 1){
-                result = line_->read<uint8_t,  BO>(offset_, idx);
+                result = line_->read<uint8_t,  BO>(loc);
             }else{
                 sparta_assert(max_bytes == 0);
                 result = 0;
@@ -300,16 +302,19 @@ namespace sparta
         void writeTruncatedUnsafe(T val, uint32_t idx=0) {
             sparta_assert(line_, "There is no line pointer set for this DataView. ArchData likely has not been laid out yet. Tree probably needs to be finalized first.");
             offset_type max_bytes = getSize() - (sizeof(T) * idx); // Must always be a power of 2
+            if(max_bytes >= sizeof(T)){
+                line_->write<T, BO>(offset_, val, idx);
+                return;
+            }
             sparta_assert(isPowerOf2(max_bytes));
 
-            if(max_bytes >= 8){
-                line_->write<uint64_t, BO>(offset_, (uint64_t)val, idx);
-            }else if(max_bytes == 4){
-                line_->write<uint32_t, BO>(offset_, (uint32_t)val, idx);
+            const offset_type loc = offset_ + (sizeof(T) * idx);
+            if(max_bytes == 4){
+                line_->write<uint32_t, BO>(loc, (uint32_t)val);
             }else if(max_bytes == 2){
-                line_->write<uint16_t, BO>(offset_, (uint16_t)val, idx);
+                line_->write<uint16_t, BO>(loc, (uint16_t)val);
             }else if(max_bytes == 1){
-                line_->write<uint8_t,  BO>(offset_, (uint8_t)val, idx);
+                line_->write<uint8_t,  BO>(loc, (uint8_t)val);
             }else{
                 sparta_assert(max_bytes == 0);
             }
-- 
2.43.0


From 4b95e558ff2925bf6a827e714bd9407a31649601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:55 +0000
Subject: [PATCH 35/64] fix: memory accesses that wrap around the address space
 are outside of the access window

---
 sparta/sparta/memory/DebugMemoryIF.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/sparta/sparta/memory/DebugMemoryIF.hpp b/sparta/sparta/memory/DebugMemoryIF.hpp
index 13e7fbb..c907487 100644
--- a/sparta/sparta/memory/DebugMemoryIF.hpp
+++ b/sparta/sparta/memory/DebugMemoryIF.hpp
@@ -344,7 +344,7 @@ namespace sparta
             void verifyInAccessWindows(addr_t addr, addr_t size) const {
                 // Assumes 1 access window
                 sparta_assert(acc_windows_.size() == 1); // This code is invalid once more than 1 window is supported
-                if(__builtin_expect(addr < acc_windows_[0].start || addr+size > acc_windows_[0].end, 0)){
+                if(__builtin_expect(!isInAccessWindows(addr, size), 0)){
                     MemoryAccessError ex(addr, size, "any", "The access at does not fit within access windows: ");
                     ex << "{ [" << acc_windows_[0].start << "," << acc_windows_[0].end << ") }";
                     throw ex;
@@ -363,7 +363,8 @@ namespace sparta
             bool isInAccessWindows(addr_t addr, addr_t size) const {
                 // Assumes 1 access window
                 sparta_assert(acc_windows_.size() == 1); // This code is invalid once more than 1 window is supported
-                return addr >= acc_windows_[0].start && addr+size <= acc_windows_[0].end;
+                // Not comparing addr+size, which wraps at the end of the address space
+                return addr >= acc_windows_[0].start && addr <= acc_windows_[0].end && size <= acc_windows_[0].end - addr;
             }
 
             /*!
-- 
2.43.0


From 704ba57827aec9781e95df0f2cb68bc93f6e2ced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:33 +0000
Subject: [PATCH 36/64] fix: getDMI returns nullptr for an access outside of
 the access window

---
 sparta/sparta/memory/MemoryObject.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sparta/sparta/memory/MemoryObject.hpp b/sparta/sparta/memory/MemoryObject.hpp
index de78819..01639b1 100644
--- a/sparta/sparta/memory/MemoryObject.hpp
+++ b/sparta/sparta/memory/MemoryObject.hpp
@@ -323,7 +323,7 @@ namespace sparta
             DMIBlockingMemoryIF * getDMI(addr_t addr,
                                          addr_t size) override
             {
-                if(doesAccessSpan(addr, size)) {
+                if(doesAccessSpan(addr, size) || !isInAccessWindows(addr, size)) {
                     return nullptr;
                 }
                 const auto aligned_addr = addr & block_mask_;
-- 
2.43.0


From 4d79e635d085082d65c1a30ff9dfc3f5439abb2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:33 +0000
Subject: [PATCH 37/64] fix: an invalidated DMI accesses nothing and is not
 returned for a new request

---
 sparta/sparta/memory/DMIBlockingMemoryIF.hpp |  2 ++
 sparta/sparta/memory/MemoryObject.hpp        | 10 +++++++++-
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/sparta/sparta/memory/DMIBlockingMemoryIF.hpp b/sparta/sparta/memory/DMIBlockingMemoryIF.hpp
index 0584908..5e9d10a 100644
--- a/sparta/sparta/memory/DMIBlockingMemoryIF.hpp
+++ b/sparta/sparta/memory/DMIBlockingMemoryIF.hpp
@@ -161,6 +161,7 @@ namespace sparta {
             // checked as well as address spanning
             bool tryPeek_(addr_t addr, addr_t size, uint8_t *buf) const noexcept override
             {
+                if(false == isValid()) { return false; }
                 ::memcpy(buf, computeHostAddress_(addr), size);
                 return true;
             }
@@ -169,6 +170,7 @@ namespace sparta {
             // checked as well as address spanning
             bool tryPoke_(addr_t addr, addr_t size, const uint8_t *buf) noexcept override
             {
+                if(false == isValid()) { return false; }
                 ::memcpy(computeHostAddress_(addr), buf, size);
                 return true;
             }
diff --git a/sparta/sparta/memory/MemoryObject.hpp b/sparta/sparta/memory/MemoryObject.hpp
index 01639b1..c328c0e 100644
--- a/sparta/sparta/memory/MemoryObject.hpp
+++ b/sparta/sparta/memory/MemoryObject.hpp
@@ -328,7 +328,12 @@ namespace sparta
                 }
                 const auto aligned_addr = addr & block_mask_;
                 if(auto it = dmi_ifs_.find(aligned_addr); it != dmi_ifs_.end()) {
-                    return it->second.get();
+                    if(it->second->isValid()) {
+                        return it->second.get();
+                    }
+                    // Its user may still hold it
+                    invalidated_dmi_ifs_.emplace_back(std::move(it->second));
+                    dmi_ifs_.erase(it);
                 }
 
                 auto & line = binding_.getLine(aligned_addr);
@@ -401,6 +406,9 @@ namespace sparta
 
             std::map<addr_t, std::unique_ptr<DMIBlockingMemoryIF>> dmi_ifs_;
 
+            //! Invalidated interfaces which have been replaced in dmi_ifs_
+            std::vector<std::unique_ptr<DMIBlockingMemoryIF>> invalidated_dmi_ifs_;
+
         }; // class BlockingMemoryIF
 
     } // namespace memory
-- 
2.43.0


From 0e4ae907ef381b8bd76d3c55ee26b644b018018d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:46 +0000
Subject: [PATCH 38/64] fix: checkpoints record what was written through a DMI

---
 sparta/sparta/memory/DMIBlockingMemoryIF.hpp | 12 ++++++++++--
 sparta/sparta/memory/MemoryObject.hpp        |  3 ++-
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/sparta/sparta/memory/DMIBlockingMemoryIF.hpp b/sparta/sparta/memory/DMIBlockingMemoryIF.hpp
index 5e9d10a..bf20984 100644
--- a/sparta/sparta/memory/DMIBlockingMemoryIF.hpp
+++ b/sparta/sparta/memory/DMIBlockingMemoryIF.hpp
@@ -2,6 +2,7 @@
 #pragma once
 
 #include <string.h>
+#include "sparta/functional/ArchData.hpp"
 #include "sparta/memory/BlockingMemoryIF.hpp"
 
 namespace sparta {
@@ -55,6 +56,8 @@ namespace sparta {
              * \param raw_pointer The raw data pointer with memory to access
              * \param start_addr  The expected "start address" of this raw pointer
              * \param size        The expected size of the data
+             * \param line        The ArchData line holding the memory (if any),
+             *                    flagged as dirty when written through this object
              *
              * Typically created by BlockingMemoryObjectIFNode when
              * DMI request is made, this class will wrap a raw data
@@ -67,10 +70,12 @@ namespace sparta {
              */
             DMIBlockingMemoryIF(void * raw_pointer,
                                 addr_t start_addr,
-                                addr_t size) :
+                                addr_t size,
+                                ArchData::Line * line = nullptr) :
                 BlockingMemoryIF("DMI", size, {start_addr, start_addr + size}),
                 start_addr_(start_addr),
-                raw_pointer_(raw_pointer)
+                raw_pointer_(raw_pointer),
+                line_(line)
             { }
 
             /**
@@ -154,6 +159,7 @@ namespace sparta {
                            void *) noexcept override
             {
                 ::memcpy(computeHostAddress_(addr), buf, size);
+                if(line_) { line_->flagDirty(); }
                 return true;
             }
 
@@ -172,11 +178,13 @@ namespace sparta {
             {
                 if(false == isValid()) { return false; }
                 ::memcpy(computeHostAddress_(addr), buf, size);
+                if(line_) { line_->flagDirty(); }
                 return true;
             }
 
             addr_t start_addr_;
             void * raw_pointer_ = nullptr;
+            ArchData::Line * line_ = nullptr;
             bool valid_ = true;
         };
 
diff --git a/sparta/sparta/memory/MemoryObject.hpp b/sparta/sparta/memory/MemoryObject.hpp
index c328c0e..8a84a79 100644
--- a/sparta/sparta/memory/MemoryObject.hpp
+++ b/sparta/sparta/memory/MemoryObject.hpp
@@ -341,7 +341,8 @@ namespace sparta
                                  std::unique_ptr<DMIBlockingMemoryIF>
                                  (new DMIBlockingMemoryIF(line.getRawDataPtr(0),
                                                           line.getOffset(),
-                                                          line.getLayoutSize()))});
+                                                          line.getLayoutSize(),
+                                                          &line))});
                 return dmi_ifs_[aligned_addr].get();
             }
 
-- 
2.43.0


From 13da2f48261d04ed24ffa3aa96b323509144ab2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:39 +0000
Subject: [PATCH 39/64] fix: poking a CachedMemory loads an uncached block
 instead of clearing it in the downstream memory

---
 sparta/sparta/memory/CachedMemory.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sparta/sparta/memory/CachedMemory.hpp b/sparta/sparta/memory/CachedMemory.hpp
index c913492..88eb5b5 100644
--- a/sparta/sparta/memory/CachedMemory.hpp
+++ b/sparta/sparta/memory/CachedMemory.hpp
@@ -369,7 +369,7 @@ namespace sparta::memory
             // This memory was never written (or read) before.
             const auto aligned_paddr = paddr & block_mask_;
             uint8_t * cached_mem_block_ptr = cached_memory_.getLine(aligned_paddr).getRawDataPtr(0);
-            downstream_memory_->poke(aligned_paddr, block_size_, cached_mem_block_ptr);
+            downstream_memory_->peek(aligned_paddr, block_size_, cached_mem_block_ptr);
         }
         cached_memory_.write(paddr, size, buf);
         downstream_memory_->poke(paddr, size, buf);
-- 
2.43.0


From af058cf508b729cf993969e0533b82597bb09f68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:39 +0000
Subject: [PATCH 40/64] fix: merging a write into an uncached block of a
 CachedMemory loads the rest of the block

---
 sparta/sparta/memory/CachedMemory.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/sparta/sparta/memory/CachedMemory.hpp b/sparta/sparta/memory/CachedMemory.hpp
index 88eb5b5..0cef932 100644
--- a/sparta/sparta/memory/CachedMemory.hpp
+++ b/sparta/sparta/memory/CachedMemory.hpp
@@ -460,6 +460,13 @@ namespace sparta::memory
     template<class MemoryWriteType>
     void CachedMemory<MemoryWriteType>::mergeWrite(addr_t paddr, addr_t size, const uint8_t * buf)
     {
+        if(cached_memory_.tryGetLine(paddr) == nullptr) {
+            // This block has not been initialized in cached memory yet
+            const auto aligned_paddr = paddr & block_mask_;
+            uint8_t * cached_mem_block_ptr = cached_memory_.getLine(aligned_paddr).getRawDataPtr(0);
+            downstream_memory_->peek(aligned_paddr, block_size_, cached_mem_block_ptr);
+        }
+
         if(getNumOutstandingWrites() > 0) {
             // Brute force method, but works.  Take one byte at a time and
             // look for collisions.  If there are any, don't store it, but
-- 
2.43.0


From a172158abfd2bc852a9d84b3fe88977ba8689551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:30 +0000
Subject: [PATCH 41/64] fix: a mapping whose size and offset together wrap
 around the address space is rejected

---
 sparta/sparta/memory/SimpleMemoryMap.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sparta/sparta/memory/SimpleMemoryMap.hpp b/sparta/sparta/memory/SimpleMemoryMap.hpp
index 441abc9..481bbc7 100644
--- a/sparta/sparta/memory/SimpleMemoryMap.hpp
+++ b/sparta/sparta/memory/SimpleMemoryMap.hpp
@@ -231,7 +231,7 @@ namespace sparta
                 sparta_assert((dest_start & block_offset_mask_) == 0);
 
                 const addr_t required_range = (end-start) + dest_start;
-                if(memif->getRange() < required_range){
+                if(memif->getRange() < required_range || required_range < dest_start){
                     throw SpartaException("Total range of destination memory interface is ")
                         << "too small to contain all mappings from SimpleMemoryMap mapping "
                         << "[" << start << ", " << end << ") -> " << memif
-- 
2.43.0


From d78986f06b0834524a8e5394e8ddc182567f6be5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:30 +0000
Subject: [PATCH 42/64] fix: verifyHasMapping rejects sizes that wrap around
 the address space

---
 sparta/sparta/memory/SimpleMemoryMap.hpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/sparta/sparta/memory/SimpleMemoryMap.hpp b/sparta/sparta/memory/SimpleMemoryMap.hpp
index 481bbc7..b57b214 100644
--- a/sparta/sparta/memory/SimpleMemoryMap.hpp
+++ b/sparta/sparta/memory/SimpleMemoryMap.hpp
@@ -557,8 +557,6 @@ namespace sparta
              * careful for performance reasons
              */
             void verifyHasMapping(addr_t addr, addr_t size) const {
-                const addr_t end = addr+size;
-
                 const BinTreeNode* n = bintree_;
                 const Mapping* m = nullptr;
 
@@ -569,7 +567,7 @@ namespace sparta
                             n = n->l;
                         }else if(addr >= m->end){
                             n = n->r;
-                        }else if(end <= m->end){
+                        }else if(size <= m->end - addr){
                             return; // Ok. Reached a destination containing both addr and end
                         }else{
                             throw MemoryAccessError(addr, size, "any", "This access spans more than one mapping");
-- 
2.43.0


From 77d6f555a663dd002245e979f8fb3d9411c797dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:12:35 +0000
Subject: [PATCH 43/64] fix: a non-temporal fill replaces the older of two
 non-temporal ways

---
 sparta/cache/SimpleCache2.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sparta/cache/SimpleCache2.hpp b/sparta/cache/SimpleCache2.hpp
index 2a6154f..690cfd9 100644
--- a/sparta/cache/SimpleCache2.hpp
+++ b/sparta/cache/SimpleCache2.hpp
@@ -141,10 +141,10 @@ namespace sparta
                     }
                     else {
                         if ( cache_set.getPreviousNTWay() == 0 ) {
-                            return way0_line;
+                            return way1_line;
                         }
                         else {
-                            return way1_line;
+                            return way0_line;
                         }
                     }
                 }
-- 
2.43.0


From be9e4c67ed8128065458874b9bc9ec6927529349 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:12:35 +0000
Subject: [PATCH 44/64] fix: a cache whose number of sets is not a power of two
 is rejected

---
 sparta/cache/DefaultAddrDecoder.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sparta/cache/DefaultAddrDecoder.hpp b/sparta/cache/DefaultAddrDecoder.hpp
index 3ad95d5..80cf41e 100644
--- a/sparta/cache/DefaultAddrDecoder.hpp
+++ b/sparta/cache/DefaultAddrDecoder.hpp
@@ -2,6 +2,7 @@
 #pragma once
 #include "cassert"
 #include "sparta/utils/MathUtils.hpp"
+#include "sparta/utils/SpartaAssert.hpp"
 #include "cache/AddrDecoderIF.hpp"
 
 namespace sparta
@@ -33,6 +34,8 @@ namespace sparta
                 const uint64_t sz_bytes = (cache_sz_unit_is_kb) ? (sz*1024) : (sz);
                 const uint32_t num_sets = (sz_bytes)/ (line_sz * num_ways);
 
+                sparta_assert( utils::is_power_of_2(num_sets),
+                               "CacheLib: the number of sets must be a power of 2, not " << num_sets );
                 blk_offset_mask_ = line_sz - 1;
                 blk_addr_mask_   = ~uint64_t(blk_offset_mask_);
                 index_mask_      = num_sets - 1;
-- 
2.43.0


From aa7a09e82fe283545d4c38778b2b323a046da7bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:12:35 +0000
Subject: [PATCH 45/64] fix: LineData rejects offsets and indexes that wrap
 around

---
 sparta/cache/LineData.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/sparta/cache/LineData.hpp b/sparta/cache/LineData.hpp
index 808af91..1d95120 100644
--- a/sparta/cache/LineData.hpp
+++ b/sparta/cache/LineData.hpp
@@ -92,7 +92,7 @@ namespace sparta
             // implementation details are TBD
             template <typename T, ByteOrder BO>
             T read(uint32_t offset, uint32_t idx=0) const {
-                uint32_t loc = offset + (idx*sizeof(T));
+                const uint64_t loc = offset + (idx*sizeof(T));
                 sparta_assert(loc + sizeof(T) <= line_sz_);
 
 
@@ -105,7 +105,7 @@ namespace sparta
             // Copied from ArchData.h.  See comments on read above.
             template <typename T, ByteOrder BO>
             void write(uint32_t offset, const T& t, uint32_t idx=0) {
-                uint32_t loc = offset + (idx*sizeof(T));
+                const uint64_t loc = offset + (idx*sizeof(T));
                 sparta_assert(loc + sizeof(T) <= line_sz_);
 
                 uint8_t* d = data_ + loc;
@@ -118,7 +118,7 @@ namespace sparta
                       uint32_t size,
                       uint8_t *buf) const
             {
-                sparta_assert( (offset + size) <= line_sz_ );
+                sparta_assert( offset <= line_sz_ && size <= line_sz_ - offset );
                 memcpy(buf, &data_[offset], size);
                 return true;
             }
@@ -127,7 +127,7 @@ namespace sparta
                        uint32_t size,
                        const uint8_t *buf )
             {
-                sparta_assert( (offset + size) <= line_sz_ );
+                sparta_assert( offset <= line_sz_ && size <= line_sz_ - offset );
                 memcpy(&data_[offset], buf, size);
                 return true;
             }
-- 
2.43.0


From 57d22949da907ac1051e3fc4efb0581e1e7e2d22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:16:20 +0000
Subject: [PATCH 46/64] fix: a delayed change of an EnumCycleHistogram leaves
 no cycle uncounted or counted twice

---
 sparta/sparta/statistics/EnumCycleHistogram.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sparta/sparta/statistics/EnumCycleHistogram.hpp b/sparta/sparta/statistics/EnumCycleHistogram.hpp
index 7ff6ab2..7fb946b 100644
--- a/sparta/sparta/statistics/EnumCycleHistogram.hpp
+++ b/sparta/sparta/statistics/EnumCycleHistogram.hpp
@@ -261,7 +261,7 @@ public:
      */
     template<typename T = EnumType>
     void startCounting(const T enum_val, uint64_t delay = 0){
-        stopCounting_(last_value_);
+        stopCounting_(last_value_, delay);
         startCounting_(static_cast<uint64_t>(enum_val), delay);
         updateMaxValues_(static_cast<uint64_t>(enum_val));
     }
@@ -277,7 +277,7 @@ public:
     template<typename T = EnumType>
     void stopCounting(const T enum_val, uint64_t delay = 0){
         stopCounting_(static_cast<uint64_t>(enum_val), delay);
-        startCounting_(idle_value_);
+        startCounting_(idle_value_, delay);
     }
 
     //! Method to return the upper value of the histogram
-- 
2.43.0


From b1be8ca8f7d68a6ed41f4c0bb3c43500fb20e264 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:16:20 +0000
Subject: [PATCH 47/64] fix: EnumCycleHistogram bins are named after their own
 enumerators

---
 sparta/sparta/statistics/CycleHistogram.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sparta/sparta/statistics/CycleHistogram.hpp b/sparta/sparta/statistics/CycleHistogram.hpp
index 078c999..118d641 100644
--- a/sparta/sparta/statistics/CycleHistogram.hpp
+++ b/sparta/sparta/statistics/CycleHistogram.hpp
@@ -391,7 +391,7 @@ namespace sparta
                         // Same goes for when i = 1, 2, 3, ..., n.
                         // So, instead of publishing numbers like 0, 1, 2, we publish names like
                         // UOPSTATE::READY, UOPSTATE::WAIT, UOPSTATE::RETIRE etc.
-                        str << "count" << histogram_state_names[i];
+                        str << "count" << histogram_state_names[start_val];
                     }
                 } else {
                     str << "bin_"  << start_val << "_" << end_val;
-- 
2.43.0


From 236875a5dc4a4a29f004fe052ef16be0b6affbe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:16:20 +0000
Subject: [PATCH 48/64] fix: the maximum of a WeightedContextCounter whose
 counters are all zero is zero

---
 sparta/sparta/statistics/WeightedContextCounter.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sparta/sparta/statistics/WeightedContextCounter.hpp b/sparta/sparta/statistics/WeightedContextCounter.hpp
index 35c9512..651b564 100644
--- a/sparta/sparta/statistics/WeightedContextCounter.hpp
+++ b/sparta/sparta/statistics/WeightedContextCounter.hpp
@@ -83,7 +83,7 @@ private:
 
     void max_() {
         sparta_assert(this->numContexts() > 0);
-        maximum_ = std::numeric_limits<double>::min();
+        maximum_ = std::numeric_limits<double>::lowest();
         for (const auto & internal_ctr : *this) {
             maximum_ = std::max(maximum_, static_cast<double>(internal_ctr.get()));
         }
-- 
2.43.0


From 83d6da89c76fb283629a86997a8b6f684ae801b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:35:47 +0000
Subject: [PATCH 49/64] fix: assigning an empty Expression empties the target

---
 sparta/sparta/statistics/Expression.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sparta/sparta/statistics/Expression.hpp b/sparta/sparta/statistics/Expression.hpp
index c2ebfc7..41e7be8 100644
--- a/sparta/sparta/statistics/Expression.hpp
+++ b/sparta/sparta/statistics/Expression.hpp
@@ -241,6 +241,8 @@ public:
 
         if(rhp.content_ != nullptr){
             content_.reset(rhp.content_->clone());
+        }else{
+            content_.reset();
         }
 
         return *this;
-- 
2.43.0


From 102ac15476b9e8ba68a002e8d7653216eba9249d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:35:47 +0000
Subject: [PATCH 50/64] fix: moving or assigning a StatisticInstance keeps its
 calculator and sub-statistics

---
 sparta/src/StatisticInstance.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sparta/src/StatisticInstance.cpp b/sparta/src/StatisticInstance.cpp
index 1a14a72..b345b33 100644
--- a/sparta/src/StatisticInstance.cpp
+++ b/sparta/src/StatisticInstance.cpp
@@ -144,6 +144,7 @@ namespace sparta
         scheduler_(rhp.scheduler_),
         initial_(rhp.initial_),
         result_(rhp.result_),
+        sub_statistics_(std::move(rhp.sub_statistics_)),
         user_calculated_si_value_(std::move(rhp.user_calculated_si_value_))
     {
         rhp.sdef_ = nullptr;
@@ -166,6 +167,7 @@ namespace sparta
         result_ = rhp.result_;
 
         sub_statistics_ = rhp.sub_statistics_;
+        user_calculated_si_value_ = rhp.user_calculated_si_value_;
 
         return *this;
     }
-- 
2.43.0


From 6fe90b53a87d5381a04e034f8d0879e71145ef40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:35:47 +0000
Subject: [PATCH 51/64] fix: a StatisticInstance with a user-defined
 calculation has the value it calculates

---
 sparta/src/StatisticInstance.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/sparta/src/StatisticInstance.cpp b/sparta/src/StatisticInstance.cpp
index b345b33..0849e83 100644
--- a/sparta/src/StatisticInstance.cpp
+++ b/sparta/src/StatisticInstance.cpp
@@ -7,6 +7,7 @@
  */
 
 #include "sparta/statistics/StatisticInstance.hpp"
+#include "sparta/statistics/StatInstCalculator.hpp"
 
 namespace sparta
 {
@@ -271,6 +272,10 @@ namespace sparta
             if(node_ref_.expired() == true){
                 return NAN;
             }
+            // Use the user's calculation if there is one
+            if(user_calculated_si_value_){
+                return user_calculated_si_value_->getCurrentValue();
+            }
             // Evaluate the expression
             return stat_expr_.evaluate();
         }else if(ctr_){
@@ -543,6 +548,10 @@ namespace sparta
             if(node_ref_.expired() == true){
                 return NAN;
             }
+            // Use the user's calculation if there is one
+            if(user_calculated_si_value_){
+                return user_calculated_si_value_->getCurrentValue();
+            }
             // Evaluate the expression
             return stat_expr_.evaluate();
         }else if(ctr_){
-- 
2.43.0


From efbe2735d5682cdaf6a9b6076971bd811323b866 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:35:47 +0000
Subject: [PATCH 52/64] fix: names that begin like a number, constant or
 builtin can be used in expressions

---
 sparta/src/ExpressionGrammar.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/sparta/src/ExpressionGrammar.cpp b/sparta/src/ExpressionGrammar.cpp
index f877e53..05eaa21 100644
--- a/sparta/src/ExpressionGrammar.cpp
+++ b/sparta/src/ExpressionGrammar.cpp
@@ -569,6 +569,7 @@ ExpressionGrammar::ExpressionGrammar(sparta::TreeNode* root,
     using qi::real_parser;
     using qi::real_policies;
     using qi::no_case;
+    using qi::ascii::char_;
     using qi::_val;
     using phoenix::ref;
     real_parser<double,real_policies<double> > real;
@@ -600,8 +601,10 @@ ExpressionGrammar::ExpressionGrammar(sparta::TreeNode* root,
             )
         ;
 
+    // A literal, constant, or builtin must not be the start of a node name
     primary =
-        real                       [_val =  qi::_1]
+        qi::lexeme[real >> !char_("a-zA-Z0-9_.[]")]
+                                   [_val =  qi::_1]
        |    '(' >> expression      [_val =  qi::_1] >> ')'
        |    ('-' >> primary        [_val = -qi::_1])
        |    ('+' >> primary        [_val =  qi::_1])
@@ -614,8 +617,10 @@ ExpressionGrammar::ExpressionGrammar(sparta::TreeNode* root,
                                    >> expression >> ','
                                    >> expression >> ')')
                                    [_val = lazy_tfunc(qi::_1, qi::_2, qi::_3, qi::_4)]
-       |    no_case[constants]     [_val =  qi::_1]
-       |    no_case[builtin_vars]  [_val = lazy_nfunc(qi::_1)]
+       |    qi::lexeme[no_case[constants] >> !char_("a-zA-Z0-9_.[]")]
+                                   [_val =  qi::_1]
+       |    qi::lexeme[no_case[builtin_vars] >> !char_("a-zA-Z0-9_.[]")]
+                                   [_val = lazy_nfunc(qi::_1)]
        |    no_case[var]           [_val = qi::_1]
         ;
 
-- 
2.43.0


From 86ce3f390d3879ead6fc1b0ed21364c3b7d519cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:36:05 +0000
Subject: [PATCH 53/64] fix: an exception keeps its type when information is
 streamed into it

---
 sparta/sparta/utils/SpartaException.hpp | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/sparta/sparta/utils/SpartaException.hpp b/sparta/sparta/utils/SpartaException.hpp
index 4cea74c..ce2a617 100644
--- a/sparta/sparta/utils/SpartaException.hpp
+++ b/sparta/sparta/utils/SpartaException.hpp
@@ -14,6 +14,8 @@
 #include <sstream>
 #include <string>
 #include <memory>
+#include <type_traits>
+#include <utility>
 
 /*!
  * \brief Utility for throwing an exception ONLY if there is not already an
@@ -151,6 +153,28 @@ namespace sparta
         mutable std::string reason_str_;
     };
 
+    /**
+     * \brief Append additional information to the message of an exception
+     * derived from SpartaException
+     * \return The exception object with its own type, so that
+     * \code
+     * throw SpartaCriticalError("Oh uh") << 4;
+     * \endcode
+     * throws a SpartaCriticalError
+     * \note Not for exceptions which have an operator<< of their own
+     */
+    template<class E, class T,
+             class X = typename std::remove_reference<E>::type,
+             class = typename std::enable_if<std::is_base_of<SpartaException, X>::value
+                                             && !std::is_same<SpartaException, X>::value>::type,
+             class = typename std::enable_if<
+                 std::is_same<decltype(std::declval<X &>().operator<<(std::declval<const T &>())),
+                              SpartaException &>::value>::type>
+    X & operator<<(E && ex, const T & msg) {
+        static_cast<SpartaException &>(ex) << msg;
+        return ex;
+    }
+
 
     /**
      * \brief Indicates something went seriously wrong and likely indicates
-- 
2.43.0


From 56dc000c5076d1a5cca73d40280329b2bf042021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:32:17 +0000
Subject: [PATCH 54/64] fix: a readiness callback can set bits and clear
 callbacks of its own ScoreboardView

---
 sparta/src/Scoreboard.cpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/sparta/src/Scoreboard.cpp b/sparta/src/Scoreboard.cpp
index 40d9061..069cb0d 100644
--- a/sparta/src/Scoreboard.cpp
+++ b/sparta/src/Scoreboard.cpp
@@ -260,14 +260,16 @@ namespace sparta
         local_ready_mask_ |= bits;
 
         auto cbit = ready_callbacks_.begin();
-        const auto eit = ready_callbacks_.end();
-        while(cbit != eit)
+        while(cbit != ready_callbacks_.end())
         {
-            const auto & cb_data = *cbit;
-            if (cb_data.needed_bits == (local_ready_mask_ & cb_data.needed_bits))
+            if (cbit->needed_bits == (local_ready_mask_ & cbit->needed_bits))
             {
-                cb_data.callback(bits);
-                cbit = ready_callbacks_.erase(cbit);
+                // Take the callback off the list before calling it:
+                // it might set bits or clear callbacks of this view
+                ReadinessCallbacks ready;
+                ready.splice(ready.begin(), ready_callbacks_, cbit);
+                ready.front().callback(bits);
+                cbit = ready_callbacks_.begin();
                 continue;
             }
             ++cbit;
-- 
2.43.0


From fa7570bb83dd23155e497384dd88a6af0a69cb5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:32:17 +0000
Subject: [PATCH 55/64] fix: a ScoreboardView starts with the bits that are
 ready in its Scoreboard

---
 sparta/src/Scoreboard.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sparta/src/Scoreboard.cpp b/sparta/src/Scoreboard.cpp
index 069cb0d..35c3d09 100644
--- a/sparta/src/Scoreboard.cpp
+++ b/sparta/src/Scoreboard.cpp
@@ -207,7 +207,7 @@ namespace sparta
                       "Ack!  Bug in Scoreboard registerView.  The unit_name_to_id_ map "
                       "is outta wack with with the unit_id_to_scoreboard_views_ vector");
         unit_id_to_scoreboard_views_[unit_id].emplace_back(view);
-        view->receiveScoreboardUpdate_(Scoreboard::RegisterBitMask({global_reg_ready_mask_}), INVALID_UNIT_ID);
+        view->local_ready_mask_ = global_reg_ready_mask_;
         // Setup the mapping from other producers to this scoreboard view as consumer
         for(uint32_t producer = 0; producer < producer_to_consumer_scoreboard_views_.size(); ++producer)
         {
-- 
2.43.0


From de2565aadcb85e996abe6a84bb7a9eca58e805f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:32:17 +0000
Subject: [PATCH 56/64] fix: a Scoreboard reads its latencies as their
 validation does

---
 sparta/src/Scoreboard.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sparta/src/Scoreboard.cpp b/sparta/src/Scoreboard.cpp
index 35c3d09..7713bda 100644
--- a/sparta/src/Scoreboard.cpp
+++ b/sparta/src/Scoreboard.cpp
@@ -133,7 +133,7 @@ namespace sparta
             {
                 try {
                     forwarding_latencies_[producer_id][consumer_column_idx - 1] =
-                        std::stol(producer_row[consumer_column_idx]);
+                        std::stol(producer_row[consumer_column_idx], nullptr, 0);
                 }
                 catch(...) {
                     sparta_assert(false, "Error while trying to convert " <<
-- 
2.43.0


From 22c753e61eeda22c797aed55b7f3fa0b46f4951b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:32:17 +0000
Subject: [PATCH 57/64] fix: printBitSet closes the range that includes the
 last bit

---
 sparta/src/Scoreboard.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/sparta/src/Scoreboard.cpp b/sparta/src/Scoreboard.cpp
index 7713bda..a821e80 100644
--- a/sparta/src/Scoreboard.cpp
+++ b/sparta/src/Scoreboard.cpp
@@ -402,6 +402,12 @@ namespace sparta
             }
             ++v;
         }
+        // close the range that includes the last bit
+        if(in_range && (range_start_v + 1 != v))
+        {
+            ret += '-';
+            ret += std::to_string(v-1);
+        }
         ret += ']';
         return ret;
     }
-- 
2.43.0


From f7c61f11e259c19e3e0471a4196290830179cfd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:15:13 +0000
Subject: [PATCH 58/64] fix: an observer of the virtual global node is
 registered once with each source

---
 .../simulation/VirtualGlobalTreeNode.hpp       | 18 ++++++++++++++++--
 sparta/src/TreeNode.cpp                        |  6 ++++--
 2 files changed, 20 insertions(+), 4 deletions(-)

diff --git a/sparta/sparta/simulation/VirtualGlobalTreeNode.hpp b/sparta/sparta/simulation/VirtualGlobalTreeNode.hpp
index 8f64739..e1fbe27 100644
--- a/sparta/sparta/simulation/VirtualGlobalTreeNode.hpp
+++ b/sparta/sparta/simulation/VirtualGlobalTreeNode.hpp
@@ -182,6 +182,20 @@ namespace sparta
 
     private:
 
+        /*!
+         * \brief Is this parentless node also a child of another parentless
+         * node? A RootTreeNode does not know its parent but is a child of its
+         * search scope.
+         */
+        bool isReachedThroughScope_(const TreeNode* node) const {
+            for(auto& n : statics_->parentless_map_){
+                if(n.second.expired() == false && n.first->hasImmediateChild(node)){
+                    return true;
+                }
+            }
+            return false;
+        }
+
         // Override form TreeNode
         // Disallow adding children
         virtual void onAddingChild_(TreeNode*) override final {
@@ -200,7 +214,7 @@ namespace sparta
             (void)private_only;
             for(auto& n : statics_->parentless_map_){
                 sparta::TreeNode::WeakPtr& child = n.second;
-                if(child.expired() == false){
+                if(child.expired() == false && false == isReachedThroughScope_(n.first)){
                     child.lock()->broadcastRegistrationForNotificationToChildren_(tinfo, name_ids, obs_node, del, private_only);
                 }
             }
@@ -216,7 +230,7 @@ namespace sparta
             (void)private_only;
             for(auto& n : statics_->parentless_map_){
                 sparta::TreeNode::WeakPtr& child = n.second;
-                if(child.expired() == false){
+                if(child.expired() == false && false == isReachedThroughScope_(n.first)){
                     child.lock()->broadcastDeregistrationForNotificationToChildren_(tinfo, name_ids, obs_node, del, private_only);
                 }
             }
diff --git a/sparta/src/TreeNode.cpp b/sparta/src/TreeNode.cpp
index d3d3c6f..7045cf0 100644
--- a/sparta/src/TreeNode.cpp
+++ b/sparta/src/TreeNode.cpp
@@ -147,8 +147,10 @@ TreeNode::TreeNode(TreeNode* parent,
     sparta::TreeNode::trackNode_(this);
 
     // Track this node in global parentless list immediately so that
-    // logging works
-    sparta::TreeNode::trackParentlessNode_(this);
+    // logging works (unless it was attached to its parent above)
+    if(parent_ == nullptr){
+        sparta::TreeNode::trackParentlessNode_(this);
+    }
 }
 
 TreeNode::TreeNode(TreeNode&& rhp) :
-- 
2.43.0


From f44aeecdd827f70edbeaecde823b2e659e6de930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:15:13 +0000
Subject: [PATCH 59/64] fix: a list of notification names is observed at
 sources added later

---
 sparta/sparta/simulation/TreeNode.hpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/sparta/sparta/simulation/TreeNode.hpp b/sparta/sparta/simulation/TreeNode.hpp
index fe79f05..d58703d 100644
--- a/sparta/sparta/simulation/TreeNode.hpp
+++ b/sparta/sparta/simulation/TreeNode.hpp
@@ -3075,8 +3075,15 @@ namespace sparta
              */
             bool observes(const TreeNode& obs_pt, const std::string* name) const
             {
-                return (&obs_pt == obs_point)
-                       && TreeNode::notificationCategoryMatch(name_ptr, name);
+                if(&obs_pt != obs_point){
+                    return false;
+                }
+                for(const std::string* observed : TreeNode::parseNotificationNameString(*name_ptr)){
+                    if(TreeNode::notificationCategoryMatch(observed, name)){
+                        return true;
+                    }
+                }
+                return false;
             }
 
             /*!
-- 
2.43.0


From 1114bb18270c961bfa0108e3bf2cd5f7963fc3e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:15:13 +0000
Subject: [PATCH 60/64] fix: registering for a list of notification names
 checks each of them

---
 sparta/src/TreeNode.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/sparta/src/TreeNode.cpp b/sparta/src/TreeNode.cpp
index 7045cf0..acd1260 100644
--- a/sparta/src/TreeNode.cpp
+++ b/sparta/src/TreeNode.cpp
@@ -2566,9 +2566,8 @@ bool TreeNode::canSubtreeGenerateNotification(const std::type_info& tinfo,
 
 bool TreeNode::canSubtreeGenerateNotification(const std::type_info& tinfo,
                                               const std::string& name) const {
-    auto& strmgr = StringManager::getStringManager();
-    return canSubtreeGenerateNotification(tinfo,
-                                          strmgr.internString(name));
+    return canSubtreeGenerateNotifications(tinfo,
+                                           parseNotificationNameString(name));
 }
 
 bool TreeNode::canSubtreeGenerateNotifications(const std::type_info& tinfo,
-- 
2.43.0


From 321058d53b6b0bf60a9f72ba714080adeb36a754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:21:54 +0000
Subject: [PATCH 61/64] fix: smartLexicalCast refuses what int16_t and int8_t
 cannot hold

---
 sparta/sparta/utils/SmartLexicalCast.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/sparta/sparta/utils/SmartLexicalCast.hpp b/sparta/sparta/utils/SmartLexicalCast.hpp
index 0b7362b..d716b55 100644
--- a/sparta/sparta/utils/SmartLexicalCast.hpp
+++ b/sparta/sparta/utils/SmartLexicalCast.hpp
@@ -480,8 +480,8 @@ inline int16_t smartLexicalCast(const std::string& s,
                                 bool allow_recursion,
                                 bool allow_prefix) {
     int64_t val = smartLexicalCast<int64_t>(s, end_pos, allow_recursion, allow_prefix);
-    if(val >= (1_64 << 16)
-       || val < -(1_64 << 16)){
+    if(val >= (1_64 << 15)
+       || val < -(1_64 << 15)){
         throw SpartaException("Could not lexically cast \"") << s << "\" to a int16_t because it "
               "contained a value this type could not contain: " << val;
     }
@@ -494,8 +494,8 @@ inline int8_t smartLexicalCast(const std::string& s,
                                bool allow_recursion,
                                bool allow_prefix) {
     int64_t val = smartLexicalCast<int64_t>(s, end_pos, allow_recursion, allow_prefix);
-    if(val >= (1_64 << 8)
-       || val < -(1_64 << 8)){
+    if(val >= (1_64 << 7)
+       || val < -(1_64 << 7)){
         throw SpartaException("Could not lexically cast \"") << s << "\" to a int8_t because it "
               "contained a value this type could not contain: " << val;
     }
-- 
2.43.0


From 45a9184a1a886649c8dd37da112e0a1a1576d55b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:21:54 +0000
Subject: [PATCH 62/64] fix: smartLexicalCast reads a fraction exactly

---
 sparta/sparta/utils/SmartLexicalCast.hpp | 25 ++++++++++++------------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/sparta/sparta/utils/SmartLexicalCast.hpp b/sparta/sparta/utils/SmartLexicalCast.hpp
index d716b55..711c39e 100644
--- a/sparta/sparta/utils/SmartLexicalCast.hpp
+++ b/sparta/sparta/utils/SmartLexicalCast.hpp
@@ -344,23 +344,24 @@ inline uint64_t smartLexicalCast(const std::string& s,
 
         // Apply suffix modifier to the fractional portion
         if(fractional.size() != 0){
-            // Check each digit to ensure that it is an integer portion of the
+            // Multiply the fraction by the suffix multiplier as in long multiplication, from the
+            // last digit to the first, so that what is carried out of the first digit is its
+            // integer portion and every digit left behind must be 0.
             // This is done manually to guarantee NO floating point rounding errors can occur
-            uint32_t ten_div = 10;
-            for(auto ch : fractional){
-                uint64_t frac = (ch - '0');
-                sparta_assert(frac < 10);
-                frac *= suffix_multiplier;
-                if(frac < ten_div){
+            uint64_t carry = 0;
+            for(auto it = fractional.rbegin(); it != fractional.rend(); ++it){
+                const uint64_t digit = (*it - '0');
+                sparta_assert(digit < 10);
+                carry += digit * suffix_multiplier;
+                if(carry % 10 != 0){
                     throw SpartaException("Encountered a fractional value: \"") << numeric << "\" . \""
                           << fractional << "\" but suffix multipler was only " << suffix_multiplier
-                          << ", so this fraction does not represent and integer. Fraction should "
-                          "not have a 1/" << ten_div << " place. Found in \"" << s << "\"";
+                          << ", so this fraction does not represent and integer. Found in \""
+                          << s << "\"";
                 }
-                frac /= ten_div;
-                value += frac;
-                ten_div *= 10;
+                carry /= 10;
             }
+            value += carry;
         }
 
         // Recursively reparse remainder of string and add result to current value
-- 
2.43.0


From 865e18b0ac7b70a6a558604dc5aefbb9c965a35f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:21:54 +0000
Subject: [PATCH 63/64] fix: smartLexicalCast refuses what uint64_t cannot hold

---
 sparta/sparta/utils/SmartLexicalCast.hpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/sparta/sparta/utils/SmartLexicalCast.hpp b/sparta/sparta/utils/SmartLexicalCast.hpp
index 711c39e..72b8797 100644
--- a/sparta/sparta/utils/SmartLexicalCast.hpp
+++ b/sparta/sparta/utils/SmartLexicalCast.hpp
@@ -9,6 +9,7 @@
 #pragma once
 
 #include <iostream>
+#include <limits>
 #include <utility>
 #include <memory>
 
@@ -339,7 +340,15 @@ inline uint64_t smartLexicalCast(const std::string& s,
             suffix_multiplier = 1;
         }
 
+        auto refuseOverflow = [&s] (bool overflow) {
+            if(overflow){
+                throw SpartaException("Could not lexically cast \"") << s << "\" to a uint64_t because "
+                      "it contained a value this type could not contain";
+            }
+        };
+
         // Apply suffix modifier extracted when parsing the suffix (e.g. "k" = N*1000)
+        refuseOverflow(value > std::numeric_limits<uint64_t>::max() / suffix_multiplier);
         value *= suffix_multiplier;
 
         // Apply suffix modifier to the fractional portion
@@ -361,6 +370,7 @@ inline uint64_t smartLexicalCast(const std::string& s,
                 }
                 carry /= 10;
             }
+            refuseOverflow(carry > std::numeric_limits<uint64_t>::max() - value);
             value += carry;
         }
 
@@ -372,6 +382,7 @@ inline uint64_t smartLexicalCast(const std::string& s,
                                                                true,             // Allow recursion
                                                                false);           // Disallow prefixes
 
+                refuseOverflow(addition > std::numeric_limits<uint64_t>::max() - value);
                 value += addition;
             }
         }
-- 
2.43.0


From 1b6fe6c634590b2d4d9e8fd0209f611242e07a94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:21:55 +0000
Subject: [PATCH 64/64] fix: smartLexicalCast refuses a digit that the radix
 does not have

---
 sparta/sparta/utils/SmartLexicalCast.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sparta/sparta/utils/SmartLexicalCast.hpp b/sparta/sparta/utils/SmartLexicalCast.hpp
index 72b8797..345be95 100644
--- a/sparta/sparta/utils/SmartLexicalCast.hpp
+++ b/sparta/sparta/utils/SmartLexicalCast.hpp
@@ -337,6 +337,10 @@ inline uint64_t smartLexicalCast(const std::string& s,
         }
 
         if(suffix_multiplier == 0){
+            if(s[pos] >= '0' && s[pos] <= '9'){
+                throw SpartaException("Found '") << s[pos] << "', which is no digit in radix " << radix
+                      << ", in string being smart-lexically-cast: \"" << s << "\"";
+            }
             suffix_multiplier = 1;
         }
 
-- 
2.43.0

