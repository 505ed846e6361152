From b313da3652d09da141bbef374e3971aac2b85fad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:32:36 +0000
Subject: [PATCH 01/36] fix: calendar-date composition was off by one day for
 March 2034 to February 2100

---
 dal/time/date.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dal/time/date.cpp b/dal/time/date.cpp
index 2e944e0..ce39d71 100644
--- a/dal/time/date.cpp
+++ b/dal/time/date.cpp
@@ -30,7 +30,7 @@ namespace Dal {
             // based on Vogelpoel's port of now-lost pseudocode
             // ignore Excel bug around 29 Feb 1900 -- dates before then will be wrong
             return (1461 * (yy + (mm - 14) / 12)) / 4 + (367 * (mm - 2 - 12 * ((mm - 14) / 12))) / 12 -
-                   (3 * ((yy + 4900 + (mm - 14) / 12)) / 100) / 4 + dd - 693894;
+                   (3 * ((yy + 4900 + (mm - 14) / 12) / 100)) / 4 + dd - 693894;
         }
 
         uint16_t SerialFromYMD(int yy, int mm, int dd) {
-- 
2.43.0


From 6a0298d8487c0a8e55ce3b96360627efc0bc33b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:35:10 +0000
Subject: [PATCH 02/36] fix: time-of-day text and milliseconds lost a unit for
 times not exactly representable

---
 dal/time/datetime.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/dal/time/datetime.cpp b/dal/time/datetime.cpp
index b9b096e..aa9c937 100644
--- a/dal/time/datetime.cpp
+++ b/dal/time/datetime.cpp
@@ -10,9 +10,11 @@ namespace Dal {
 
     namespace {
         void FracToHMS(double frac, int* h, int* m, int* s) {
-            ASSIGN(h, static_cast<int>(24 * frac));
-            ASSIGN(m, static_cast<int>(1440 * frac) % 60);
-            ASSIGN(s, static_cast<int>(86400 * frac) % 60);
+            // a whole number of seconds need not be exactly representable as a fraction of a day, so do not simply truncate
+            const int secs = std::min(86399, static_cast<int>(86400 * frac + 1.0e-6));
+            ASSIGN(h, secs / 3600);
+            ASSIGN(m, secs / 60 % 60);
+            ASSIGN(s, secs % 60);
         }
     } // namespace
 
@@ -83,7 +85,7 @@ namespace Dal {
 
         long long MSec(const DateTime_& dt) {
             long long days = dt.Date() - Date::Minimum();
-            return 86400000 * days + static_cast<long long>(dt.Frac() * 86400000);
+            return 86400000 * days + std::llround(dt.Frac() * 86400000);
         }
     } // namespace DateTime
 } // namespace Dal
-- 
2.43.0


From d377306abbe05ba581328f59cbb2c8c76ff36252 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:37:16 +0000
Subject: [PATCH 03/36] fix: ACT/365L hung or missed 29 Feb, and 30/360
 mishandled month ends after the 29th

---
 dal/time/daybasis.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/dal/time/daybasis.cpp b/dal/time/daybasis.cpp
index 10b4a27..547a03d 100644
--- a/dal/time/daybasis.cpp
+++ b/dal/time/daybasis.cpp
@@ -28,10 +28,11 @@ namespace Dal {
                 if (mm > 2)
                     ++yy;
                 mm = 2;
-                if (Date_(yy, 3, 1) > to)
+                if (Date_(yy, 2, Date::DaysInMonth(yy, 2)) > to)
                     return 365.0;
                 if (Date::DaysInMonth(yy, 2) == 29)
                     return 366.0;
+                ++yy;
             }
         }
 
@@ -57,8 +58,10 @@ namespace Dal {
                     d2 = 30;
                 d1 = 30;
             }
-            if (d1 > 30)
+            if (d1 >= 30) {
+                d1 = 30;
                 d2 = std::min(d1, d2);
+            }
             return (360 * (y2 - y1) + 30 * (m2 - m1) + (d2 - d1)) / 360.0;
         }
     } // namespace
-- 
2.43.0


From 03d4c7716a7d0062b5bd477b590c0219e7cd0238 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:37:16 +0000
Subject: [PATCH 04/36] fix: quarterly IMM/CDS steps stopped in non-quarter
 months and EOM did not advance from a month end

---
 dal/time/dateincrement.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dal/time/dateincrement.cpp b/dal/time/dateincrement.cpp
index 3b75d5d..31c1dd6 100644
--- a/dal/time/dateincrement.cpp
+++ b/dal/time/dateincrement.cpp
@@ -59,7 +59,7 @@ namespace {
         int mm = Date::Month(from);
         int dd = Date::Day(from);
 
-        if (forward ? dd >= 20 : dd <= 20) {
+        if (mm % 3 || (forward ? dd >= 20 : dd <= 20)) {
             do {
                 mm += forward ? 1 : -1;
             } while (mm % 3);
@@ -75,7 +75,7 @@ namespace {
         int mm = Date::Month(from);
         int dd = Date::Day(from);
 
-        if (forward ? dd >= IMMDay(yy, mm) : dd <= IMMDay(yy, mm)) {
+        if (mm % imm_months || (forward ? dd >= IMMDay(yy, mm) : dd <= IMMDay(yy, mm))) {
             do {
                 mm += forward ? 1 : -1;
             } while (mm % imm_months);
@@ -95,7 +95,7 @@ namespace {
         case Value_::IMM1:
             return ToIMM(from, forward, 1);
         case Value_::EOM:
-            return forward ? Date::EndOfMonth(from) : Date_(Date::Year(from), Date::Month(from), 1).AddDays(-1);
+            return forward ? Date::EndOfMonth(from.AddDays(1)) : Date_(Date::Year(from), Date::Month(from), 1).AddDays(-1);
         }
     }
 
-- 
2.43.0


From e7e0951d1de78b957ad7f836c45c8f15b8a664a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:37:16 +0000
Subject: [PATCH 05/36] fix: schedules with a non-advancing tenor never ended,
 reversed ends were accepted and ModifiedFollowing was refused

---
 dal/time/schedules.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/dal/time/schedules.cpp b/dal/time/schedules.cpp
index 1f5040c..28f3895 100644
--- a/dal/time/schedules.cpp
+++ b/dal/time/schedules.cpp
@@ -19,6 +19,7 @@ namespace Dal {
     Schedule_ DateGenerate(const Date_& start,
                            const Date_& maturity,
                            const Handle_<Date::Increment_>& tenor, DateGeneration_ method) {
+        REQUIRE(start <= maturity, "schedule must not start after its maturity");
         Vector_<Date_> ret_val;
         if (method == DateGeneration_("Forward")) {
             ret_val.push_back(start);
@@ -26,6 +27,7 @@ namespace Dal {
                 const Date_ pin_date = tenor->FwdFrom(ret_val[ip - 1]);
                 if (pin_date > maturity)
                     break;
+                REQUIRE(pin_date > ret_val.back(), "schedule tenor must move the date forward");
                 ret_val.push_back(pin_date);
             }
             if (maturity != ret_val.back())
@@ -36,6 +38,7 @@ namespace Dal {
                 const Date_ pin_date = tenor->BackFrom(ret_val[ip - 1]);
                 if (pin_date < start)
                     break;
+                REQUIRE(pin_date < ret_val.back(), "schedule tenor must move the date backward");
                 ret_val.push_back(pin_date);
             }
             if (start != ret_val.back())
@@ -59,7 +62,10 @@ namespace Dal {
         for (const auto& pin_date : pin_dates) {
             if (convention == BizDayConvention_("Following"))
                 ret_val.push_back(Holidays::NextBus(hols, pin_date));
-            else if (convention == BizDayConvention_("Unadjusted"))
+            else if (convention == BizDayConvention_("ModifiedFollowing")) {
+                const Date_ following = Holidays::NextBus(hols, pin_date);
+                ret_val.push_back(Date::Month(following) == Date::Month(pin_date) ? following : Holidays::PrevBus(hols, pin_date));
+            } else if (convention == BizDayConvention_("Unadjusted"))
                 ret_val.push_back(pin_date);
             else
                 THROW("business date rule is not recognized");
-- 
2.43.0


From e45dfc0371d2d93222bbf51c985349ccbf85668e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:37:16 +0000
Subject: [PATCH 06/36] fix: concurrent calendar registration lost centers and
 raced with lookups

---
 dal/time/holidaydata.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/dal/time/holidaydata.cpp b/dal/time/holidaydata.cpp
index 61e697d..0564b0c 100644
--- a/dal/time/holidaydata.cpp
+++ b/dal/time/holidaydata.cpp
@@ -30,6 +30,10 @@ namespace Dal {
     }
 
     namespace {
+        std::mutex TheHolidayDataMutex;
+#define LOCK_HOLIDAY_DATA std::lock_guard<std::mutex> l(TheHolidayDataMutex)
+
+        // access only while holding the lock
         HolidayData_& TheHolidayData() { RETURN_STATIC(HolidayData_); }
 
         HolidayData_ CopyHolidayData() { return TheHolidayData(); }
@@ -50,32 +54,33 @@ namespace Dal {
     } // namespace
 
     void Holidays::AddCenter(const String_& city, const Vector_<Date_>& holidays, const Vector_<Date_>& workWeekends) {
-        REQUIRE(TheHolidayData().IsValid(), "Holiday data is not valid");
         REQUIRE(ContainsNoWeekends(holidays), "Holidays should not contain weekends");
         REQUIRE(ContainsOnlyWeekends(workWeekends), "Can only weekends in special working days");
         REQUIRE(IsMonotonic(holidays), "Holidays should be in ascending order");
         REQUIRE(IsMonotonic(workWeekends), "Working weekends should be in ascending order");
         NOTICE(city);
 
+        LOCK_HOLIDAY_DATA;
+        REQUIRE(TheHolidayData().IsValid(), "Holiday data is not valid");
         HolidayData_ temp(CopyHolidayData());
         REQUIRE(!temp.centerIndex_.count(city), "Duplicate holiday center");
         temp.centerIndex_[city] = static_cast<int>(temp.holidays_.size());
         temp.holidays_.push_back(Handle_(std::make_shared<const HolidayCenterData_>(city, holidays, workWeekends)));
 
-        static std::mutex mutex;
-        std::lock_guard<std::mutex> l(mutex);
         TheHolidayData().Swap(&temp);
         REQUIRE(TheHolidayData().IsValid(), "Holiday data is not valid");
     }
 
     int Holidays::CenterIndex(const String_& center) {
         NOTICE(center);
+        LOCK_HOLIDAY_DATA;
         auto p = TheHolidayData().centerIndex_.find(center);
         REQUIRE(p != TheHolidayData().centerIndex_.end(), "Invalid holiday center");
         return p->second;
     }
 
     Handle_<HolidayCenterData_> Holidays::OfCenter(int center_index) {
+        LOCK_HOLIDAY_DATA;
         REQUIRE(center_index >= 0 && center_index < TheHolidayData().holidays_.size(), "Invalid holiday center index");
         return TheHolidayData().holidays_[center_index];
     }
-- 
2.43.0


From 32e3ff39ca12748e7fd18ed24d8803aed54282c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:25:20 +0000
Subject: [PATCH 07/36] fix: thread pool and queue flags were accessed without
 synchronisation while stopping

---
 dal/concurrency/concurrentqueue.hpp | 6 +++++-
 dal/concurrency/threadpool.hpp      | 3 ++-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/dal/concurrency/concurrentqueue.hpp b/dal/concurrency/concurrentqueue.hpp
index 6d4351e..1813b59 100644
--- a/dal/concurrency/concurrentqueue.hpp
+++ b/dal/concurrency/concurrentqueue.hpp
@@ -69,10 +69,14 @@ namespace Dal {
             cv_.notify_all();
         }
 
-        void ResetInterrupt() { interrupt_ = false; }
+        void ResetInterrupt() {
+            std::lock_guard<std::mutex> lk(mutex_);
+            interrupt_ = false;
+        }
 
         void Clear() {
             std::queue<T_> empty;
+            std::lock_guard<std::mutex> lk(mutex_);
             std::swap(queue_, empty);
         }
     };
diff --git a/dal/concurrency/threadpool.hpp b/dal/concurrency/threadpool.hpp
index d783682..bb13aab 100644
--- a/dal/concurrency/threadpool.hpp
+++ b/dal/concurrency/threadpool.hpp
@@ -12,6 +12,7 @@
 
 #pragma once
 
+#include <atomic>
 #include <dal/concurrency/concurrentqueue.hpp>
 #include <future>
 #include <thread>
@@ -25,7 +26,7 @@ namespace Dal {
         ConcurrentQueue_<Task_> queue_;
         std::vector<std::thread> threads_;
         bool active_;
-        bool interrupt_;
+        std::atomic<bool> interrupt_;
         static thread_local size_t tlsNum_;
 
         void ThreadFunc(const size_t& num);
-- 
2.43.0


From ba23218a1cd71919cb25605455664b631f56023d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:14:52 +0000
Subject: [PATCH 08/36] fix: skipping and cloning of pseudo-random sequences
 gave the wrong position

---
 dal/math/random/pseudorandom.cpp | 47 ++++++++++++++++++++++++--------
 dal/math/random/pseudorandom.hpp |  4 +++
 2 files changed, 39 insertions(+), 12 deletions(-)

diff --git a/dal/math/random/pseudorandom.cpp b/dal/math/random/pseudorandom.cpp
index ee95b03..9a7951d 100644
--- a/dal/math/random/pseudorandom.cpp
+++ b/dal/math/random/pseudorandom.cpp
@@ -13,6 +13,17 @@
 namespace Dal {
     // derived classes can call this explicitly
     void PseudoRandom_::FillUniform(Vector_<>* devs) {
+        REQUIRE(devs->size() <= cache_.size(), "more deviates requested than the generator's dimension");
+        if (skipped_) {
+            // antithetic: two points for each set of numbers drawn
+            const size_t n_points = skipped_;
+            SkipNumbers(n_points / 2 * NDim());
+            skipped_ = 0;
+            anti_ = n_points % 2 == 1;
+            if (anti_)
+                for (auto& u : cache_)
+                    u = NextUniform();
+        }
         if (anti_) {
             for (size_t i = 0; i < devs->size(); ++i)
                 (*devs)[i] = (1.0 - cache_[i]);
@@ -36,7 +47,16 @@ namespace Dal {
         } // namespace RWT
     }     // namespace
 
-    void PseudoRandom_::FillNormal(Vector_<>* deviates) { RWT::Fill(this, deviates->begin(), deviates->end()); }
+    void PseudoRandom_::FillNormal(Vector_<>* deviates) {
+        skipped_ = 0;
+        RWT::Fill(this, deviates->begin(), deviates->end());
+    }
+
+    void PseudoRandom_::SkipTo(size_t n_points) {
+        anti_ = false;
+        SkipNumbers(n_points * NDim());
+        skipped_ = n_points;
+    }
 
     namespace {
         // Generators similar to Knuth's IRN55, with shuffling
@@ -66,10 +86,15 @@ namespace Dal {
 
             explicit ShuffledIRN_(int seed, size_t n_dim = 1, bool precise = false)
                 : PseudoRandom_(n_dim, precise), seed_(seed), irn_(M_), shuffle_(S_), irl_(0) {
+                Reset();
+            }
+
+            void Reset() {
+                irl_ = 0;
                 const unsigned MASK = 0x1F2E3D4C;
                 const unsigned MUL = 17;
                 // initialize IRN_
-                irn_[0] = seed;
+                irn_[0] = seed_;
                 for (int ii = 1; ii < M_; ++ii)
                     irn_[ii] = ((MUL * irn_[ii - 1]) % DE_NOM) ^ MASK;
                 // initialize shuffle_
@@ -81,9 +106,13 @@ namespace Dal {
                 return new ShuffledIRN_<M_, L_, S_>(irn_[0] ^ irn_[1]);
             }
 
-            [[nodiscard]] PseudoRandom_* Clone() const override { return new ShuffledIRN_(seed_, cache_.size()); }
+            [[nodiscard]] PseudoRandom_* Clone() const override { return new ShuffledIRN_(*this); }
 
-            void SkipTo(size_t n_paths) override {}
+            void SkipNumbers(size_t n) override {
+                Reset();
+                while (n-- > 0)
+                    NextUniform();
+            }
         };
 
         constexpr const double m1_ = 4294967087;
@@ -137,18 +166,12 @@ namespace Dal {
             [[nodiscard]] PseudoRandom_* Branch(int i_child) const override { return new MRG32k32a_(); }
 
             [[nodiscard]] PseudoRandom_* Clone() const override {
-                return new MRG32k32a_(static_cast<unsigned>(a_), static_cast<unsigned>(b_), cache_.size());
+                return new MRG32k32a_(*this);
             }
 
-            void SkipTo(size_t n_paths) override {
-                size_t n_points = n_paths * NDim();
+            void SkipNumbers(size_t n_points) override {
                 Reset();
 
-                if (n_points & 1)
-                    n_points = (n_points - 1) / 2;
-                else
-                    n_points /= 2;
-
                 static constexpr size_t m1l = static_cast<size_t>(m1_);
                 static constexpr size_t m2l = static_cast<size_t>(m2_);
 
diff --git a/dal/math/random/pseudorandom.hpp b/dal/math/random/pseudorandom.hpp
index 7909959..25d61bb 100644
--- a/dal/math/random/pseudorandom.hpp
+++ b/dal/math/random/pseudorandom.hpp
@@ -31,9 +31,12 @@ precise is boolean
 namespace Dal {
     class PseudoRandom_ : public Random_ {
         bool anti_ = false;
+        size_t skipped_ = 0; // points skipped, until the first fill
 
     protected:
         Vector_<> cache_;
+        // move to just after the first n numbers of the sequence
+        virtual void SkipNumbers(size_t n) = 0;
 
     public:
         explicit PseudoRandom_(size_t n_dim, bool precise = false) : cache_(n_dim), precise_(precise) {}
@@ -41,6 +44,7 @@ namespace Dal {
         virtual double NextUniform() = 0;
         void FillUniform(Vector_<>* deviates) override;
         void FillNormal(Vector_<>* deviates) override;
+        void SkipTo(size_t n_points) override;
         [[nodiscard]] PseudoRandom_* Clone() const override = 0;
         [[nodiscard]] size_t NDim() const override { return cache_.size(); }
         [[nodiscard]] virtual PseudoRandom_* Branch(int i_child) const = 0;
-- 
2.43.0


From 2a2eb0bd858118130ba9f91ca271ca583cee481a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:15:22 +0000
Subject: [PATCH 09/36] fix: errors in simulation batches were swallowed and
 copied results referred to the original's memory

---
 dal/script/simulation.hpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/dal/script/simulation.hpp b/dal/script/simulation.hpp
index ac4e5dd..79ef575 100644
--- a/dal/script/simulation.hpp
+++ b/dal/script/simulation.hpp
@@ -21,15 +21,15 @@ namespace Dal::Script {
     struct SimResults_ {
         explicit SimResults_(const Vector_<String_>& names) : aggregated_(0.0), risks_(names.size(), 0.0), names_(names) {
             for(auto i = 0; i < names.size(); ++i)
-                results_[names[i]] = &risks_[i];
+                results_[names[i]] = i;
         }
         double aggregated_;
         Vector_<> risks_;
         Vector_<String_> names_;
-        std::map<String_, const double*> results_;
+        std::map<String_, size_t> results_;
 
         FORCE_INLINE double operator[](const String_& name) {
-            return *results_[name];
+            return risks_[results_.at(name)];
         }
     };
 
@@ -150,6 +150,9 @@ namespace Dal::Script {
 
         for (auto& future : futures)
             pool->ActiveWait(future);
+        // report a failure of any batch
+        for (auto& future : futures)
+            future.get();
 
         // aggregate all the results
         results.aggregated_ = Accumulate(simResults);
@@ -257,6 +260,9 @@ namespace Dal::Script {
             pool->ActiveWait(future);
 
         Number_::SetTape(*mainThreadPtr);
+        // report a failure of any batch
+        for (auto& future : futures)
+            future.get();
         SimResults_ rtn(Dal::Vector::Join(mdl->ParameterLabels(), product.ConstVarNames()));
         for (auto& res: simResults) {
             rtn.aggregated_ += res.aggregated_;
-- 
2.43.0


From bc6cca4267f7a08970d5d75fe1e7acb19724f07b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:25:11 +0000
Subject: [PATCH 10/36] fix: simulations of a payoff that is itself a
 parameter, or with no date after today, crashed

---
 dal/math/random/brownianbridge.cpp | 4 ++++
 dal/script/simulation.hpp          | 6 ++++--
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/dal/math/random/brownianbridge.cpp b/dal/math/random/brownianbridge.cpp
index 71e0c6a..b613cee 100644
--- a/dal/math/random/brownianbridge.cpp
+++ b/dal/math/random/brownianbridge.cpp
@@ -21,6 +21,8 @@ namespace Dal {
     }
 
     void BrownianBridge_::Initialize() {
+        if (ndim_ == 0)
+            return; // nothing is simulated after today
         sqrtdt_[0] = std::sqrt(t_[0]);
         for (int i = 1; i < ndim_; ++i)
             sqrtdt_[i] = std::sqrt(t_[i] - t_[i-1]);
@@ -64,6 +66,8 @@ namespace Dal {
 
     void BrownianBridge_::FillNormal(Vector_<> *deviates) {
         deviates->Resize(NDim());
+        if (ndim_ == 0)
+            return;
         rsg_->FillNormal(&innerDeviates_);
         (*deviates)[ndim_ - 1] = stdDev_[0] * innerDeviates_[0];
         for (int i = 1; i< ndim_; ++i) {
diff --git a/dal/script/simulation.hpp b/dal/script/simulation.hpp
index 79ef575..84cd848 100644
--- a/dal/script/simulation.hpp
+++ b/dal/script/simulation.hpp
@@ -215,7 +215,8 @@ namespace Dal::Script {
                         random->FillNormal(&gVec);
                         model->GeneratePath(gVec, &path);
                         product.EvaluateCompiled(path, evalState);
-                        Number_ res = evalState.VarVals()[payoffIndex];
+                        // the payoff may be a parameter itself: give the result a node of its own, after the mark
+                        Number_ res = evalState.VarVals()[payoffIndex] + 0.0;
                         res.PropagateToMark();
                         sumValue += res.value();
                     }
@@ -236,7 +237,8 @@ namespace Dal::Script {
                         random->FillNormal(&gVec);
                         model->GeneratePath(gVec, &path);
                         product.Evaluate(path, eval);
-                        Number_ res = eval.VarVals()[payoffIndex];
+                        // the payoff may be a parameter itself: give the result a node of its own, after the mark
+                        Number_ res = eval.VarVals()[payoffIndex] + 0.0;
                         res.PropagateToMark();
                         sumValue += res.value();
                     }
-- 
2.43.0


From 3433081c272ac2a1b3728ce045de435a9e2620d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:32:16 +0000
Subject: [PATCH 11/36] fix: small adjoints were dropped, powers of zero gave
 no derivative, and full tape blocks or unset marks corrupted iteration

---
 dal/math/aad/blocklist.hpp | 20 +++++++++++++++++---
 dal/math/aad/expr.hpp      | 11 ++++++-----
 dal/math/aad/node.hpp      |  4 ++--
 3 files changed, 25 insertions(+), 10 deletions(-)

diff --git a/dal/math/aad/blocklist.hpp b/dal/math/aad/blocklist.hpp
index 81cfb88..75a9e01 100644
--- a/dal/math/aad/blocklist.hpp
+++ b/dal/math/aad/blocklist.hpp
@@ -53,6 +53,12 @@ namespace Dal::AAD {
             }
         }
 
+        // the next space is never the end of a block, so that it equals the position an iterator reaches there
+        void LeaveFullBlock() {
+            if (nextSpace_ == lastSpace_)
+                NextBlock();
+        }
+
     public:
         struct BlockPosition_ {
             iterator currBlock_;
@@ -62,11 +68,15 @@ namespace Dal::AAD {
             BlockPosition_(iterator curr_block, block_iter next_space): currBlock_(curr_block), nextSpace_(next_space) {}
         };
 
-        BlockList_() { NewBlock(); }
+        BlockList_() {
+            NewBlock();
+            SetMark();
+        }
 
         void Clear() {
             data_.clear();
             NewBlock();
+            SetMark();
         }
 
         void Rewind() {
@@ -92,15 +102,17 @@ namespace Dal::AAD {
                 NextBlock();
             T_* emplaced = new (&*nextSpace_) T_(std::forward<Args_>(args)...);
             ++nextSpace_;
+            LeaveFullBlock();
             return emplaced;
         }
 
         T_* EmplaceBack() {
             if (nextSpace_ == lastSpace_)
                 NextBlock();
-            auto old_next = nextSpace_;
+            T_* emplaced = &*nextSpace_;
             ++nextSpace_;
-            return &*old_next;
+            LeaveFullBlock();
+            return emplaced;
         }
 
         template <size_t N_> T_* EmplaceBackMulti() {
@@ -108,6 +120,7 @@ namespace Dal::AAD {
                 NextBlock();
             auto old_next = nextSpace_;
             nextSpace_ += N_;
+            LeaveFullBlock();
             return &*old_next;
         }
 
@@ -116,6 +129,7 @@ namespace Dal::AAD {
                 NextBlock();
             auto old_next = nextSpace_;
             nextSpace_ += n;
+            LeaveFullBlock();
             return &*old_next;
         }
 
diff --git a/dal/math/aad/expr.hpp b/dal/math/aad/expr.hpp
index 1e43b56..5f65ee4 100644
--- a/dal/math/aad/expr.hpp
+++ b/dal/math/aad/expr.hpp
@@ -75,9 +75,9 @@ namespace Dal::AAD {
     struct OPPow_ {
         FORCE_INLINE static double Eval(double l, double r) { return std::pow(l, r); }
 
-        FORCE_INLINE static double LeftDerivative(double l, double r, double v) { return r * v / l; }
+        FORCE_INLINE static double LeftDerivative(double l, double r, double v) { return r == 0.0 ? 0.0 : r * std::pow(l, r - 1.0); }
 
-        FORCE_INLINE static double RightDerivative(double l, double r, double v) { return std::log(l) * v; }
+        FORCE_INLINE static double RightDerivative(double l, double r, double v) { return v == 0.0 ? 0.0 : std::log(l) * v; }
     };
 
     struct OPMax_ {
@@ -244,13 +244,13 @@ namespace Dal::AAD {
     struct OPPowDL_ {
         FORCE_INLINE static double Eval(double r, double d) { return std::pow(d, r); }
 
-        FORCE_INLINE static double Derivative(double r, double v, double d) { return std::log(d) * v; }
+        FORCE_INLINE static double Derivative(double r, double v, double d) { return v == 0.0 ? 0.0 : std::log(d) * v; }
     };
 
     struct OPPowDR_ {
         FORCE_INLINE static double Eval(double r, double d) { return std::pow(r, d); }
 
-        FORCE_INLINE static double Derivative(double r, double v, double d) { return d * v / r; }
+        FORCE_INLINE static double Derivative(double r, double v, double d) { return d == 0.0 ? 0.0 : d * std::pow(r, d - 1.0); }
     };
 
     struct OPMaxD_ {
@@ -553,7 +553,8 @@ namespace Dal::AAD {
         }
 
         static void PropagateMarkToStart() {
-            PropagateAdjoints(std::prev(tape_->MarkIt()), tape_->Begin());
+            if (tape_->MarkIt() != tape_->Begin())
+                PropagateAdjoints(std::prev(tape_->MarkIt()), tape_->Begin());
         }
 
         static void PropagateAdjointsMulti(Tape_::Iterator_ propagate_from, Tape_::Iterator_ propagate_to) {
diff --git a/dal/math/aad/node.hpp b/dal/math/aad/node.hpp
index 5abde05..60a5414 100644
--- a/dal/math/aad/node.hpp
+++ b/dal/math/aad/node.hpp
@@ -38,7 +38,7 @@ namespace Dal::AAD {
         double& Adjoint(size_t n) { return pAdjoints_[n]; }
 
         void PropagateOne() {
-            if (!n_ || fabs(adjoint_) <= Dal::EPSILON)
+            if (!n_ || adjoint_ == 0.0)
                 return;
 
             for (size_t i = 0; i < n_; ++i)
@@ -46,7 +46,7 @@ namespace Dal::AAD {
         }
 
         void PropagateAll() {
-            if (!n_ || std::all_of(pAdjoints_, pAdjoints_ + numAdj_, [](double x) { return fabs(x) <= Dal::EPSILON; }))
+            if (!n_ || std::all_of(pAdjoints_, pAdjoints_ + numAdj_, [](double x) { return x == 0.0; }))
                 return;
 
             for (size_t i = 0; i < n_; ++i) {
-- 
2.43.0


From 1b46034a7e62868cbe5270f931b710506964d587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:11:25 +0000
Subject: [PATCH 12/36] fix: the script parser read past the end of truncated
 text, ignored unknown characters, leftovers in parentheses and extra DCF
 arguments, dropped the third and later arguments of MAX/MIN, and let
 constants be assigned

---
 dal/script/parser.cpp | 89 +++++++++++++++++++++++++------------------
 dal/script/parser.hpp | 14 +++++++
 2 files changed, 65 insertions(+), 38 deletions(-)

diff --git a/dal/script/parser.cpp b/dal/script/parser.cpp
index 4f34e63..7865160 100644
--- a/dal/script/parser.cpp
+++ b/dal/script/parser.cpp
@@ -15,6 +15,11 @@ namespace {
             "IF", "END", "THEN", "ELSE", "DCF", "PAYS", "AND", "OR", "SPOT", "MAX", "MIN",
             "LOG", "SQRT", "EXP"
     };
+
+    double ToNumber(const Dal::String_& token) {
+        REQUIRE2(Dal::String::IsNumber(token), Dal::String_("`") + token + "` is not a number", Dal::ScriptError_);
+        return Dal::String::ToDouble(token);
+    }
 }
 
 namespace Dal::Script {
@@ -55,6 +60,7 @@ namespace Dal::Script {
 
     Expression_ Parser_::ParseExprL4(TokIt_& cur, const TokIt_& end) {
         if (cur != end && ((*cur)[0] == '+' || (*cur)[0] == '-')) {
+            const Nested_ nested(depth_);
             char op = (*cur)[0];
             ++cur;
             REQUIRE2(cur != end, "unexpected end of statement", ScriptError_);
@@ -112,6 +118,14 @@ namespace Dal::Script {
                 top->arguments_ = ParseFuncArg(cur, end);
                 if (top->arguments_.size() < minArg || top->arguments_.size() > maxArg)
                     THROW2(String_("Function ") + func + String_(": wrong number of arguments_"), ScriptError_);
+                //	Maximum or minimum of more than two: nested pairs
+                if (top->arguments_.size() > 2) {
+                    auto args = std::move(top->arguments_);
+                    auto res = std::move(args[0]);
+                    for (size_t i = 1; i < args.size(); ++i)
+                        res = func == "MAX" ? MakeBaseBinary<NodeMax_>(res, args[i]) : MakeBaseBinary<NodeMin_>(res, args[i]);
+                    return res;
+                }
             }
             //	Return
             return top;
@@ -122,7 +136,7 @@ namespace Dal::Script {
     }
 
     Expression_ Parser_::ParseConst(TokIt_& cur) {
-        double v = String::ToDouble(*cur);
+        double v = ToNumber(*cur);
         auto top = MakeNode<NodeConst_>(v);
         ++cur;
         return std::move(top);
@@ -143,6 +157,7 @@ namespace Dal::Script {
     }
 
     Statement_ Parser_::ParseIf(TokIt_& cur, const TokIt_& end) {
+        const Nested_ nested(depth_);
         ++cur;
         REQUIRE2(cur != end, "`if` is not followed by `then`", ScriptError_);
         auto cond = ParseCond(cur, end);
@@ -243,48 +258,31 @@ namespace Dal::Script {
 
     void Parser_::ParseCondOptionals(TokIt_& cur, const TokIt_& end, double& eps) {
         eps = -1.0;
-        while (*cur == ";" || *cur == ":") {
-            const char c = (*cur)[0];
+        if (cur != end && (*cur == ";" || *cur == ":")) {
             ++cur;
             REQUIRE2(cur != end, "unexpected end of statement", ScriptError_);
-            eps = String::ToDouble(*cur);
+            eps = ToNumber(*cur);
             ++cur;
         }
     }
 
     double Parser_::ParseDCF(TokIt_& cur, const TokIt_& end) {
         // TODO: we assume `DCF` function won't contain another nested function
-        REQUIRE2((*cur)[0] == '(', "No opening ( following `DCF`", ScriptError_);
+        REQUIRE2(cur != end && (*cur)[0] == '(', "No opening ( following `DCF`", ScriptError_);
         auto closeIt = FindMatch<'(', ')'>(cur, end);
-        ++cur;
 
         // Parse basis and dates between parentheses
-        REQUIRE2(cur != closeIt, "doesn't find `basis` for `DCF", ScriptError_);
-        String_ day_basis = "";
-        while (cur != closeIt && (*cur)[0] != ',') {
-            day_basis += *cur;
-            ++cur;
-        }
-        ++cur;
-        while (cur != closeIt && (*cur)[0] == ',')
-            ++cur;
-        REQUIRE2(cur != closeIt, "doesn't find `start` for `DCF", ScriptError_);
-
-        String_ start_date = "";
-        while (cur != closeIt && (*cur)[0] != ',') {
-            start_date += *cur;
-            ++cur;
-        }
-        ++cur;
-        while (cur != closeIt && (*cur)[0] == ',')
-            ++cur;
-        REQUIRE2(cur != closeIt, "doesn't find `end` for `DCF", ScriptError_);
-
-        String_ end_date = "";
-        while (cur != closeIt && (*cur)[0] != ',') {
-            end_date += *cur;
-            ++cur;
+        Vector_<String_> args(1);
+        for (++cur; cur != closeIt; ++cur) {
+            if ((*cur)[0] == ',')
+                args.push_back(String_());
+            else
+                args.back() += *cur;
         }
+        REQUIRE2(args.size() == 3, "`DCF` needs `basis`, `start` and `end`", ScriptError_);
+        const String_& day_basis = args[0];
+        const String_& start_date = args[1];
+        const String_& end_date = args[2];
 
         cur = ++closeIt;
         // TODO: we only implement normal day count fraction convention and leave `context` as empty
@@ -292,17 +290,18 @@ namespace Dal::Script {
     }
 
     Vector_<Expression_> Parser_::ParseFuncArg(TokIt_& cur, const TokIt_& end) {
-        REQUIRE2((*cur)[0] == '(', "No opening ( following function name", ScriptError_);
+        REQUIRE2(cur != end && (*cur)[0] == '(', "No opening ( following function name", ScriptError_);
         auto closeIt = FindMatch<'(', ')'>(cur, end);
 
         //	Parse expressions between parentheses
         Vector_<Expression_> args;
         ++cur;
         while (cur != closeIt) {
-            args.push_back(ParseExpr(cur, end));
-            if ((*cur)[0] == ',')
+            args.push_back(ParseExpr(cur, closeIt));
+            if ((*cur)[0] == ',') {
                 ++cur;
-            else if (cur != closeIt)
+                REQUIRE2(cur != closeIt, "missing argument after a comma", ScriptError_);
+            } else if (cur != closeIt)
                 THROW2("Arguments must be separated by commas", ScriptError_);
         }
         cur = ++closeIt;
@@ -347,6 +346,7 @@ namespace Dal::Script {
     Statement_ Parser_::ParseStatement(TokIt_& cur, const TokIt_& end) {
         if (*cur == "IF")
             return ParseIf(cur, end);
+        REQUIRE2(constVariables_.find(*cur) == constVariables_.end(), String_("constant ") + *cur + " can't be assigned", ScriptError_);
         auto lhs = ParseVar(cur);
         REQUIRE2(cur != end, "unexpected end of statement", ScriptError_);
         if (*cur == "=")
@@ -356,10 +356,23 @@ namespace Dal::Script {
     }
 
     Vector_<String_> Tokenize(const String_& str) {
-        static const std::regex r(R"([\w.]+|[/-]|,|;|:|[\(\)\+\*\^]|!=|>=|<=|[<>=])");
+        auto isWord = [](char c) { return c == '.' || c == '_' || std::isalnum(static_cast<unsigned char>(c)); };
         Vector_<String_> v;
-        for (std::regex_iterator<String_::const_iterator> it(str.begin(), str.end(), r), end; it != end; ++it)
-            v.push_back(String_((*it)[0]));
+        for (auto it = str.begin(); it != str.end();) {
+            auto next = it + 1;
+            if (std::isspace(static_cast<unsigned char>(*it))) {
+                it = next;
+                continue;
+            }
+            if (isWord(*it))
+                next = std::find_if_not(it, str.end(), isWord);
+            else if ((*it == '!' || *it == '<' || *it == '>') && next != str.end() && *next == '=')
+                ++next;
+            else
+                REQUIRE2(String_("/-,;:()+*^<>=").find(*it) != String_::npos, String_("unexpected character `") + *it + "`", ScriptError_);
+            v.push_back(String_(it, next));
+            it = next;
+        }
         return v;
     }
 
diff --git a/dal/script/parser.hpp b/dal/script/parser.hpp
index 18b1a7f..f80416a 100644
--- a/dal/script/parser.hpp
+++ b/dal/script/parser.hpp
@@ -17,6 +17,17 @@ namespace Dal::Script {
 
         // Helpers
 
+        // Nesting level of what is being parsed, bounded so that no script can exhaust the call stack
+        int depth_ = 0;
+        struct Nested_ {
+            int& depth_;
+            explicit Nested_(int& depth) : depth_(depth) {
+                REQUIRE2(depth_ < 500, "script is nested too deeply", ScriptError_);
+                ++depth_;
+            }
+            ~Nested_() { --depth_; }
+        };
+
         // Find matching closing char, for example matching ) for a (, skipping through nested pairs
         // does not change the cur iterator, assumed to be on the opening,
         // and returns an iterator on the closing match
@@ -39,6 +50,8 @@ namespace Dal::Script {
 
         template <ParseFunc FuncOnMatch_, ParseFunc FuncOnNoMatch_>
         Expression_ ParseParentheses(TokIt_& cur, const TokIt_& end) {
+            REQUIRE2(cur != end, "unexpected end of statement", ScriptError_);
+            const Nested_ nested(depth_);
             Expression_ tree;
 
             // Do we have an opening "("?
@@ -49,6 +62,7 @@ namespace Dal::Script {
                 // Parse the parentheses condition/expression, including nested parentheses,
                 // by recursively calling the parent parseCond/parseExpr
                 tree = (this->*FuncOnMatch_)(++cur, closeIt);
+                REQUIRE2(cur == closeIt, String_("unexpected ") + *cur + " between parentheses", ScriptError_);
 
                 // Advance cur after matching ")"
                 cur = ++closeIt;
-- 
2.43.0


From 5b8e63e7850f30c56c59f5070daf9cb5814624e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:11:25 +0000
Subject: [PATCH 13/36] fix: script domain analysis rejected divisions by a
 possibly zero variable, lost values next to non-finite ones, took nearly
 equal values as equal, and gave LOG a positive range

---
 dal/script/visitor/domain.hpp     | 54 +++++++++++++++++++------------
 dal/script/visitor/domainproc.hpp |  5 ++-
 2 files changed, 38 insertions(+), 21 deletions(-)

diff --git a/dal/script/visitor/domain.hpp b/dal/script/visitor/domain.hpp
index 932ed47..6b7240e 100644
--- a/dal/script/visitor/domain.hpp
+++ b/dal/script/visitor/domain.hpp
@@ -11,6 +11,8 @@
 #include <sstream>
 #include <functional>
 #include <array>
+#include <cmath>
+#include <limits>
 #include <algorithm>
 #include <memory>
 #include <set>
@@ -33,29 +35,27 @@ namespace Dal::Script {
         static const MinusInfinity minusInfinity_;
 
         // Real
-        explicit Bound_(double val = 0.0) : isPlusInf_(false), isMinusInf_(false), real_(val) {}
+        explicit Bound_(double val = 0.0) : isPlusInf_(std::isinf(val) && val > 0.0), isMinusInf_(std::isinf(val) && val < 0.0), real_(val) {}
 
         // Infinite
-        explicit Bound_(const PlusInfinity&) : isPlusInf_(true), isMinusInf_(false), real_(Dal::INF) {}
-        explicit Bound_(const MinusInfinity&) : isPlusInf_(false), isMinusInf_(true), real_(-Dal::INF) {}
+        explicit Bound_(const PlusInfinity&) : isPlusInf_(true), isMinusInf_(false), real_(std::numeric_limits<double>::infinity()) {}
+        explicit Bound_(const MinusInfinity&) : isPlusInf_(false), isMinusInf_(true), real_(-std::numeric_limits<double>::infinity()) {}
 
         Bound_(const Bound_& rhs) = default;
 
         Bound_& operator=(double val) {
-            isPlusInf_ = isMinusInf_ = false;
-            real_ = val;
-            return *this;
+            return *this = Bound_(val);
         }
         Bound_& operator=(const PlusInfinity&) {
             isPlusInf_ = true;
             isMinusInf_ = false;
-            real_ = Dal::INF;
+            real_ = std::numeric_limits<double>::infinity();
             return *this;
         }
         Bound_& operator=(const MinusInfinity&) {
             isPlusInf_ = false;
             isMinusInf_ = true;
-            real_ = -Dal::INF;
+            real_ = -std::numeric_limits<double>::infinity();
             return *this;
         }
         Bound_& operator=(const Bound_& rhs) {
@@ -70,26 +70,26 @@ namespace Dal::Script {
 
         // Accessors
         [[nodiscard]] bool IsInfinite() const { return isPlusInf_ || isMinusInf_; }
-        [[nodiscard]] bool IsPositive(bool strict = false) const { return isPlusInf_ || real_ > (strict ? Dal::EPSILON : -Dal::EPSILON); }
-        [[nodiscard]] bool IsNegative(bool strict = false) const { return isMinusInf_ || real_ < (strict ? -Dal::EPSILON : Dal::EPSILON); }
-        [[nodiscard]]  bool IsZero() const { return !IsInfinite() && fabs(real_) < Dal::EPSILON; }
+        [[nodiscard]] bool IsPositive(bool strict = false) const { return isPlusInf_ || (strict ? real_ > 0.0 : real_ >= 0.0); }
+        [[nodiscard]] bool IsNegative(bool strict = false) const { return isMinusInf_ || (strict ? real_ < 0.0 : real_ <= 0.0); }
+        [[nodiscard]]  bool IsZero() const { return !IsInfinite() && real_ == 0.0; }
         [[nodiscard]] bool IsPlusInf() const { return isPlusInf_; }
         [[nodiscard]] bool IsMinusInf() const { return isMinusInf_; }
         [[nodiscard]] double Val() const { return real_; }
 
         // Comparison
         bool operator==(const Bound_& rhs) const {
-            return isPlusInf_ && rhs.isPlusInf_ || isMinusInf_ && rhs.isMinusInf_ || fabs(real_ - rhs.real_) < Dal::EPSILON;
+            return isPlusInf_ && rhs.isPlusInf_ || isMinusInf_ && rhs.isMinusInf_ || real_ == rhs.real_;
         }
 
         bool operator!=(const Bound_& rhs) const { return !operator==(rhs); }
 
         bool operator<(const Bound_& rhs) const {
-            return isMinusInf_ && !rhs.isMinusInf_ || !isPlusInf_ && rhs.isPlusInf_ || real_ < rhs.real_ - Dal::EPSILON;
+            return isMinusInf_ && !rhs.isMinusInf_ || !isPlusInf_ && rhs.isPlusInf_ || real_ < rhs.real_;
         }
 
         bool operator>(const Bound_& rhs) const {
-            return !isMinusInf_ && rhs.isMinusInf_ || isPlusInf_ && !rhs.isPlusInf_ || real_ > rhs.real_ + Dal::EPSILON;
+            return !isMinusInf_ && rhs.isMinusInf_ || isPlusInf_ && !rhs.isPlusInf_ || real_ > rhs.real_;
         }
 
         bool operator<=(const Bound_& rhs) const { return !operator>(rhs); }
@@ -146,7 +146,13 @@ namespace Dal::Script {
 
     public:
         // Singleton
-        explicit Interval_(double val = 0.0) : left_(val), right_(val) {}
+        explicit Interval_(double val = 0.0) : left_(val), right_(val) {
+            // Nothing is known about a value that is not a finite number
+            if (!std::isfinite(val)) {
+                left_ = Bound_::minusInfinity_;
+                right_ = Bound_::plusInfinity_;
+            }
+        }
 
         // Interval_
         Interval_(const Bound_& left, const Bound_& right) : left_(left), right_(right) {
@@ -300,7 +306,15 @@ namespace Dal::Script {
         }
 
         // Division
-        Interval_ operator/(const Interval_& rhs) const { return *this * rhs.Inverse(); }
+        Interval_ operator/(const Interval_& rhs) const {
+            // Dividing by 0 can give anything
+            if (rhs.IsZero())
+                return {Bound_(Bound_::minusInfinity_), Bound_(Bound_::plusInfinity_)};
+            double x, y;
+            if (IsSingleton(&x) && rhs.IsSingleton(&y))
+                return Interval_(x / y);
+            return *this * rhs.Inverse();
+        }
 
         // Min/Max
         [[nodiscard]] Interval_ IMin(const Interval_& rhs) const {
@@ -741,7 +755,7 @@ namespace Dal::Script {
 
         // Shortcuts for shifting all intervals
         Domain_ operator+=(double x) {
-            if (fabs(x) < Dal::EPSILON)
+            if (x == 0.0)
                 return *this;
 
             std::set<Interval_> newIntervals;
@@ -753,7 +767,7 @@ namespace Dal::Script {
         }
 
         Domain_ operator-=(double x) {
-            if (fabs(x) < Dal::EPSILON)
+            if (x == 0.0)
                 return *this;
 
             std::set<Interval_> newIntervals;
@@ -870,7 +884,7 @@ namespace Dal::Script {
         [[nodiscard]] bool CanBePositive(bool strict) const {
             if (IsEmpty())
                 return false;
-            if (intervals_.rbegin()->Right().Val() > (strict ? Dal::EPSILON : -Dal::EPSILON))
+            if (intervals_.rbegin()->Right().IsPositive(strict))
                 return true;
             return false;
         }
@@ -878,7 +892,7 @@ namespace Dal::Script {
         [[nodiscard]] bool CanBeNegative(bool strict) const {
             if (IsEmpty())
                 return false;
-            if (intervals_.begin()->Left().Val() < (strict ? -Dal::EPSILON : Dal::EPSILON))
+            if (intervals_.begin()->Left().IsNegative(strict))
                 return true;
 
             return false;
diff --git a/dal/script/visitor/domainproc.hpp b/dal/script/visitor/domainproc.hpp
index 70e2ceb..bd8f7c0 100644
--- a/dal/script/visitor/domainproc.hpp
+++ b/dal/script/visitor/domainproc.hpp
@@ -119,7 +119,7 @@ namespace Dal::Script {
         void Visit(NodeLog_& node) {
             VisitArguments(node);
             Domain_ res = domStack_.Top().ApplyFunc<double (*)(double)>(
-                log, Interval_(Bound_(0.0), Bound_(Bound_::plusInfinity_)));
+                log, Interval_(Bound_(Bound_::minusInfinity_), Bound_(Bound_::plusInfinity_)));
             domStack_.Pop();
             domStack_.Push(std::move(res));
         }
@@ -163,6 +163,9 @@ namespace Dal::Script {
 
         // Conditions
 
+        void Visit(NodeTrue_&) { condStack_.Push(Value_::AlwaysTrue); }
+        void Visit(NodeFalse_&) { condStack_.Push(Value_::AlwaysFalse); }
+
         void Visit(NodeEqual_& node) {
             VisitArguments(node);
 
-- 
2.43.0


From caba86bedae513f99ff85a91acf4f149f457e95a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:11:25 +0000
Subject: [PATCH 14/36] fix: deeply nested scripts and past payments overran
 the evaluation stack

---
 dal/math/stacks.hpp                  | 6 +++++-
 dal/script/visitor/pastevaluator.hpp | 3 ++-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/dal/math/stacks.hpp b/dal/math/stacks.hpp
index 1dbc3d6..991aae4 100644
--- a/dal/math/stacks.hpp
+++ b/dal/math/stacks.hpp
@@ -5,6 +5,7 @@
 #pragma once
 
 #include <iterator>
+#include <dal/utilities/exceptions.hpp>
 
 namespace Dal {
     template <class E_, size_t DefaultSize> class Stack_ {
@@ -134,7 +135,10 @@ namespace Dal {
 
     public:
         template <typename T2>
-        FORCE_INLINE void Push(T2&& value) { data_[++sp_] = T(std::forward<T2>(value)); }
+        FORCE_INLINE void Push(T2&& value) {
+            REQUIRE(sp_ + 1 < static_cast<int>(SIZE), "stack is full");
+            data_[++sp_] = T(std::forward<T2>(value));
+        }
 
         FORCE_INLINE T& Top() { return data_[sp_]; }
 
diff --git a/dal/script/visitor/pastevaluator.hpp b/dal/script/visitor/pastevaluator.hpp
index 52664cf..7e3a510 100644
--- a/dal/script/visitor/pastevaluator.hpp
+++ b/dal/script/visitor/pastevaluator.hpp
@@ -22,8 +22,9 @@ namespace Dal::Script {
         using Base::dStack_;
 
         FORCE_INLINE void Visit(const NodePays_& node) {
-            //	Visit the RHS expression
+            //	Visit the RHS expression, payments made in the past are not part of the value
             VisitNode(*node.arguments_[1]);
+            dStack_.Pop();
         }
 
         FORCE_INLINE void Visit(const NodeSpot_&) {
-- 
2.43.0


From df75f8531fee08deefcb082b1bd2fa87df913fbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:11:25 +0000
Subject: [PATCH 15/36] fix: compiled nested if/else corrupted the stacks,
 compiled constants had no risk, constant >= used a tolerance, smoothed !=
 acted as =, and moved evaluators lost their initial state

---
 dal/script/node.hpp              |  3 ++-
 dal/script/visitor/compiler.hpp  | 18 ++++++++++++------
 dal/script/visitor/evaluator.hpp |  4 +++-
 dal/script/visitor/fuzzy.hpp     | 10 +++++-----
 4 files changed, 22 insertions(+), 13 deletions(-)

diff --git a/dal/script/node.hpp b/dal/script/node.hpp
index 75fd1b2..a3a598b 100644
--- a/dal/script/node.hpp
+++ b/dal/script/node.hpp
@@ -108,7 +108,8 @@ namespace Dal::Script {
 
     struct NodeConstVar_: public Visitable_<ExprNode_, NodeConstVar_, VISITORS> {
         explicit NodeConstVar_(String_ name, double val) : name_(std::move(name)), index_(-1) {
-            ExprNode_::isConst_ = true;
+            // not foldable: the evaluation reads its current (possibly differentiated) value
+            ExprNode_::isConst_ = false;
             ExprNode_::constVal_ = val;
         }
 
diff --git a/dal/script/visitor/compiler.hpp b/dal/script/visitor/compiler.hpp
index e48d02a..60e0163 100644
--- a/dal/script/visitor/compiler.hpp
+++ b/dal/script/visitor/compiler.hpp
@@ -237,7 +237,7 @@ namespace Dal::Script {
             VisitCondition<Sup>(node, [](double x) { return x > 0.0; });
         }
         void Visit(const NodeSupEqual_& node) {
-            VisitCondition<SupEqual>(node, [](double x) { return x > -Dal::EPSILON; });
+            VisitCondition<SupEqual>(node, [](double x) { return x >= 0.0; });
         }
 
         //  And/Or/Not
@@ -300,8 +300,7 @@ namespace Dal::Script {
 
         void Visit(const NodeConstVar_& node) {
             nodeStream_.emplace_back(ConstVar);
-            nodeStream_.emplace_back(static_cast<int>(constStream_.size()));
-            constStream_.emplace_back(node.constVal_);
+            nodeStream_.emplace_back(node.index_);
         }
 
         void Visit(const NodeConst_& node) {
@@ -365,7 +364,8 @@ namespace Dal::Script {
         //  First (included), last (excluded)
         size_t first = 0,
         size_t last = 0) {
-        const size_t n = last ? last : nodeStream.size();
+        const bool nested = last > 0;
+        const size_t n = nested ? last : nodeStream.size();
         size_t i = first;
 
         //  Work space
@@ -374,9 +374,12 @@ namespace Dal::Script {
 
         //  Stacks
         thread_local  static StaticStack_<T_> dStack;
-        dStack.Reset();
         thread_local static StaticStack_<bool> bStack;
-        bStack.Reset();
+        //  A nested call shares the stacks of its caller
+        if (!nested) {
+            dStack.Reset();
+            bStack.Reset();
+        }
 
         //  Loop on instructions
         while (i < n) {
@@ -476,6 +479,9 @@ namespace Dal::Script {
                 ++i;
                 break;
             case ConstVar:
+                dStack.Push(state.constVariables_[nodeStream[++i]]);
+                ++i;
+                break;
             case Const:
                 dStack.Push(constStream[nodeStream[++i]]);
                 ++i;
diff --git a/dal/script/visitor/evaluator.hpp b/dal/script/visitor/evaluator.hpp
index 5ba70b1..cfef4f4 100644
--- a/dal/script/visitor/evaluator.hpp
+++ b/dal/script/visitor/evaluator.hpp
@@ -55,11 +55,12 @@ namespace Dal::Script {
             constVariables_ = rhs.constVariables_;
             bStack_ = rhs.bStack_;
             scenario_ = rhs.scenario_;
+            curEvt_ = rhs.curEvt_;
             return *this;
         }
 
         EvaluatorBase_(EvaluatorBase_&& rhs) noexcept
-            : variables_(std::move(rhs.variables_)), constVariables_(std::move(rhs.constVariables_)), curEvt_(rhs.curEvt_) {
+            : variables_(std::move(rhs.variables_)), variablesInit_(std::move(rhs.variablesInit_)), constVariables_(std::move(rhs.constVariables_)), curEvt_(rhs.curEvt_) {
             bStack_ = rhs.bStack_;
             scenario_ = rhs.scenario_;
         }
@@ -69,6 +70,7 @@ namespace Dal::Script {
             constVariables_ = std::move(rhs.constVariables_);
             bStack_ = std::move(rhs.bStack_);
             scenario_ = rhs.scenario_;
+            curEvt_ = rhs.curEvt_;
             return *this;
         }
 
diff --git a/dal/script/visitor/fuzzy.hpp b/dal/script/visitor/fuzzy.hpp
index a5ed36d..793634f 100644
--- a/dal/script/visitor/fuzzy.hpp
+++ b/dal/script/visitor/fuzzy.hpp
@@ -116,13 +116,13 @@ namespace Dal::Script {
         }
 
         FuzzyEvaluator_(FuzzyEvaluator_&& rhs) noexcept
-            : Base(move(rhs)), defEps_(rhs.defEps_), varStore0_(move(rhs.varStore0_)), varStore1_(move(rhs.varStore1_)),
+            : Base(std::move(rhs)), defEps_(rhs.defEps_), varStore0_(std::move(rhs.varStore0_)), varStore1_(std::move(rhs.varStore1_)),
               nestedIfLvl_(0) {}
         FuzzyEvaluator_& operator = (FuzzyEvaluator_&& rhs) noexcept {
-            Base::operator=(move(rhs));
+            Base::operator=(std::move(rhs));
             defEps_ = rhs.defEps_;
-            varStore0_ = move(rhs.varStore0_);
-            varStore1_ = move(rhs.varStore1_);
+            varStore0_ = std::move(rhs.varStore0_);
+            varStore1_ = std::move(rhs.varStore1_);
             nestedIfLvl_ = 0;
             return *this;
         }
@@ -239,7 +239,7 @@ namespace Dal::Script {
         FORCE_INLINE void Visit(const NodeSupEqual_& node) { VisitComp(node); }
 
         // Negation
-        FORCE_INLINE void visitNot(const NodeNot_& node) {
+        FORCE_INLINE void Visit(const NodeNot_& node) {
             VisitNode(*node.arguments_[0]);
             fuzzyStack_.Top() = 1.0 - fuzzyStack_.Top();
         }
-- 
2.43.0


From 1db80c8c0110692dfac6c83b4493a7b13875da08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:17:16 +0000
Subject: [PATCH 16/36] fix: smoothed conditions with no smoothing width were
 undefined exactly at the threshold

---
 dal/script/visitor/fuzzy.hpp | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/dal/script/visitor/fuzzy.hpp b/dal/script/visitor/fuzzy.hpp
index 793634f..f1eb7a2 100644
--- a/dal/script/visitor/fuzzy.hpp
+++ b/dal/script/visitor/fuzzy.hpp
@@ -205,14 +205,17 @@ namespace Dal::Script {
                 //	Effective epsilon: take default unless overwritten on the node
                 double eps = node.eps_ < 0 ? defEps_ : node.eps_;
 
-                //	Butterfly
-                fuzzyStack_.Push(BFly(expr, eps));
+                //	Butterfly, or the sharp condition when there is no smoothing
+                if (eps > 0.0)
+                    fuzzyStack_.Push(BFly(expr, eps));
+                else
+                    fuzzyStack_.Push(expr == 0.0 ? 1.0 : 0.0);
             }
         }
 
         // Inequality
         // For visiting superior and supEqual
-        void VisitComp(const CompNode_& node) {
+        void VisitComp(const CompNode_& node, bool true_at_zero) {
             //	Evaluate expression to be compared to 0
             VisitNode(*node.arguments_[0]);
             const T expr = dStack_.TopAndPop();
@@ -230,13 +233,16 @@ namespace Dal::Script {
                 //	Effective epsilon: take default unless overwritten on the node
                 const double eps = node.eps_ < 0 ? defEps_ : node.eps_;
 
-                //	Call Spread
-                fuzzyStack_.Push(CSpr(expr, eps));
+                //	Call Spread, or the sharp condition when there is no smoothing
+                if (eps > 0.0)
+                    fuzzyStack_.Push(CSpr(expr, eps));
+                else
+                    fuzzyStack_.Push(expr > 0.0 || (true_at_zero && expr == 0.0) ? 1.0 : 0.0);
             }
         }
 
-        FORCE_INLINE void Visit(const NodeSup_& node) { VisitComp(node); }
-        FORCE_INLINE void Visit(const NodeSupEqual_& node) { VisitComp(node); }
+        FORCE_INLINE void Visit(const NodeSup_& node) { VisitComp(node, false); }
+        FORCE_INLINE void Visit(const NodeSupEqual_& node) { VisitComp(node, true); }
 
         // Negation
         FORCE_INLINE void Visit(const NodeNot_& node) {
-- 
2.43.0


From fc1f2a74538fa04f22ff11733a8f802ba33a7f2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:33:56 +0000
Subject: [PATCH 17/36] fix: the script parser took ^ for a variable name and
 very long expressions exhausted the call stack

---
 dal/script/parser.cpp | 25 ++++++++++++++++++-------
 dal/script/parser.hpp |  8 ++++++++
 2 files changed, 26 insertions(+), 7 deletions(-)

diff --git a/dal/script/parser.cpp b/dal/script/parser.cpp
index 7865160..fce0ada 100644
--- a/dal/script/parser.cpp
+++ b/dal/script/parser.cpp
@@ -29,8 +29,9 @@ namespace Dal::Script {
             char op = (*cur)[0];
             ++cur;
             REQUIRE2(cur != end, "unexpected end of statement", ScriptError_);
+            const int height = height_;
             auto rhs = ParseExprL2(cur, end);
-            lhs = op == '+' ? MakeBaseBinary<NodeAdd_>(lhs, rhs) : MakeBaseBinary<NodeSub_>(lhs, rhs);
+            lhs = op == '+' ? Chain<NodeAdd_>(lhs, height, rhs) : Chain<NodeSub_>(lhs, height, rhs);
         }
         return lhs;
     }
@@ -41,8 +42,9 @@ namespace Dal::Script {
             char op = (*cur)[0];
             ++cur;
             REQUIRE2(cur != end, "unexpected end of statement", ScriptError_);
+            const int height = height_;
             auto rhs = ParseExprL3(cur, end);
-            lhs = op == '*' ? MakeBaseBinary<NodeMulti_>(lhs, rhs) : MakeBaseBinary<NodeDiv_>(lhs, rhs);
+            lhs = op == '*' ? Chain<NodeMulti_>(lhs, height, rhs) : Chain<NodeDiv_>(lhs, height, rhs);
         }
         return lhs;
     }
@@ -52,8 +54,9 @@ namespace Dal::Script {
         while (cur != end && (*cur)[0] == '^') {
             ++cur;
             REQUIRE(cur != end, "unexpected end of statement");
+            const int height = height_;
             auto rhs = ParseExprL4(cur, end);
-            lhs = MakeBaseBinary<NodePow_>(lhs, rhs);
+            lhs = Chain<NodePow_>(lhs, height, rhs);
         }
         return lhs;
     }
@@ -74,6 +77,7 @@ namespace Dal::Script {
     }
 
     Expression_ Parser_::ParseVarConstFunc(TokIt_& cur, const TokIt_& end) {
+        height_ = 0;
         if ((*cur)[0] == '.' || ((*cur)[0] >= '0' && (*cur)[0] <= '9'))
             return ParseConst(cur);
 
@@ -123,7 +127,7 @@ namespace Dal::Script {
                     auto args = std::move(top->arguments_);
                     auto res = std::move(args[0]);
                     for (size_t i = 1; i < args.size(); ++i)
-                        res = func == "MAX" ? MakeBaseBinary<NodeMax_>(res, args[i]) : MakeBaseBinary<NodeMin_>(res, args[i]);
+                        res = func == "MAX" ? Chain<NodeMax_>(res, height_, args[i]) : Chain<NodeMin_>(res, height_, args[i]);
                     return res;
                 }
             }
@@ -143,7 +147,7 @@ namespace Dal::Script {
     }
 
     Expression_ Parser_::ParseVar(TokIt_& cur) {
-        REQUIRE2((*cur)[0] >= 'A' && (*cur)[0] <= 'z', String_("Variable name ") + *cur + " is invalid", ScriptError_);
+        REQUIRE2(std::isalpha(static_cast<unsigned char>((*cur)[0])) || (*cur)[0] == '_', String_("Variable name ") + *cur + " is invalid", ScriptError_);
         REQUIRE2(RESERVED_KEY_WORDS.find(*cur) == RESERVED_KEY_WORDS.end(),
                  String_("Variable name ") + *cur + " is conflicted with an existing key word", ScriptError_);
         String_ name(*cur);
@@ -211,8 +215,9 @@ namespace Dal::Script {
         while (cur != end && *cur == "OR") {
             ++cur;
             REQUIRE2(cur != end, "unexpected end of statement", ScriptError_);
+            const int height = height_;
             auto rhs = ParseCondL2(cur, end);
-            lhs = MakeBaseBinary<NodeOr_>(lhs, rhs);
+            lhs = Chain<NodeOr_>(lhs, height, rhs);
         }
         return lhs;
     }
@@ -222,8 +227,9 @@ namespace Dal::Script {
         while (cur != end && *cur == "AND") {
             ++cur;
             REQUIRE2(cur != end, "unexpected end of statement", ScriptError_);
+            const int height = height_;
             auto rhs = ParseParentheses<&Parser_::ParseCond, &Parser_::ParseCondElem>(cur, end);
-            lhs = MakeBaseBinary<NodeAnd_>(lhs, rhs);
+            lhs = Chain<NodeAnd_>(lhs, height, rhs);
         }
         return lhs;
     }
@@ -234,7 +240,9 @@ namespace Dal::Script {
         String_ comparator = *cur;
         ++cur;
         REQUIRE2(cur != end, "unexpected end of statement", ScriptError_);
+        const int height = height_;
         auto rhs = ParseExpr(cur, end);
+        height_ = std::max(height_, height);
 
         double eps;
         ParseCondOptionals(cur, end, eps);
@@ -295,15 +303,18 @@ namespace Dal::Script {
 
         //	Parse expressions between parentheses
         Vector_<Expression_> args;
+        int height = 0;
         ++cur;
         while (cur != closeIt) {
             args.push_back(ParseExpr(cur, closeIt));
+            height = std::max(height, height_);
             if ((*cur)[0] == ',') {
                 ++cur;
                 REQUIRE2(cur != closeIt, "missing argument after a comma", ScriptError_);
             } else if (cur != closeIt)
                 THROW2("Arguments must be separated by commas", ScriptError_);
         }
+        height_ = height;
         cur = ++closeIt;
         return args;
     }
diff --git a/dal/script/parser.hpp b/dal/script/parser.hpp
index f80416a..ed38b68 100644
--- a/dal/script/parser.hpp
+++ b/dal/script/parser.hpp
@@ -28,6 +28,14 @@ namespace Dal::Script {
             ~Nested_() { --depth_; }
         };
 
+        // Height of the last expression or condition parsed, bounded for the same reason
+        int height_ = 0;
+        template <class Node_> Expression_ Chain(Expression_& lhs, int lhs_height, Expression_& rhs) {
+            height_ = std::max(lhs_height, height_) + 1;
+            REQUIRE2(height_ < 2000, "script has too long an expression", ScriptError_);
+            return MakeBaseBinary<Node_>(lhs, rhs);
+        }
+
         // Find matching closing char, for example matching ) for a (, skipping through nested pairs
         // does not change the cur iterator, assumed to be on the opening,
         // and returns an iterator on the closing match
-- 
2.43.0


From 9358b730887db914137da553132b3963fd41abc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:38:42 +0000
Subject: [PATCH 18/36] fix: macros replaced parts of longer words, schedules
 ignored or read past malformed parameters, repeated pre-processing corrupted
 products, and unknown payoff names meant the last variable

---
 dal/script/event.cpp              | 62 +++++++++++++++++++------------
 dal/script/event/schedule.cpp     | 51 ++++++++++++-------------
 dal/script/visitor/varindexer.hpp | 10 +++++
 3 files changed, 73 insertions(+), 50 deletions(-)

diff --git a/dal/script/event.cpp b/dal/script/event.cpp
index b1ef00c..b87d08d 100644
--- a/dal/script/event.cpp
+++ b/dal/script/event.cpp
@@ -11,6 +11,28 @@
 #include <dal/script/event/schedule.hpp>
 
 namespace Dal::Script {
+    namespace {
+        // Replace whole words that are macro names, in the replacements too
+        String_ ReplaceWords(const String_& text, const std::map<String_, String_>& macros, std::set<String_> within = std::set<String_>()) {
+            auto isWord = [](char c) { return c == '.' || c == '_' || std::isalnum(static_cast<unsigned char>(c)); };
+            String_ ret;
+            for (auto it = text.begin(); it != text.end();) {
+                auto next = isWord(*it) ? std::find_if_not(it, text.end(), isWord) : it + 1;
+                const String_ word(it, next);
+                auto macro = macros.find(word);
+                if (macro == macros.end())
+                    ret += word;
+                else {
+                    REQUIRE2(within.insert(word).second, String_("macro ") + word + " refers to itself", ScriptError_);
+                    ret += ReplaceWords(macro->second, macros, within);
+                    within.erase(word);
+                }
+                it = next;
+            }
+            return ret;
+        }
+    } // namespace
+
     void ScriptProduct_::ParseEvents(const Vector_<std::pair<Cell_, String_>> &events) {
         std::map<String_, String_> macros;
         std::map<String_, double> constVariables;
@@ -25,23 +47,15 @@ namespace Dal::Script {
                 if (desc.find(":") < desc.size()) {
                     // find a schedule
                     auto schedule = ParseSchedule(Tokenize(desc));
-                    String_ replaced = event.second;
-                    for (const auto &macro: macros)
-                        replaced = std::regex_replace(replaced,
-                                                      std::regex(macro.first,std::regex_constants::icase),
-                                                      macro.second);
+                    const String_ replaced = ReplaceWords(event.second, macros);
 
                     for (const auto& s: schedule) {
                         auto startDate = std::get<0>(s);
                         auto endDate = std::get<1>(s);
                         auto fixDate = std::get<2>(s);
                         // Replace placeholder of `PeriodBegin` and `PeriodEnd`
-                        auto final_statement = std::regex_replace(replaced,
-                                                                  std::regex("PeriodBegin", std::regex_constants::icase),
-                                                                  Date::ToString(startDate));
-                        final_statement = std::regex_replace(final_statement,
-                                                             std::regex("PeriodEnd", std::regex_constants::icase),
-                                                             Date::ToString(endDate));
+                        auto final_statement = ReplaceWords(replaced, {{"PeriodBegin", Date::ToString(startDate)},
+                                                                       {"PeriodEnd", Date::ToString(endDate)}});
 
                         if (processedEvents.find(fixDate) != processedEvents.end())
                             processedEvents[fixDate] += "\n" + final_statement;
@@ -49,6 +63,10 @@ namespace Dal::Script {
                             processedEvents[fixDate] = final_statement;
                     }
                 } else {
+                    const auto name = Tokenize(desc);
+                    REQUIRE2(name.size() == 1 && (std::isalpha(static_cast<unsigned char>(name[0][0])) || name[0][0] == '_'),
+                             String_("`") + desc + "` is not a valid macro name", ScriptError_);
+                    desc = name[0];
                     REQUIRE2(macros.find(desc) == macros.end(), "macro name has already registered", ScriptError_);
                     REQUIRE2(constVariables.find(desc) == constVariables.end(), "const macro name has already registered", ScriptError_);
                     REQUIRE2(processedEvents.empty(), "macros should always at the front", ScriptError_);
@@ -59,10 +77,7 @@ namespace Dal::Script {
                         macros[desc] = event.second;
                 }
             } else if (Cell::IsDate(cell)) {
-                String_ replaced = event.second;
-                for (const auto &macro: macros)
-                    replaced = std::regex_replace(replaced, std::regex(macro.first, std::regex_constants::icase),
-                                                  macro.second);
+                const String_ replaced = ReplaceWords(event.second, macros);
                 auto d = Cell::ToDate(cell);
                 if (processedEvents.find(d) != processedEvents.end())
                     processedEvents[d] += "\n" + replaced;
@@ -85,19 +100,18 @@ namespace Dal::Script {
     }
 
     void ScriptProduct_::IndexVariables() {
-        VarIndexer_ indexer;
+        VarIndexer_ indexer(variables_, consVariables_, consVariablesValues_);
         Visit(indexer);
         variables_ = indexer.VarNames();
         consVariables_ = indexer.ConstVarNames();
         consVariablesValues_ = indexer.ConstVarValues();
 
-        for (auto i = 0; i < variables_.size(); ++i)
-            if (variables_[i] == payoff_) {
-                payoffIdx_ = i;
-                break;
-            }
-        if (payoffIdx_ == -1)
-            payoffIdx_ = variables_.size() - 1;
+        REQUIRE2(!variables_.empty(), "script has no variables", ScriptError_);
+        payoffIdx_ = variables_.size() - 1;
+        if (!payoff_.empty()) {
+            payoffIdx_ = std::find(variables_.begin(), variables_.end(), payoff_) - variables_.begin();
+            REQUIRE2(payoffIdx_ < variables_.size(), String_("there is no variable ") + payoff_, ScriptError_);
+        }
     }
 
     Vector_<> ScriptProduct_::PastEvaluate() const {
@@ -146,6 +160,8 @@ namespace Dal::Script {
         // generate time line and definition
         // TODO: more specific data settings
         const auto evaluationDate = Global::Dates_::EvaluationDate();
+        timeLine_.clear();
+        defLine_.clear();
         for (auto& date : eventDates_) {
             const double ttm = (date - evaluationDate) / 365.0;
             timeLine_.emplace_back(ttm);
diff --git a/dal/script/event/schedule.cpp b/dal/script/event/schedule.cpp
index 1317f63..6edb94d 100644
--- a/dal/script/event/schedule.cpp
+++ b/dal/script/event/schedule.cpp
@@ -15,7 +15,6 @@
 namespace Dal {
     Vector_<std::tuple<Date_, Date_, Date_>> ParseSchedule(const Vector_<String_>& tokens) {
 
-            int i = 0;
             Date_ startDate;
             Date_ endDate;
             Handle_<Date::Increment_> tenor;
@@ -23,41 +22,39 @@ namespace Dal {
             DateGeneration_ genRule("Forward");
             BizDayConvention_ bizRule("Unadjusted");
             bool fixAtEnd = true;
+            std::set<String_> given;
 
-            for (; i < tokens.size() - 2; ++i) {
-                REQUIRE2(tokens[i + 1] == ":", "schedule parameter name not followed by `:`", ScriptError_);
+            for (size_t i = 0; i < tokens.size();) {
+                const String_& name = tokens[i];
+                REQUIRE2(i + 1 < tokens.size() && tokens[i + 1] == ":", "schedule parameter name not followed by `:`", ScriptError_);
+                REQUIRE2(given.insert(name).second, String_("schedule parameter ") + name + " is given twice", ScriptError_);
 
-                if (tokens[i] == "START") {
-                    String_ dt_str = std::accumulate(tokens.begin() + i + 2, tokens.begin() + i + 7,
-                                                     String_(""),
-                                                     [](const String_ &x, const String_ &y) { return x + y; });
-                    startDate = Date::FromString(dt_str);
-                    i += 6;
-                } else if (tokens[i] == "END") {
-                    String_ dt_str = std::accumulate(tokens.begin() + i + 2, tokens.begin() + i + 7,
-                                                     String_(""),
-                                                     [](const String_ &x, const String_ &y) { return x + y; });
-                    endDate = Date::FromString(dt_str);
-                    i += 6;
-                } else if (tokens[i] == "FREQ") {
-                    tenor = Date::ParseIncrement(tokens[i + 2]);
-                    i += 2;
-                } else if (tokens[i] == "CALENDAR") {
-                    holidays = Holidays_(tokens[i + 2]);
-                    i += 2;
-                } else if (tokens[i] == "BizRule") {
-                    bizRule = BizDayConvention_(tokens[i + 2]);
-                    i += 2;
-                } else if (tokens[i] == "FIXING") {
-                    if (tokens[i + 2] == "BEGIN")
+                // the value goes up to the next parameter name, or to the end
+                String_ value;
+                for (i += 2; i < tokens.size() && (i + 1 == tokens.size() || tokens[i + 1] != ":"); ++i)
+                    value += tokens[i];
+
+                if (name == "START")
+                    startDate = Date::FromString(value);
+                else if (name == "END")
+                    endDate = Date::FromString(value);
+                else if (name == "FREQ")
+                    tenor = Date::ParseIncrement(value);
+                else if (name == "CALENDAR")
+                    holidays = Holidays_(value);
+                else if (name == "BizRule")
+                    bizRule = BizDayConvention_(value);
+                else if (name == "FIXING") {
+                    if (value == "BEGIN")
                         fixAtEnd = false;
-                    else if (tokens[i + 2] == "END")
+                    else if (value == "END")
                         fixAtEnd = true;
                     else
                         THROW("unknown token for fixing");
                 } else
                     THROW2("unknown token", ScriptError_);
             }
+            REQUIRE2(given.count("START") && given.count("END") && given.count("FREQ"), "schedule needs `START`, `END` and `FREQ`", ScriptError_);
 
             Vector_<Date_> schedule = MakeSchedule(startDate,
                                                    Cell_(endDate),
diff --git a/dal/script/visitor/varindexer.hpp b/dal/script/visitor/varindexer.hpp
index 45aaf97..cfc6e58 100644
--- a/dal/script/visitor/varindexer.hpp
+++ b/dal/script/visitor/varindexer.hpp
@@ -19,6 +19,16 @@ namespace Dal::Script {
     public:
         using Visitor_<VarIndexer_>::Visit;
 
+        VarIndexer_() = default;
+
+        // Variables already indexed keep their indices
+        VarIndexer_(const Vector_<String_>& vars, const Vector_<String_>& const_vars, const Vector_<double>& const_values) {
+            for (size_t i = 0; i < vars.size(); ++i)
+                varMap_[vars[i]] = i;
+            for (size_t i = 0; i < const_vars.size(); ++i)
+                constVarMap_[const_vars[i]] = std::make_tuple(i, const_values[i]);
+        }
+
         // Access vector of variable names v[index]=name after Visit to all events
         [[nodiscard]] Vector_<String_> VarNames() const {
             Vector_<String_> v(varMap_.size());
-- 
2.43.0


From 0cd8e7e87f11c2c8071db21a8566ce0bed48306e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:58:36 +0000
Subject: [PATCH 19/36] fix: script value ranges of quotients lost their end
 points to rounding and overflowing ranges were rejected

---
 dal/script/visitor/domain.hpp | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/dal/script/visitor/domain.hpp b/dal/script/visitor/domain.hpp
index 6b7240e..e561180 100644
--- a/dal/script/visitor/domain.hpp
+++ b/dal/script/visitor/domain.hpp
@@ -217,6 +217,12 @@ namespace Dal::Script {
         bool operator>=(const Interval_& rhs) const { return !operator<(rhs); }
 
         // Arithmetics
+        // Results whose bounds overflowed: beyond the largest number
+        static Interval_ FromBounds(const Bound_& left, const Bound_& right) {
+            return {left.IsPlusInf() ? Bound_(std::numeric_limits<double>::max()) : left,
+                    right.IsMinusInf() ? Bound_(-std::numeric_limits<double>::max()) : right};
+        }
+
         // Addition
         Interval_ operator+(const Interval_& rhs) const {
             Bound_ lb, rb;
@@ -231,7 +237,7 @@ namespace Dal::Script {
             else
                 rb = right_.Val() + rhs.right_.Val();
 
-            return {lb, rb};
+            return FromBounds(lb, rb);
         }
 
         Interval_& operator+=(const Interval_& rhs) {
@@ -263,7 +269,7 @@ namespace Dal::Script {
             b[2] = left_ * rhs.right_;
             b[3] = left_ * rhs.left_;
 
-            return {*std::min_element(b.begin(), b.end()), *std::max_element(b.begin(), b.end())};
+            return FromBounds(*std::min_element(b.begin(), b.end()), *std::max_element(b.begin(), b.end()));
         }
 
         // Inverse (1/x)
@@ -285,7 +291,7 @@ namespace Dal::Script {
                     else
                         return {Bound_(1.0 / right_.Val()), Bound_(0.0)};
                 }
-                return {Bound_(1.0 / right_.Val()), Bound_(1.0 / left_.Val())};
+                return FromBounds(Bound_(1.0 / right_.Val()), Bound_(1.0 / left_.Val()));
             } else if (left_.IsZero() || right_.IsZero()) // One of the bounds is 0
             {
                 if (IsInfinite()) {
@@ -295,9 +301,9 @@ namespace Dal::Script {
                         return {Bound_(Bound_::minusInfinity_), Bound_(0.0)};
                 } else {
                     if (IsPositive())
-                        return {Bound_(1.0 / right_.Val()), Bound_(Bound_::plusInfinity_)};
+                        return FromBounds(Bound_(1.0 / right_.Val()), Bound_(Bound_::plusInfinity_));
                     else
-                        return {Bound_(Bound_::minusInfinity_), Bound_(1.0 / left_.Val())};
+                        return FromBounds(Bound_(Bound_::minusInfinity_), Bound_(1.0 / left_.Val()));
                 }
             }
             // Interval_ contains 0 and 0 is not a bound: inverse spans real space
@@ -307,13 +313,17 @@ namespace Dal::Script {
 
         // Division
         Interval_ operator/(const Interval_& rhs) const {
-            // Dividing by 0 can give anything
-            if (rhs.IsZero())
+            // Dividing by 0, from below or from either side, can give anything
+            if (rhs.IsZero() || (rhs.left_.IsNegative(true) && !rhs.right_.IsNegative(true)))
                 return {Bound_(Bound_::minusInfinity_), Bound_(Bound_::plusInfinity_)};
             double x, y;
             if (IsSingleton(&x) && rhs.IsSingleton(&y))
                 return Interval_(x / y);
-            return *this * rhs.Inverse();
+            if (rhs.IsNegative(true))
+                return -*this / -rhs;
+            // Bounds of the quotient by a positive number, exactly as the quotient itself is rounded
+            const double l = left_.Val(), r = right_.Val(), lb = rhs.left_.Val(), rb = rhs.right_.Val();
+            return FromBounds(Bound_(l >= 0.0 ? l / rb : l / lb), Bound_(r > 0.0 ? r / lb : r / rb));
         }
 
         // Min/Max
-- 
2.43.0


From 13c22c3b6cf376fde06038282282ef1f078a7775 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:27:23 +0000
Subject: [PATCH 20/36] fix: repository overwrite rules erased other names and
 were not atomic, global dates and fixings raced, fixings had no store

---
 dal/storage/_repository.cpp | 36 +++++++++++++++++++++---------------
 dal/storage/audit.cpp       |  2 +-
 dal/storage/audit.hpp       |  2 +-
 dal/storage/globals.cpp     | 34 +++++++++++++++++++++-------------
 4 files changed, 44 insertions(+), 30 deletions(-)

diff --git a/dal/storage/_repository.cpp b/dal/storage/_repository.cpp
index 68f7598..b99d551 100644
--- a/dal/storage/_repository.cpp
+++ b/dal/storage/_repository.cpp
@@ -28,36 +28,40 @@ namespace Dal {
         String_ BaseTag(const Storable_& s) { return TypeTag(s) + s.name_ + "~"; }
         String_ Uniquifier(const Storable_& s) { return String::Uniquifier(&s); }
 
-        void EraseByStart(const String_& start) {
-            LOCK_OBJECTS;
-            auto pLow = TheObjects().lower_bound(start);
-            auto pHigh = pLow;
-            while (pHigh != TheObjects().end() && pHigh->first.substr(0, start.size()) == start)
-                ++pHigh;
-            TheObjects().erase(pLow, pHigh);
+        // call with the objects locked; a key starting like this may still belong to another object whose name contains '~'
+        template <class P_> void EraseByStart(const String_& start, const P_& match) {
+            auto po = TheObjects().lower_bound(start);
+            while (po != TheObjects().end() && po->first.substr(0, start.size()) == start) {
+                if (match(*po->second))
+                    TheObjects().erase(po++);
+                else
+                    ++po;
+            }
         }
     } // namespace
 
     String_ ObjectAccess_::AddBase(const Handle_<Storable_>& s, const RepositoryErase_& erase) const {
+        REQUIRE(s, "Can't add a null object to the repository");
         const String_ untickered = BaseTag(*s);
+        LOCK_OBJECTS;
         switch (erase.Switch()) {
         case RepositoryErase_::Value_::NAME_NONEMPTY:
             if (s->name_.empty())
                 break;
             // else fall through
         case RepositoryErase_::Value_::NAME:
-            EraseByStart(untickered); // squash anything with this name
+            // squash anything with this type and name
+            EraseByStart(untickered, [&](const Storable_& o) { return o.type_ == s->type_ && o.name_ == s->name_; });
             break;
         case RepositoryErase_::Value_::TYPE:
-            EraseByStart(TypeTag(*s)); // squash anything with this type
+            // squash anything with this type
+            EraseByStart(TypeTag(*s), [&](const Storable_& o) { return o.type_ == s->type_; });
             break;
         case RepositoryErase_::Value_::_NOT_SET:
         case RepositoryErase_::Value_::NONE:
         case RepositoryErase_::Value_::_N_VALUES:
             break;
         }
-        // call to LOCK_OBJECTS must be after EraseByStart, because that will also acquire the lock
-        LOCK_OBJECTS;
         const String_ retval = untickered + Uniquifier(*s);
         TheObjects().insert(make_pair(retval, s));
         return retval;
@@ -126,17 +130,19 @@ namespace Dal {
                 Box_ dummy(GLOBAL_TAG + name, Matrix_<Cell_>());
                 String_ tagStart = BaseTag(dummy);
                 LOCK_OBJECTS;
-                auto po = TheObjects().lower_bound(tagStart);
-                if (po != TheObjects().end() && po->first.substr(0, tagStart.size()) == tagStart) {
+                for (auto po = TheObjects().lower_bound(tagStart);
+                     po != TheObjects().end() && po->first.substr(0, tagStart.size()) == tagStart; ++po) {
+                    if (po->second->name_ != dummy.name_)
+                        continue;
                     const Box_* box = dynamic_cast<const Box_*>(po->second.get());
-                    REQUIRE(box && !box->contents_.Empty(), "Internal error, or global tag meddling");
+                    REQUIRE(box, "Internal error, or global tag meddling");
                     return box->contents_;
                 }
                 return EMPTY;
             }
         };
 
-        RUN_AT_LOAD(Global::SetTheDateStore(new RepoStore_))
+        RUN_AT_LOAD(Global::SetTheDateStore(new RepoStore_); Global::SetTheFixingsStore(new RepoStore_))
     } // namespace
 
     Handle_<Storable_> ObjectAccess_::Fetch(const String_& tag, bool quiet) const {
diff --git a/dal/storage/audit.cpp b/dal/storage/audit.cpp
index ae72ec9..da89bf7 100644
--- a/dal/storage/audit.cpp
+++ b/dal/storage/audit.cpp
@@ -33,7 +33,7 @@ namespace Dal {
     }
 
     Vector_<Handle_<Storable_>> AuditorImp_::Find(const String_& key) const {
-        static const auto SECOND = GetSecond(*mine_->contents_.begin());
+        static const auto SECOND = [](const Bag_::map_t::value_type& k_v) { return k_v.second; };
         Vector_<Handle_<Storable_>> ret_val;
         if (mode_ == SHOWING) {
             auto range = mine_->contents_.equal_range(key);
diff --git a/dal/storage/audit.hpp b/dal/storage/audit.hpp
index a2e096e..8d5085c 100644
--- a/dal/storage/audit.hpp
+++ b/dal/storage/audit.hpp
@@ -25,7 +25,7 @@ namespace Dal {
             READING,
             READING_EXCLUSIVE, // avoid vast memory use
             SHOWING,
-        } mode_;
+        } mode_ = PASSIVE;
         AuditorImp_(): mine_(new Bag_("bag", Bag_::map_t())) {}
         void Notice(const String_& key, const Handle_<Storable_>& value) const override;
         [[nodiscard]] Vector_<Handle_<Storable_>> Find(const String_& key) const override;
diff --git a/dal/storage/globals.cpp b/dal/storage/globals.cpp
index 2d7401a..5eb5cc0 100644
--- a/dal/storage/globals.cpp
+++ b/dal/storage/globals.cpp
@@ -58,10 +58,12 @@ namespace Dal {
     void Global::Dates_::SetEvaluationDate(const Date_& date) { XGLOBAL::SetEvaluationDate(date); }
 
     void XGLOBAL::SetAccountingDate(const Date_& when) {
+        LOCK_STORES;
         Global::TheDateStore().Set(ACCOUNTING(), Matrix::M1x1(Cell_(when)));
     }
 
     void XGLOBAL::SetEvaluationDate(const Date_& when) {
+        LOCK_STORES;
         Global::TheDateStore().Set(EVALUATION(), Matrix::M1x1(Cell_(when)));
     }
 
@@ -86,28 +88,34 @@ namespace Dal {
         // static
         std::unique_ptr<Global::Store_>& XTheFixingsStore() { RETURN_STATIC(std::unique_ptr<Global::Store_>); }
         const String_ FIX_PREFIX("FixingsFor:");
+
+        // call with the stores locked
+        FixHistory_ StoredHistory(const String_& index) {
+            const Matrix_<Cell_>& stored = Global::TheFixingsStore().Get(FIX_PREFIX + index);
+            FixHistory_ retval;
+            if (stored.Empty())
+                return retval;
+            assert(stored.Cols() == 2);
+            assert(AllOf(stored.Col(0), Cell::TypeCheck_<DateTime_>()));
+            assert(AllOf(stored.Col(0), Cell::TypeCheck_<double>()));
+            const int n = stored.Rows();
+            retval.vals_.Resize(n);
+            for (int ii = 0; ii < n; ++ii)
+                retval.vals_[ii] = make_pair(Cell::ToDateTime(stored(ii, 0)), Cell::ToDouble(stored(ii, 1)));
+            return retval;
+        }
     } // namespace
 
     FixHistory_ Global::Fixings_::History(const String_& index) {
         LOCK_STORES;
-        const Matrix_<Cell_>& stored = Global::TheFixingsStore().Get(FIX_PREFIX + index);
-        FixHistory_ retval;
-        if (stored.Empty())
-            return retval;
-        assert(stored.Cols() == 2);
-        assert(AllOf(stored.Col(0), Cell::TypeCheck_<DateTime_>()));
-        assert(AllOf(stored.Col(0), Cell::TypeCheck_<double>()));
-        const int n = stored.Rows();
-        retval.vals_.Resize(n);
-        for (int ii = 0; ii < n; ++ii)
-            retval.vals_[ii] = make_pair(Cell::ToDateTime(stored(ii, 0)), Cell::ToDouble(stored(ii, 1)));
-        return retval;
+        return StoredHistory(index);
     }
 
     int XGLOBAL::StoreFixings(const String_& index, const FixHistory_& fixings, bool append) {
+        LOCK_STORES;
         std::map<DateTime_, double> all;
         if (append) {
-            const FixHistory_& old = Global::Fixings_().History(index);
+            const FixHistory_& old = StoredHistory(index);
             for (const auto& d_f : old.vals_)
                 all[d_f.first] = d_f.second;
         }
-- 
2.43.0


From 4bce75f7f92751f7f564b5c4ff70b59538798ea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:35:45 +0000
Subject: [PATCH 21/36] fix: container bookkeeping at empty shapes, resizes,
 appends, stack overflow and report coordinates

---
 dal/math/matrix/matrixs.hpp     | 12 +++++++-----
 dal/math/matrix/matrixutils.cpp |  3 ++-
 dal/math/matrix/matrixutils.hpp | 20 ++++++++++----------
 dal/math/ndarray.cpp            |  5 +++--
 dal/math/ndarray.hpp            |  4 ++--
 dal/math/stacks.hpp             |  8 ++++++--
 dal/risk/report.cpp             | 23 +++++++++++++++++------
 7 files changed, 47 insertions(+), 28 deletions(-)

diff --git a/dal/math/matrix/matrixs.hpp b/dal/math/matrix/matrixs.hpp
index 0158b9b..6597828 100644
--- a/dal/math/matrix/matrixs.hpp
+++ b/dal/math/matrix/matrixs.hpp
@@ -54,7 +54,7 @@ namespace Dal {
             std::swap(hooks_, rhs.hooks_);
         }
 
-        Matrix_(Matrix_&& rhs) noexcept { swap(rhs); }
+        Matrix_(Matrix_&& rhs) noexcept : cols_(0) { swap(rhs); }
 
         Matrix_& operator=(Matrix_&& rhs) noexcept {
             if (this != &rhs) {
@@ -189,7 +189,7 @@ namespace Dal {
             [[nodiscard]] size_t size() const { return size_; }
             const E_& operator[](int row) const { return *(begin_.val_ + row * begin_.stride_); }
         };
-        ConstCol_ Col(int i_col) const { return ConstCol_(hooks_[0] + i_col, hooks_.size(), cols_); }
+        ConstCol_ Col(int i_col) const { return ConstCol_(hooks_.empty() ? I_() : hooks_[0] + i_col, hooks_.size(), cols_); }
 
         class Col_ : public ConstCol_ {
             using iterator = typename ConstCol_::iterator;
@@ -206,7 +206,7 @@ namespace Dal {
 
             using ConstCol_::size;
         };
-        Col_ Col(int i_col) { return Col_(hooks_[0] + i_col, hooks_.size(), cols_); }
+        Col_ Col(int i_col) { return Col_(vals_.begin() + i_col, hooks_.size(), cols_); }
 
         // POSTPONED -- sub-matrix
         void Swap(Matrix_<E_>* other) {
@@ -214,7 +214,7 @@ namespace Dal {
             vals_.Swap(&other->vals_);
             hooks_.Swap(&other->hooks_);
             std::swap(cols_, other->cols_);
-            REQUIRE(hooks_.front() == vals_.begin(), "hooks front should be same with vals begin");
+            REQUIRE(hooks_.empty() || hooks_.front() == vals_.begin(), "hooks front should be same with vals begin");
         }
 
         void Fill(const E_& val) { vals_.Fill(val); }
@@ -225,8 +225,10 @@ namespace Dal {
             const auto old_rows = hooks_.size();
             if (cols == cols_ && rows * old_rows > 0) {
                 vals_.Resize((rows + 1) * cols);
+                // what lay beyond the last common row is not part of the contents
+                std::fill(vals_.begin() + std::min<size_t>(rows, old_rows) * cols, vals_.end(), E_());
                 hooks_.Resize(rows);
-                SetHook(hooks_[0] == vals_.begin() ? old_rows : 0);
+                SetHook();
             } else {
                 const auto n_copy = std::min(cols, cols_);
                 cols_ = cols;
diff --git a/dal/math/matrix/matrixutils.cpp b/dal/math/matrix/matrixutils.cpp
index c7029c4..0102663 100644
--- a/dal/math/matrix/matrixutils.cpp
+++ b/dal/math/matrix/matrixutils.cpp
@@ -210,7 +210,7 @@ namespace Dal {
                 if (depth == 0)
                     break;
             }
-            return (ps == src.end() - 1 && *ps == ')') // parentheses wrap the whole thing
+            return (!src.empty() && ps == src.end() - 1 && *ps == ')') // parentheses wrap the whole thing
                        ? Strip(src.substr(1, src.size() - 2))
                        : src;
         }
@@ -228,6 +228,7 @@ namespace Dal {
         }
 
         Writer_* XNewWriter(const String_& format) {
+            REQUIRE(!format.empty(), "Format has an empty element");
             // POSTPONED -- should ':' and ';' have the same precedence?
             if (auto vr = MultipleWriter(format, ':', []() { return new VerticalWriter_(true); }))
                 return vr;
diff --git a/dal/math/matrix/matrixutils.hpp b/dal/math/matrix/matrixutils.hpp
index e45f315..57fbcbb 100644
--- a/dal/math/matrix/matrixutils.hpp
+++ b/dal/math/matrix/matrixutils.hpp
@@ -25,10 +25,10 @@ namespace Dal {
             REQUIRE(above != nullptr, "above matrix is null");
             const int offset = above->Rows();
             // efficient unless below is too wide
-            above->Resize(offset + below.Rows(), max(above->Cols(), below.Cols()));
+            above->Resize(offset + below.Rows(), std::max(above->Cols(), below.Cols()));
             for (int ir = 0; ir < below.Rows(); ++ir) {
-                auto t_row = above->Row(ir + offset);
-                Copy(below.Row(ir), &t_row);
+                const auto src = below.Row(ir);
+                std::copy(src.begin(), src.end(), above->Row(ir + offset).begin());
             }
         }
 
@@ -41,16 +41,16 @@ namespace Dal {
 
         // copy/transform all matrix elements; these functions all take advantage of the known layout of matrix!
         template <class E_> typename Matrix_<E_>::Row_::iterator BeginElements(Matrix_<E_>& m) {
-            return m.Row(0).begin();
+            return m.Rows() == 0 ? typename Matrix_<E_>::Row_::iterator() : m.Row(0).begin();
         }
         template <class E_> typename Matrix_<E_>::ConstRow_::const_iterator BeginElements(const Matrix_<E_>& m) {
-            return m.Row(0).begin();
+            return m.Rows() == 0 ? typename Matrix_<E_>::ConstRow_::const_iterator() : m.Row(0).begin();
         }
         template <class E_> typename Matrix_<E_>::Row_::iterator EndElements(Matrix_<E_>& m) {
-            return m.Row(m.Empty() ? 0 : m.Rows() - 1).end();
+            return m.Rows() == 0 ? BeginElements(m) : m.Row(m.Rows() - 1).end();
         }
         template <class E_> typename Matrix_<E_>::ConstRow_::const_iterator EndElements(const Matrix_<E_>& m) {
-            return m.Row(m.Empty() ? 0 : m.Rows() - 1).end();
+            return m.Rows() == 0 ? BeginElements(m) : m.Row(m.Rows() - 1).end();
         }
 
         template <class E_, class Op_> void Transform(Matrix_<E_>* container, Op_ op) {
@@ -71,12 +71,12 @@ namespace Dal {
         void Transform(const Matrix_<E1_>& in1, const Matrix_<E2_>& in2, Op_ op, Matrix_<EO_>* out) {
             assert(in1.Rows() == out->Rows() && in1.Cols() == out->Cols());
             assert(in2.Rows() == out->Rows() && in2.Cols() == out->Cols());
-            std::transform(in1.Row(0).begin(), EndElements(in1), in2.Row(0).begin(), out->Row(0).begin(), op);
+            std::transform(BeginElements(in1), EndElements(in1), BeginElements(in2), BeginElements(*out), op);
         }
 
         template <class ES_, class ED_> void Copy(const Matrix_<ES_>& src, Matrix_<ED_>* dst) {
             assert(dst && src.Rows() == dst->Rows() && src.Cols() == dst->Cols());
-            std::copy(src.Row(0).begin(), EndElements(src), dst->Row(0).begin());
+            std::copy(BeginElements(src), EndElements(src), BeginElements(*dst));
         }
         template <class E_, class Op_> auto Apply(Op_ op, const Matrix_<E_>& src) -> Matrix_<decltype(op(src(0, 0)))> {
             Matrix_<decltype(op(src(0, 0)))> ret_val(src.Rows(), src.Cols());
@@ -94,7 +94,7 @@ namespace Dal {
                 ragged ? *MaxElement(Apply([](const Vector_<E_>& v) { return v.size(); }, vv)) : vv[0].size();
             Matrix_<E_> ret_val(by_cols ? size2 : vv.size(), by_cols ? vv.size() : size2);
             for (int ii = 0; ii < vv.size(); ++ii) {
-                REQUIRE(quiet || ragged || vv[ii].size() == size2, "Invalid array sizing");
+                REQUIRE(vv[ii].size() == size2 || (vv[ii].size() < size2 && (quiet || ragged)), "Invalid array sizing");
                 if (by_cols)
                     copy(vv[ii].begin(), vv[ii].end(), ret_val.Col(ii).begin());
                 else
diff --git a/dal/math/ndarray.cpp b/dal/math/ndarray.cpp
index 3f96a34..556745d 100644
--- a/dal/math/ndarray.cpp
+++ b/dal/math/ndarray.cpp
@@ -23,7 +23,10 @@ namespace Dal::ArrayN {
         Vector_<int> mins = Apply(func, old_sizes, new_sizes);
         Vector_<int> loc(nd, 0);
         Vector_<pair<int, int>> ret_val;
+        if (std::any_of(mins.begin(), mins.end(), [](int n) { return n <= 0; }))
+            return ret_val; // nothing in common
         for (;;) {
+            ret_val.emplace_back(InnerProduct(loc, oldStrides), InnerProduct(loc, newStrides));
             int depth;
             for (depth = 0; depth < nd; ++depth) {
                 if (++loc[depth] < mins[depth])
@@ -32,8 +35,6 @@ namespace Dal::ArrayN {
             }
             if (depth == nd)
                 return ret_val;
-            ret_val.emplace_back(InnerProduct(loc, oldStrides), InnerProduct(loc, newStrides));
         }
-        return ret_val;
     }
 } // namespace Dal::ArrayN
\ No newline at end of file
diff --git a/dal/math/ndarray.hpp b/dal/math/ndarray.hpp
index a6049c7..6fb7c87 100644
--- a/dal/math/ndarray.hpp
+++ b/dal/math/ndarray.hpp
@@ -42,7 +42,7 @@ namespace Dal {
         // also allow Swap with a vector, iff we are effectively one-dimensional
         void Swap(Vector_<E_>* other) {
             auto pm = MaxElement(sizes_);
-            REQUIRE(*pm == vals_.size(), "Can't swap a vector with a multi-dimensional array");
+            REQUIRE(*pm == vals_.size() && (*pm > 0 || sizes_.size() == 1), "Can't swap a vector with a multi-dimensional array");
             vals_.Swap(other);
             int index = std::distance(sizes_.cbegin(), pm);
             *(sizes_.begin() + index) = vals_.size();
@@ -52,9 +52,9 @@ namespace Dal {
         // Resize() requires computation of element mapping; take it out-of-line
         void Resize(const Vector_<int>& new_sizes) {
             const Vector_<pair<int, int>>& moves = ArrayN::Moves(sizes_, new_sizes);
-            Vector_<E_> new_values(sizes_[0] * strides_[0], E_());
             sizes_ = new_sizes;
             strides_ = ArrayN::Strides(sizes_);
+            Vector_<E_> new_values(sizes_[0] * strides_[0], E_());
             for (const auto& move : moves)
                 new_values[move.second] = vals_[move.first];
             vals_.Swap(&new_values);
diff --git a/dal/math/stacks.hpp b/dal/math/stacks.hpp
index 991aae4..403440c 100644
--- a/dal/math/stacks.hpp
+++ b/dal/math/stacks.hpp
@@ -48,7 +48,7 @@ namespace Dal {
         Stack_& operator=(const Stack_& rhs) {
             if (this == &rhs)
                 return *this;
-            if (size_ < rhs.size_) {
+            if (size_ != rhs.size_) {
                 if (data_)
                     delete[] data_;
                 if (rhs.size_)
@@ -94,6 +94,10 @@ namespace Dal {
         FORCE_INLINE const_iterator end() const { return std::reverse_iterator<const E_*>(data_); }
 
         template <typename T_> void Push(T_&& value) {
+            if (!data_) {
+                size_ = 1;
+                data_ = new E_[size_];
+            }
             data_[sp_] = std::forward<T_>(value);
             ++sp_;
             if (sp_ >= size_) {
@@ -111,7 +115,7 @@ namespace Dal {
         FORCE_INLINE E_& operator[](const size_t i) { return data_[sp_ - 1 - i]; }
         FORCE_INLINE const E_& operator[](const size_t i) const { return data_[sp_ - 1 - i]; }
 
-        FORCE_INLINE E_ TopAndPop() { return std::move(data_[sp_--]); }
+        FORCE_INLINE E_ TopAndPop() { return std::move(data_[--sp_]); }
 
         FORCE_INLINE void Pop() { --sp_; }
         FORCE_INLINE void Pop(const size_t n) { sp_ -= n; }
diff --git a/dal/risk/report.cpp b/dal/risk/report.cpp
index a169500..b1f0f24 100644
--- a/dal/risk/report.cpp
+++ b/dal/risk/report.cpp
@@ -60,7 +60,7 @@ namespace Dal {
             NOTICE(a.name_);
             const int which = static_cast<int>(axes_.size()); // number which preceded it
             REQUIRE(a.size_ > 0 || which == 0, "Zero size is not allowed");
-            axes_[a.name_] = which;
+            REQUIRE(axes_.insert(std::make_pair(a.name_, which)).second, "Duplicate axis");
             strides_ *= a.size_;
             strides_.push_back(1);
             headers_[which].labels_ = a.labels_;
@@ -91,18 +91,28 @@ namespace Dal {
         return static_cast<int>(which > 0 ? strides_[which - 1] : vals_.size()) / strides_[which];
     }
 
+    namespace {
+        // only the first axis can be extended
+        bool IsValid(const Vector_<int>& locs, const Vector_<int>& strides) {
+            if (locs.size() != strides.size() || locs[0] < 0)
+                return false;
+            for (size_t ii = 1; ii < locs.size(); ++ii)
+                if (locs[ii] < 0 || locs[ii] >= strides[ii - 1] / strides[ii])
+                    return false;
+            return true;
+        }
+    } // namespace
+
     double& Report_::operator[](const Report::Address_& loc) {
-        assert(*MinElement(loc.locs_) >= 0);
+        REQUIRE(IsValid(loc.locs_, strides_), "Invalid index into report");
         const int which = InnerProduct(loc.locs_, strides_);
-        if (which >= vals_.size()) {
+        if (which >= vals_.size())
             vals_.resize((loc.locs_[0] + 1) * strides_[0]); // make it big enough by extending the first axis only
-            REQUIRE(which < vals_.size(), "Invalid index into report");
-        }
         return vals_[which];
     }
 
     const double& Report_::operator[](const Report::Address_& loc) const {
-        assert(*MinElement(loc.locs_) >= 0);
+        REQUIRE(IsValid(loc.locs_, strides_), "Invalid index into const report");
         const int which = InnerProduct(loc.locs_, strides_);
         REQUIRE(which < vals_.size(), "Invalid index into const report");
         return vals_[which];
@@ -132,6 +142,7 @@ namespace Dal {
         auto& [labels_, values_] = headers_[FindAxis(axes_, axes)];
         const auto n_labels = labels_.size();
         NOTICE(static_cast<int>(n_labels));
+        REQUIRE(offset >= 0, "Invalid header row");
         REQUIRE(values.size() == n_labels, "Wrong number (= " + ToString(static_cast<int>(values.size())) + " of labels");
         if (offset >= values_.Rows())
             values_.Resize(offset + 1, static_cast<int>(labels_.size()));
-- 
2.43.0


From aa7196efc437c7d4e9f7573316e429c99f15b6a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:46:50 +0000
Subject: [PATCH 22/36] fix: band, triangular, diagonal and Cholesky
 decompositions and exact starts of iterative solvers

---
 dal/math/matrix/banded.cpp             | 55 +++++++++++++-------------
 dal/math/matrix/bcg.cpp                |  4 ++
 dal/math/matrix/cholesky.cpp           | 14 +++++--
 dal/math/matrix/decompositionsmisc.cpp |  4 +-
 dal/math/matrix/sparse.hpp             |  1 +
 5 files changed, 47 insertions(+), 31 deletions(-)

diff --git a/dal/math/matrix/banded.cpp b/dal/math/matrix/banded.cpp
index 61f0307..7e1e430 100644
--- a/dal/math/matrix/banded.cpp
+++ b/dal/math/matrix/banded.cpp
@@ -15,6 +15,7 @@ namespace Dal {
 
         void TriMultiply(
             const Vector_<>& x, const Vector_<>& diag, const Vector_<>& above, const Vector_<>& below, Vector_<>* r) {
+            REQUIRE(r != &x, "no aliasing here");
             REQUIRE(x.size() == diag.size(), "");
             r->Resize(x.size());
             Transform(x, diag, std::multiplies<>(), r);
@@ -185,7 +186,7 @@ namespace Dal {
             x->Resize(n);
             for (int ii = n - 1; ii >= 0; --ii) {
                 double residual = b[ii];
-                for (int jj = max(n - 1, ii + val.nBelow_); jj > ii; --jj)
+                for (int jj = min(n - 1, ii + val.nBelow_); jj > ii; --jj)
                     residual -= (*x)[jj] * val(jj, ii);
                 REQUIRE(!IsZero(val(ii, ii)), "Overflow in banded L-solve");
                 (*x)[ii] = residual / val(ii, ii);
@@ -197,7 +198,7 @@ namespace Dal {
             BandElements_ val_;
 
         public:
-            explicit BandedCholesky_(const BandElements_& llt) : val_(llt.view_.Rows(), llt.nBelow_, 0) {
+            explicit BandedCholesky_(const BandElements_& llt) : val_(llt.view_.Rows(), 0, llt.nBelow_) {
                 static const double SMALL = 1.0e-11;
                 REQUIRE(llt.view_.Cols() == 2 * llt.nBelow_ + 1, "Cols should be 2 * n_below + 1");
                 const int n = llt.view_.Rows();
@@ -216,7 +217,8 @@ namespace Dal {
                             }
                         } else {
                             REQUIRE(residual > -SMALL, "Non-positive-definite matrix");
-                            val_.At(ii, ii) = std::sqrt(residual);
+                            // a pivot lost to rounding is zero, so that solves reject a singular matrix
+                            val_.At(ii, ii) = residual > Dal::EPSILON * llt(ii, ii) ? std::sqrt(residual) : 0.0;
                         }
                     }
                 }
@@ -283,7 +285,7 @@ namespace Dal {
                 const int n = Size();
                 const int width = max(val_.nBelow_, val_.view_.Cols() - val_.nBelow_ - 1);
                 for (int ii = 0; ii < n; ++ii) {
-                    for (int jj = max(0, ii - width); jj <= max(n - 1, ii + width); ++jj)
+                    for (int jj = max(0, ii - width); jj <= min(n - 1, ii + width); ++jj)
                         if (!IsZero(val_(ii, jj) - val_(jj, ii)))
                             return false;
                 }
@@ -348,34 +350,33 @@ namespace Dal {
 
     void LowerBandAccumulator_::Add(const Vector_<>& v_in, int offset) {
         REQUIRE(v_in.size() <= val_.Cols(), "Too many nonzero elements in v");
-        int iRow = static_cast<int>(v_in.size()) + offset;
-        REQUIRE(iRow < val_.Rows(), "V is too large");
+        int iRow = static_cast<int>(v_in.size()) + offset - 1; // row whose diagonal is the last element of v
+        REQUIRE(offset >= 0 && iRow < val_.Rows(), "V is too large");
 
-        Vector_<> v = v_in;
+        Vector_<> v = PadAtFront(v_in, min(iRow + 1, val_.Cols()));
         while (iRow >= 0) {
-            auto row = val_.Row(iRow);
-            if (AllOf(row, IsZero<double>)) {
-                std::copy(v.begin(), v.end(), row.end() - v.size());
-                break;
-            }
             if (AllOf(v, IsZero<double>))
                 break;
-            if (v.empty())
-                v = PadAtFront(v_in, min(iRow + 1, val_.Cols()));
-            const double r = std::sqrt(Square(v.back()) + Square(row.back()));
-            const double c = row.back() / r;
-            const double s = v.back() / r;
-
-            auto pr = row.begin() + static_cast<int>(row.size() - v.size());
-            for (auto pv = v.begin(); pv != v.end(); ++pv, ++pr) {
-                // rotation
-                const double save = *pr;
-                *pv = c * (*pv) - s * (*pr);
-                *pr = c * (*pr) + s * save;
+            if (!IsZero(v.back())) {
+                auto row = val_.Row(iRow);
+                if (AllOf(row, IsZero<double>)) {
+                    std::copy(v.begin(), v.end(), row.end() - v.size());
+                    break;
+                }
+                const double r = std::sqrt(Square(v.back()) + Square(row.back()));
+                const double c = row.back() / r;
+                const double s = v.back() / r;
+
+                auto pr = row.begin() + static_cast<int>(row.size() - v.size());
+                for (auto pv = v.begin(); pv != v.end(); ++pv, ++pr) {
+                    // rotation
+                    const double save = *pv;
+                    *pv = c * (*pv) - s * (*pr);
+                    *pr = c * (*pr) + s * save;
+                }
             }
-            ASSURE(IsZero(v.back()), "Back of v should be zero");
             --iRow;
-            if (iRow >= v.size())
+            if (iRow + 1 >= static_cast<int>(v.size()))
                 std::rotate(v.begin(), v.end() - 1, v.end());
             else
                 v.pop_back();
@@ -387,6 +388,6 @@ namespace Dal {
     }
 
     void LowerBandAccumulator_::SolveRight(const Vector_<>& b, Vector_<>* x) const {
-        BandedLSolve(BandElements_(val_, val_.Cols() - 1), b, x);
+        BandedLTransposeSolve(BandElements_(val_, val_.Cols() - 1), b, x);
     }
 } // namespace Dal
diff --git a/dal/math/matrix/bcg.cpp b/dal/math/matrix/bcg.cpp
index 4fedb85..aa8ff22 100644
--- a/dal/math/matrix/bcg.cpp
+++ b/dal/math/matrix/bcg.cpp
@@ -60,6 +60,8 @@ namespace Dal {
         Vector_<> p(n);
         A.MultiplyLeft(*x, &r);
         Transform(b, r, std::minus<>(), &r); // r = b - Ax
+        if (sqrt(InnerProduct(r, r)) <= tNorm)
+            return; // already solved
         double betaPrev;
         for (int ii = 0; ii < max_iterations; ++ii) {
             precondition.Left(r, &z);
@@ -99,6 +101,8 @@ namespace Dal {
         Transform(b, r, std::minus<>(), &r); // r = b - Ax
         rr = r;
 
+        if (sqrt(InnerProduct(r, r)) <= tNorm)
+            return; // already solved
         double betaPrev;
         for (int ii = 0; ii < max_iterations; ++ii) {
             precondition.Left(r, &z);
diff --git a/dal/math/matrix/cholesky.cpp b/dal/math/matrix/cholesky.cpp
index 75ab505..0310393 100644
--- a/dal/math/matrix/cholesky.cpp
+++ b/dal/math/matrix/cholesky.cpp
@@ -40,6 +40,12 @@ namespace Dal {
             SquareMatrix_<>* lower_;
             bool needKeep_;
 
+            // diagonal element of L; singular directions have none
+            [[nodiscard]] double Diag(int ii) const {
+                const double inv = (*lower_)(ii, ii);
+                return inv == 0.0 ? 0.0 : 1.0 / inv;
+            }
+
         public:
             explicit Cholesky_(const SquareMatrix_<>& src, SquareMatrix_<>* lower = nullptr, double regularization = Dal::EPSILON) {
                 if (lower) {
@@ -70,19 +76,21 @@ namespace Dal {
                 // multiply by L^T
                 for (int ii = 0; ii < n; ++ii) {
                     temp[ii] = std::inner_product(x.begin() + ii + 1, x.end(), lower_->Col(ii).begin() + ii + 1, 0.0);
-                    temp[ii] += x[ii] / (*lower_)(ii, ii);
+                    temp[ii] += x[ii] * Diag(ii);
                 }
 
                 // multiply by L
                 b->Resize(n);
                 for (int ii = 0; ii < n; ++ii) {
                     (*b)[ii] = std::inner_product(temp.begin(), temp.begin() + ii, lower_->Row(ii).begin(), 0.0);
-                    (*b)[ii] += temp[ii] / (*lower_)(ii, ii);
+                    (*b)[ii] += temp[ii] * Diag(ii);
                 }
             }
 
             void XSolve_af(const Vector_<>& b, Vector_<>* x) const override {
                 const int n = Size();
+                REQUIRE(b.size() == n, "Size should be compatible with b and the matrix");
+                x->Resize(n);
                 for (int ii = 0; ii < n; ++ii) {
                     (*x)[ii] = b[ii] - std::inner_product(x->begin(), x->begin() + ii, lower_->Row(ii).begin(), 0.0);
                     (*x)[ii] *= (*lower_)(ii, ii);
@@ -100,7 +108,7 @@ namespace Dal {
                 correlated->Resize(n);
                 for (int ii = 0; ii < n; ++ii) {
                     (*correlated)[ii] = std::inner_product(iid_begin, iid_begin + ii, lower_->Row(ii).begin(), 0.0);
-                    (*correlated)[ii] += *(iid_begin + ii) / (*lower_)(ii, ii);
+                    (*correlated)[ii] += *(iid_begin + ii) * Diag(ii);
                 }
                 return correlated->begin();
             }
diff --git a/dal/math/matrix/decompositionsmisc.cpp b/dal/math/matrix/decompositionsmisc.cpp
index ff0880e..79c938a 100644
--- a/dal/math/matrix/decompositionsmisc.cpp
+++ b/dal/math/matrix/decompositionsmisc.cpp
@@ -35,11 +35,13 @@ namespace Dal {
             [[nodiscard]] int Size() const override { return vals_.size(); }
 
             void XMultiply_af(const Vector_<> &x, Vector_<> *b) const override {
+                b->Resize(x.size());
                 Transform(x, vals_, std::multiplies<>(), b);
             }
 
             void XSolve_af(const Vector_<> &b, Vector_<> *x) const override {
                 NOTE("Dividing by diagonal matrix");
+                x->Resize(b.size());
                 Transform(b, vals_, ProtectedDivide_(), x);
             }
 
@@ -66,7 +68,7 @@ namespace Dal {
                 const int n = Size();
                 b->Resize(n);
                 for (int ii = 0; ii < n; ++ii)
-                    (*b)[ii] = std::inner_product(x.begin(), x.begin() + ii, vals_.Row(ii).begin(), 0.0);
+                    (*b)[ii] = std::inner_product(x.begin(), x.begin() + ii + 1, vals_.Row(ii).begin(), 0.0);
             }
 
             void XMultiplyRight_af(const Vector_<> &x, Vector_<> *b) const override {
diff --git a/dal/math/matrix/sparse.hpp b/dal/math/matrix/sparse.hpp
index fb3d90a..d46f18d 100644
--- a/dal/math/matrix/sparse.hpp
+++ b/dal/math/matrix/sparse.hpp
@@ -16,6 +16,7 @@ namespace Dal::Sparse {
 
     class Square_ : noncopyable {
     public:
+        virtual ~Square_() = default;
         [[nodiscard]] virtual int Size() const = 0;
         virtual void MultiplyLeft(const Vector_<>& x, Vector_<>* b) const = 0;
         virtual void MultiplyRight(const Vector_<>& x, Vector_<>* b) const = 0;
-- 
2.43.0


From ecf5a95686e47a04c79f6b8f77d058669cefd71a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:55:07 +0000
Subject: [PATCH 23/36] fix: constrained solver controls were never defined,
 undefined residuals accepted, root search and secant update at zero;
 smoothing couplings shifted

---
 dal/math/matrix/bcg.cpp                   | 8 ++++----
 dal/math/optimization/underdetermined.cpp | 6 ++++--
 dal/math/rootfind.cpp                     | 2 +-
 dal/math/smooth.cpp                       | 2 +-
 4 files changed, 10 insertions(+), 8 deletions(-)

diff --git a/dal/math/matrix/bcg.cpp b/dal/math/matrix/bcg.cpp
index aa8ff22..564dafc 100644
--- a/dal/math/matrix/bcg.cpp
+++ b/dal/math/matrix/bcg.cpp
@@ -60,8 +60,8 @@ namespace Dal {
         Vector_<> p(n);
         A.MultiplyLeft(*x, &r);
         Transform(b, r, std::minus<>(), &r); // r = b - Ax
-        if (sqrt(InnerProduct(r, r)) <= tNorm)
-            return; // already solved
+        if (InnerProduct(r, r) == 0.0)
+            return; // already solved, there is no direction to search
         double betaPrev;
         for (int ii = 0; ii < max_iterations; ++ii) {
             precondition.Left(r, &z);
@@ -101,8 +101,8 @@ namespace Dal {
         Transform(b, r, std::minus<>(), &r); // r = b - Ax
         rr = r;
 
-        if (sqrt(InnerProduct(r, r)) <= tNorm)
-            return; // already solved
+        if (InnerProduct(r, r) == 0.0)
+            return; // already solved, there is no direction to search
         double betaPrev;
         for (int ii = 0; ii < max_iterations; ++ii) {
             precondition.Left(r, &z);
diff --git a/dal/math/optimization/underdetermined.cpp b/dal/math/optimization/underdetermined.cpp
index 9df22aa..c62b189 100644
--- a/dal/math/optimization/underdetermined.cpp
+++ b/dal/math/optimization/underdetermined.cpp
@@ -15,7 +15,7 @@
 #include <dal/utilities/numerics.hpp>
 
 namespace Dal {
-#include <dal/auto/MG_UnderdeterminedControls_object.hpp>
+#include <dal/auto/MG_UnderdeterminedControls_object.inc>
 
     namespace Underdetermined {
         void Function_::Gradient(const Vector_<>& x, const Vector_<>& f, Matrix_<>* j) const {
@@ -71,6 +71,8 @@ namespace Dal {
             void SecantUpdate(const Vector_<>& dx, const Vector_<>& df) override {
                 const auto nf = df.size();
                 const double x2 = InnerProduct(dx, dx);
+                if (x2 == 0.0)
+                    return; // no step, nothing learnt
                 for (int ii = 0; ii < nf; ++ii) {
                     auto row = j_.Row(ii);
                     const double excess = df[ii] - InnerProduct(dx, row);
@@ -225,7 +227,7 @@ namespace Dal {
             for (int iBacktrack = 0; iBacktrack < controls.maxBacktrackTries_; ++iBacktrack) {
                 Transform(xOld, s, std::plus<>(), &xNew);
                 Vector_<> fNew = func.F(xNew);
-                if (*MaxElement(fNew) < 1.0 && *MinElement(fNew) > -1.0)
+                if (AllOf(fNew, [](double f) { return std::fabs(f) < 1.0; }))
                     return xNew;
 
                 const double oldOld = InnerProduct(fOld, fOld);
diff --git a/dal/math/rootfind.cpp b/dal/math/rootfind.cpp
index 25e90ae..994b756 100644
--- a/dal/math/rootfind.cpp
+++ b/dal/math/rootfind.cpp
@@ -36,7 +36,7 @@ namespace Dal {
         }
         double cDist = fabs(
             c_.first - (bisect_ ? b_.first : d_)); // d_ won't be used before it is set, because bisect_ is set at start
-        bisect_ = (s - b_.first) * (s - 0.75 * a_.first - 0.25 * b_.first) >= 0.0 || fabs(s - b_.first) > 0.5 * cDist ||
+        bisect_ = !((s - b_.first) * (s - 0.75 * a_.first - 0.25 * b_.first) < 0.0) || fabs(s - b_.first) > 0.5 * cDist ||
                   cDist < tol_;
         if (bisect_)
             s = 0.5 * (a_.first + b_.first);
diff --git a/dal/math/smooth.cpp b/dal/math/smooth.cpp
index e651fe9..2ba5daf 100644
--- a/dal/math/smooth.cpp
+++ b/dal/math/smooth.cpp
@@ -16,7 +16,7 @@ namespace Dal {
         REQUIRE(y.size() == n && n > 1, "y values size should be same with x and size should bigger than 1");
         Vector_<> coupling(n);
         for (int i = 1; i < n; ++i)
-            coupling[i] = lambda / std::max(x[i] - x[i-1], DX_MIN);
+            coupling[i - 1] = lambda / std::max(x[i] - x[i - 1], DX_MIN);
         coupling.back() = 0.0;
 
         Vector_<> beta(n), gamma(n);
-- 
2.43.0


From 6a3c68308982111e85184d51b96e08f9d380377b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:01:19 +0000
Subject: [PATCH 24/36] fix: interpolators, curves and smoothing accepted
 empty, mismatched or unordered data, and interpolation dropped the slope of
 differentiable numbers

---
 dal/curve/piecewiseconstant.cpp | 2 ++
 dal/curve/piecewiselinear.cpp   | 4 ++++
 dal/math/interp/interp.cpp      | 2 ++
 dal/math/interp/interp.hpp      | 2 +-
 dal/math/interp/interp2d.cpp    | 1 +
 dal/math/interp/interpcubic.cpp | 5 ++++-
 dal/math/smooth.cpp             | 1 +
 7 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/dal/curve/piecewiseconstant.cpp b/dal/curve/piecewiseconstant.cpp
index f9b064c..fe1e6a1 100644
--- a/dal/curve/piecewiseconstant.cpp
+++ b/dal/curve/piecewiseconstant.cpp
@@ -33,6 +33,8 @@ namespace Dal {
     }
 
     Vector_<> PiecewiseConstant_::Sofar() const {
+        REQUIRE(knotDates_.size() == fRight_.size(), "knot dates and values size should be same");
+        REQUIRE(IsMonotonic(knotDates_), "knot dates should be strictly increasing");
         Vector_<> retval(1, 0.0);
         for (int ii = 1; ii < knotDates_.size(); ++ii) {
             const double dt = knotDates_[ii] - knotDates_[ii - 1];
diff --git a/dal/curve/piecewiselinear.cpp b/dal/curve/piecewiselinear.cpp
index 869c32a..e359e4f 100644
--- a/dal/curve/piecewiselinear.cpp
+++ b/dal/curve/piecewiselinear.cpp
@@ -11,6 +11,10 @@
 
 namespace Dal {
     Vector_<> PiecewiseLinear_::Sofar() const {
+        REQUIRE(!knotDates_.empty(), "knot dates should not be empty");
+        REQUIRE(knotDates_.size() == fLeft_.size() && knotDates_.size() == fRight_.size(),
+                "knot dates and values size should be same");
+        REQUIRE(IsMonotonic(knotDates_), "knot dates should be strictly increasing");
         Vector_<> retval(1, 0.0);
         for (int ii = 1; ii < knotDates_.size(); ++ii) {
             const double dt = knotDates_[ii] - knotDates_[ii - 1];
diff --git a/dal/math/interp/interp.cpp b/dal/math/interp/interp.cpp
index 9387b6c..151e663 100644
--- a/dal/math/interp/interp.cpp
+++ b/dal/math/interp/interp.cpp
@@ -27,12 +27,14 @@ namespace {
 namespace Dal {
     Interp1Linear_::Interp1Linear_(const String_& name, const Vector_<>& x, const Vector_<>& f)
         : Interp1_(name), x_(x), f_(f) {
+        REQUIRE(!x_.empty(), "x_ array should not be empty");
         REQUIRE(x_.size() == f_.size(), "x_ size must be equal to f_ size");
         REQUIRE(IsMonotonic(x_, std::less_equal<>()), "x_ array should be monotonic");
     }
 
     Interp1Linear_::Interp1Linear_(const String_& name, const std::map<double, double>& f)
         : Interp1_(name), x_(Keys(f)), f_(MapValues(f)) {
+        REQUIRE(!x_.empty(), "x_ array should not be empty");
         REQUIRE(IsMonotonic(x_, std::less_equal<>()), "x_ array should be monotonic");
     }
 
diff --git a/dal/math/interp/interp.hpp b/dal/math/interp/interp.hpp
index f6f084f..817f9cf 100644
--- a/dal/math/interp/interp.hpp
+++ b/dal/math/interp/interp.hpp
@@ -39,7 +39,7 @@ namespace Dal {
         if (pge == x.begin() || IsZero(x0 - *pge))
             return y[pge - x.begin()];
         auto plt = Previous(pge);
-        const auto gFrac = static_cast<double>((x0 - *plt) / (*pge - *plt));
+        const T_ gFrac = (x0 - *plt) / (*pge - *plt);
         auto flt = y.begin() + (plt - x.begin());
         return *flt + gFrac * (*Next(flt) - *flt);
     }
diff --git a/dal/math/interp/interp2d.cpp b/dal/math/interp/interp2d.cpp
index 0fc6c1d..a8ecc4c 100644
--- a/dal/math/interp/interp2d.cpp
+++ b/dal/math/interp/interp2d.cpp
@@ -27,6 +27,7 @@ namespace {
 namespace Dal {
     Interp2Linear_::Interp2Linear_(const String_& name, const Vector_<>& x, const Vector_<>& y, const Matrix_<>& f)
         : Interp2_(name), x_(x), y_(y), f_(f) {
+        REQUIRE(!x_.empty() && !y_.empty(), "x_, y_ array should not be empty");
         REQUIRE((x_.size() == f_.Rows()) && (y_.size() == f_.Cols()), "x_, y_ size must be equal to f_ size");
         REQUIRE(IsMonotonic(x_, std::less_equal<>()), "x_ array should be monotonic");
         REQUIRE(IsMonotonic(y_, std::less_equal<>()), "y_ array should be monotonic");
diff --git a/dal/math/interp/interpcubic.cpp b/dal/math/interp/interpcubic.cpp
index 0bf598a..b128da4 100644
--- a/dal/math/interp/interpcubic.cpp
+++ b/dal/math/interp/interpcubic.cpp
@@ -42,7 +42,10 @@ namespace Dal {
                     const Interp::Boundary_& rhs);
 
             Cubic1_(const String_& name, const Vector_<>& x, const Vector_<>& f, const Vector_<>& fpp)
-                : Interp1_(name), x_(x), f_(f), fpp_(fpp) {}
+                : Interp1_(name), x_(x), f_(f), fpp_(fpp) {
+                REQUIRE(x_.size() > 1 && IsMonotonic(x_), "x size should be greater than 1 and monotonic");
+                REQUIRE(x_.size() == f_.size() && x_.size() == fpp_.size(), "x, f and fpp size should be same");
+            }
 
             void Write(Archive::Store_& dst) const override;
         };
diff --git a/dal/math/smooth.cpp b/dal/math/smooth.cpp
index 2ba5daf..7b6b2cc 100644
--- a/dal/math/smooth.cpp
+++ b/dal/math/smooth.cpp
@@ -14,6 +14,7 @@ namespace Dal {
         REQUIRE(IsMonotonic(x, std::less_equal<double>()), "x values should monotonic ascending");
         const int n = x.size();
         REQUIRE(y.size() == n && n > 1, "y values size should be same with x and size should bigger than 1");
+        REQUIRE(weight.empty() || weight.size() == n, "weight size should be same with x");
         Vector_<> coupling(n);
         for (int i = 1; i < n; ++i)
             coupling[i - 1] = lambda / std::max(x[i] - x[i - 1], DX_MIN);
-- 
2.43.0


From 8a0bfdf15c4de3dc66f73356b26768b1fa2709bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:35:07 +0000
Subject: [PATCH 25/36] fix: stored objects lost characters, digits, types or
 sharing in JSON and tables, and malformed ones were accepted or crashed

---
 dal/math/random/pseudorandom.hpp |   3 +
 dal/risk/report.cpp              |  11 ++-
 dal/storage/archive.hpp          |   3 +
 dal/storage/json.cpp             | 152 ++++++++++++++++++++++---------
 dal/storage/splat.cpp            | 147 ++++++++++++++++++++++--------
 5 files changed, 237 insertions(+), 79 deletions(-)

diff --git a/dal/math/random/pseudorandom.hpp b/dal/math/random/pseudorandom.hpp
index 25d61bb..bce6365 100644
--- a/dal/math/random/pseudorandom.hpp
+++ b/dal/math/random/pseudorandom.hpp
@@ -4,6 +4,7 @@
 
 #pragma once
 
+#include <cmath>
 #include <dal/storage/archive.hpp>
 #include <dal/math/random/base.hpp>
 #include <dal/math/vectors.hpp>
@@ -62,6 +63,8 @@ namespace Dal {
     public:
         PseudoRSG_(const String_& name, double seed, double ndim = 1, bool precise = false)
         : Storable_("PseudoRSG", name), seed_(seed), ndim_(ndim), precise_(precise) {
+            REQUIRE(std::fabs(seed) < 2147483647. && seed == std::floor(seed), "seed must be an integer");
+            REQUIRE(ndim >= 1. && ndim < 2147483647. && ndim == std::floor(ndim), "dimension must be a positive integer");
             rsg_.reset(New(RNGType_(name), static_cast<int>(seed), static_cast<size_t>(ndim), precise));
         }
         void Write(Archive::Store_& dst) const override;
diff --git a/dal/risk/report.cpp b/dal/risk/report.cpp
index b1f0f24..99e8bb0 100644
--- a/dal/risk/report.cpp
+++ b/dal/risk/report.cpp
@@ -30,6 +30,14 @@ namespace Dal {
 
         Storable_* Report_v1::Reader_::Build() const {
             const auto n = sizes_.size();
+            REQUIRE(axis_names_.size() == n, "Each axis must have a size");
+            REQUIRE(header_labels_.size() == n && header_values_.size() == n, "Each axis must have a header");
+            double n_vals = 1.0;
+            for (const auto& size : sizes_) {
+                REQUIRE(size >= 0, "Sizes can't be negative");
+                n_vals *= size;
+            }
+            REQUIRE(n_vals == vals_.size(), "Values size does not match the axes");
             Vector_<Report::Axis_> axes(n);
             for (auto ii = 0; ii < n; ++ii) {
                 axes[ii].size_ = sizes_[ii];
@@ -42,8 +50,9 @@ namespace Dal {
             for (auto jj = 0; jj < n; ++jj) {
                 const auto& vals = header_values_[jj];
                 Vector_<Cell_> temp(header_labels_[jj].size());
+                REQUIRE(vals.Cols() <= temp.size(), "Header values must have a column per label");
                 for (int kr = 0; kr < vals.Rows(); ++kr) {
-                    Copy(vals.Row(kr), &temp);
+                    std::copy(vals.Row(kr).begin(), vals.Row(kr).end(), temp.begin());
                     retval->AddHeaderRow(axis_names_[jj], kr, temp);
                 }
             }
diff --git a/dal/storage/archive.hpp b/dal/storage/archive.hpp
index 95bfa6f..27ebc56 100644
--- a/dal/storage/archive.hpp
+++ b/dal/storage/archive.hpp
@@ -27,6 +27,8 @@ namespace Dal::Archive {
         virtual Store_& Child(const String_& name) = 0;
         Store_& Element(int index); // just converts to String_ name and gets a child
 
+        virtual Store_& operator=(bool val) = 0;
+        virtual Store_& operator=(int val) = 0;
         virtual Store_& operator=(double val) = 0;
         virtual Store_& operator=(const String_& val) = 0;
         virtual Store_& operator=(const Date_& val) = 0;
@@ -98,6 +100,7 @@ namespace Dal::Archive {
             Handle_<Storable_> object = Extract(src, share_);
             NOTICE2("Expected type", type_);
             Handle_<T_> ret_val = handle_cast<T_>(object);
+            REQUIRE(ret_val, "Object has the wrong type");
             return ret_val;
         }
     };
diff --git a/dal/storage/json.cpp b/dal/storage/json.cpp
index 1d2379f..cda7221 100644
--- a/dal/storage/json.cpp
+++ b/dal/storage/json.cpp
@@ -2,6 +2,8 @@
 // Created by wegam on 2023/1/21.
 //
 
+#include <cmath>
+#include <cstring>
 #include <fstream>
 #include <sstream>
 #include <regex>
@@ -25,6 +27,7 @@ namespace Dal {
     namespace {
         const char* TYPE_LABEL = "~type";
         const char* TAG_LABEL = "$tag";
+        const char* ROWS_LABEL = "rows";
         const char* COLS_LABEL = "cols";
         const char* VALS_LABEL = "vals";
         using element_t = rapidjson::GenericValue<rapidjson::UTF8<>>;
@@ -33,11 +36,49 @@ namespace Dal {
         rapidjson::GenericStringRef<char> LendToJSON(const String_& s) {
             return rapidjson::GenericStringRef<char>(s.c_str(), static_cast<int>(s.size()));
         }
+        const char* TEXT_LABEL = "~text";
+        const unsigned PARSE_FLAGS = rapidjson::kParseFullPrecisionFlag | rapidjson::kParseNanAndInfFlag | rapidjson::kParseIterativeFlag;
+
+        bool LooksLikeDate(const std::string& src) {
+            static const std::regex DATE_PATTERN("\\d{4}-\\d{2}-\\d{2}");
+            return std::regex_match(src, DATE_PATTERN);
+        }
+        bool LooksLikeDateTime(const std::string& src) {
+            static const std::regex DATE_TIME_PATTERN("\\d{4}-\\d{2}-\\d{2} \\d{2}:\\d{2}:\\d{2}");
+            return std::regex_match(src, DATE_TIME_PATTERN);
+        }
+
         // WRITE interface
         // given up on rapidjson, think it is simple enough to just stream out
-        // POSTPONED -- add a template parameter determining the checking strategy for funny characters inside strings
-        // this simple implementation just assumes there are none (fastest)
-        // could have one that wraps, one that errors
+        void WriteQuoted(std::ostream& dst, const String_& src) {
+            dst << '"';
+            for (const char c : src) {
+                if (c == '"' || c == '\\')
+                    dst << '\\' << c;
+                else if (static_cast<unsigned char>(c) < 0x20) {
+                    char code[8];
+                    snprintf(code, sizeof(code), "\\u%04x", static_cast<unsigned>(c));
+                    dst << code;
+                } else
+                    dst << c;
+            }
+            dst << '"';
+        }
+
+        // enough digits to read back the same number, always recognizable as floating point
+        void WriteNumber(std::ostream& dst, double val) {
+            if (std::isnan(val))
+                dst << "NaN";
+            else if (std::isinf(val))
+                dst << (val > 0 ? "Infinity" : "-Infinity");
+            else {
+                char digits[40];
+                snprintf(digits, sizeof(digits), "%.17g", val);
+                dst << digits;
+                if (!strpbrk(digits, ".e"))
+                    dst << ".0";
+            }
+        }
 
         struct XDocStore_ : Archive::Store_ {
             std::ostream& dst_;
@@ -89,19 +130,19 @@ namespace Dal {
 
             // store atoms
             XDocStore_& operator=(double val) override {
-                dst_ << String::FromDouble(val);
+                WriteNumber(dst_, val);
                 return *this;
             }
 
-            XDocStore_& operator=(int val) {
-                dst_ << String::FromDouble(val);
+            XDocStore_& operator=(int val) override {
+                dst_ << val;
                 return *this;
             }
-            XDocStore_& operator=(bool val) {
+            XDocStore_& operator=(bool val) override {
                 dst_ << String::FromBool(val);
                 return *this;
             }
-            XDocStore_& operator=(const String_& val) override { dst_ << "\"" << val << "\""; return *this; }
+            XDocStore_& operator=(const String_& val) override { WriteQuoted(dst_, val); return *this; }
             XDocStore_& operator=(const Date_& val) override { return operator=(Date::ToString(val)); }
             XDocStore_& operator=(const DateTime_& val) override { return operator=(DateTime::ToString(val)); }
             XDocStore_& operator=(const Cell_& c) {
@@ -111,15 +152,24 @@ namespace Dal {
                     return operator=(Cell::ToDate(c));
                 else if (Cell::IsDateTime(c))
                     return operator=(Cell::ToDateTime(c));
-                else if (Cell::IsString(c))
-                    return operator=(Cell::ToString(c));
+                else if (Cell::IsString(c)) {
+                    const String_ text = Cell::ToString(c);
+                    const std::string plain(text.begin(), text.end());
+                    if (!LooksLikeDate(plain) && !LooksLikeDateTime(plain))
+                        return operator=(text);
+                    dst_ << "{\"" << TEXT_LABEL << "\": "; // keep it apart from a date
+                    WriteQuoted(dst_, text);
+                    dst_ << "}";
+                    return *this;
+                }
                 else if (Cell::IsDouble(c))
                     return operator=(Cell::ToDouble(c));
                 else if (Cell::IsInt(c))
                     return operator=(Cell::ToInt(c));
-                else if (Cell::IsEmpty(c))
-                    return operator=(String_());
-                else
+                else if (Cell::IsEmpty(c)) {
+                    dst_ << "null";
+                    return *this;
+                } else
                     THROW("Internal error -- unhandled cell type");
             }
 
@@ -170,19 +220,9 @@ namespace Dal {
                 ret_val[ii] = extract(doc[ii]);
             return ret_val;
         }
-        // create matrix from vector of values
-        template <class E_> Matrix_<E_> AsMatrix(int cols, const Vector_<E_>& vals) {
-            REQUIRE(cols > 0 && !(vals.size() % cols), "Invalid number of matrix columns");
-            const int rows = vals.size() / cols;
-            Matrix_<E_> ret_val(rows, cols);
-            for (int ir = 0; ir < rows; ++ir)
-                std::copy(vals.begin() + ir * cols, vals.begin() + (ir + 1) * cols, ret_val.Row(ir).begin());
-            return ret_val;
-        }
-
         // need checked access at every level -- support with "E" element-extractors
         double EDouble(const element_t& doc) {
-            REQUIRE(doc.IsDouble() || doc.IsInt(), "Can't get a numeric value");
+            REQUIRE(doc.IsNumber(), "Can't get a numeric value");
             return doc.GetDouble();
         }
         int EInt(const element_t& doc) {
@@ -195,7 +235,7 @@ namespace Dal {
         }
         String_ EString(const element_t& doc) {
             REQUIRE(doc.IsString(), "Can't get a string value");
-            return String_(doc.GetString());
+            return String_(doc.GetString(), doc.GetString() + doc.GetStringLength());
         }
         Date_ EDate(const element_t& doc) { // worrying about efficiency, so storing dates as Excel-compatible integers
             if (doc.IsInt())
@@ -216,26 +256,48 @@ namespace Dal {
             THROW("Can't get a datetime value");
         }
         Cell_ ECell(const element_t& doc) {
-            static const std::regex DATE_PATTERN("\\d{4}-\\d{2}-\\d{2}");
-            static const std::regex DATE_TIME_PATTERN("\\d{4}-\\d{2}-\\d{2} \\d{2}:\\d{2}:\\d{2}");
-            if (doc.IsDouble())
+            if (doc.IsNumber())
                 return Cell_(doc.GetDouble());
             if (doc.IsBool())
                 return Cell_(doc.GetBool());
             if (doc.IsString()) {
-                const std::string src = doc.GetString();
-                if (std::regex_match(src, DATE_PATTERN))
+                const std::string src(doc.GetString(), doc.GetStringLength());
+                if (LooksLikeDate(src))
                     return Cell_(Date::FromString(String_(src)));
-                else if (std::regex_match(src, DATE_TIME_PATTERN))
+                else if (LooksLikeDateTime(src))
                     return Cell_(DateTime::FromString(String_(src)));
                 else
                     return Cell_(String_(src));
             }
+            if (doc.IsObject() && doc.HasMember(TEXT_LABEL))
+                return Cell_(EString(doc[TEXT_LABEL]));
             if (doc.IsNull())
                 return Cell_();
             THROW("Invalid cell type");
         }
 
+        element_t& EMember(element_t& doc, const char* name) {
+            REQUIRE(doc.IsObject() && doc.HasMember(name), String_("Can't find child '") + name + "'");
+            return doc[name];
+        }
+        // create matrix from vector of values
+        template <class E_> auto AsMatrix(element_t& doc, const E_& extract) {
+            const int cols = EInt(EMember(doc, COLS_LABEL));
+            const auto vals = AsVector(EMember(doc, VALS_LABEL), extract);
+            const int n = static_cast<int>(vals.size());
+            REQUIRE(cols > 0 ? !(n % cols) : cols == 0 && n == 0, "Invalid number of matrix columns");
+            int rows = cols > 0 ? n / cols : 0;
+            if (doc.HasMember(ROWS_LABEL)) { // needed only to tell how many rows an empty matrix has
+                const int given = EInt(doc[ROWS_LABEL]);
+                REQUIRE(given >= 0 && (cols == 0 || given == rows), "Invalid number of matrix rows");
+                rows = given;
+            }
+            Matrix_<decltype(extract(doc))> ret_val(rows, cols);
+            for (int ir = 0; ir < rows; ++ir)
+                std::copy(vals.begin() + ir * cols, vals.begin() + (ir + 1) * cols, ret_val.Row(ir).begin());
+            return ret_val;
+        }
+
         // JSON reader based on RapidJSON DOM interface
         struct XDocView_ : Archive::View_ {
             element_t& doc_; // may be shared
@@ -251,13 +313,17 @@ namespace Dal {
                 return String_();
             }
             String_ Tag() const {
-                if (doc_.HasMember(TAG_LABEL))
+                if (HasChild(TAG_LABEL))
                     return EString(doc_[TAG_LABEL]);
                 return String_();
             }
             Handle_<Storable_>& Known(Archive::Built_& built) const override // returns a reference within 'built'
             {
-                return built.known_[Tag()];
+                const String_ tag = Tag();
+                auto& ret_val = built.known_[tag];
+                if (tag.empty())
+                    ret_val.reset(); // not shared with any other object
+                return ret_val;
             }
 
             // direct storage of atoms
@@ -280,23 +346,23 @@ namespace Dal {
             //		the matrix has a child "cols" that gives the number of columns
             //		and a child "vals" that gives all the values, scanning each row in turn
             Matrix_<> AsDoubleMatrix() const override {
-                return AsMatrix(EInt(doc_[COLS_LABEL]), AsVector(doc_[VALS_LABEL], EDouble));
+                return AsMatrix(doc_, EDouble);
             }
             Matrix_<String_> AsStringMatrix() const override {
-                return AsMatrix(EInt(doc_[COLS_LABEL]), AsVector(doc_[VALS_LABEL], EString));
+                return AsMatrix(doc_, EString);
             }
             Matrix_<Cell_> AsCellMatrix() const override {
-                return AsMatrix(EInt(doc_[COLS_LABEL]), AsVector(doc_[VALS_LABEL], ECell));
+                return AsMatrix(doc_, ECell);
             }
 
             // object query interface
             String_ Type() const override {
-                if (doc_.HasMember(TYPE_LABEL))
+                if (HasChild(TYPE_LABEL))
                     return EString(doc_[TYPE_LABEL]);
                 return String_();
             }
-            element_t& XChild(const String_& name) const { return doc_[name.c_str()]; }
-            bool HasChild(const String_& name) const override { return doc_.HasMember(name.c_str()); }
+            element_t& XChild(const String_& name) const { return EMember(doc_, name.c_str()); }
+            bool HasChild(const String_& name) const override { return doc_.IsObject() && doc_.HasMember(name.c_str()); }
             const View_& Child(const String_& name) const override {
                 Handle_<XDocView_>& ret_val = children_[name];
                 if (ret_val.IsEmpty())
@@ -311,7 +377,8 @@ namespace Dal {
     Handle_<Storable_> JSON::ReadString(const String_& src, bool quiet) {
         NOTE("Extracting object from JSON string");
         rapidjson::Document doc;
-        doc.Parse<rapidjson::kParseDefaultFlags>(src.c_str());
+        doc.Parse<PARSE_FLAGS>(src.c_str(), src.size());
+        REQUIRE(!doc.HasParseError(), "Not a valid JSON text");
         XDocView_ task(doc);
         Archive::Built_ built;
         return Archive::Extract(task, built);
@@ -323,8 +390,9 @@ namespace Dal {
         char buffer[8192];
         rapidjson::FileReadStream is(fp, buffer, sizeof(buffer));
         rapidjson::Document doc;
-        doc.ParseStream<rapidjson::kParseDefaultFlags>(is);
+        doc.ParseStream<PARSE_FLAGS>(is);
         fclose(fp);
+        REQUIRE(!doc.HasParseError(), "Not a valid JSON text");
         XDocView_ task(doc);
         Archive::Built_ built;
         return Archive::Extract(task, built);
@@ -335,6 +403,8 @@ namespace Dal {
         std::map<const Storable_*, String_> tags;
         XDocStore_ task(dst, tags, nullptr, String_());
         object.Write(task);
+        dst.close();
+        REQUIRE(dst, "Can't write file '" + filename + "'");
     }
 
     String_ JSON::WriteString(const Storable_& object) {
diff --git a/dal/storage/splat.cpp b/dal/storage/splat.cpp
index e6eedfc..9b9001a 100644
--- a/dal/storage/splat.cpp
+++ b/dal/storage/splat.cpp
@@ -3,6 +3,7 @@
 //
 
 #include <algorithm>
+#include <cstring>
 #include <map>
 #include <dal/platform/platform.hpp>
 #include <dal/platform/strict.hpp>
@@ -37,7 +38,7 @@ namespace Dal {
             explicit XSplat_(map<const Storable_*, String_>& shared_tags) : sharedTags_(shared_tags) {}
 
             int Rows() const {
-                REQUIRE(type_.empty() == children_.empty(), "children type status should be same");
+                REQUIRE(!type_.empty() || children_.empty(), "children must belong to an object");
                 if (!val_.Empty()) {
                     REQUIRE(type_.empty(), "");
                     return val_.Rows();
@@ -45,21 +46,21 @@ namespace Dal {
                 int ret_val = 0;
                 for (const auto& c : children_)
                     ret_val += c.second->Rows();
-                return ret_val;
+                return max(1, ret_val); // something without contents still has a row
             }
 
             int Cols() const {
-                if (!val_.Empty())
+                if (type_.empty())
                     return val_.Cols();
                 int ret_val = 0;
                 for (const auto& c : children_)
-                    ret_val += max(ret_val, c.second->Cols());
+                    ret_val = max(ret_val, c.second->Cols());
                 return 2 + ret_val;
             }
 
             void Write(Matrix_<Cell_>& dst, int row_offset, int col_offset) const {
-                if (!val_.Empty()) {
-                    for (int ir = 0; ir < val_.Rows(); ++ir)
+                if (type_.empty()) {
+                    for (int ir = 0; ir < val_.Rows() && !val_.Empty(); ++ir)
                         copy(val_.Row(ir).begin(), val_.Row(ir).end(), dst.Row(ir + row_offset).begin() + col_offset);
                 } else {
                     dst(row_offset, col_offset) = tag_ + OBJECT_PREFACE + type_;
@@ -111,6 +112,8 @@ namespace Dal {
                 }
             }
 
+            XSplat_& operator=(bool b) override { SetScalar(b); return *this; }
+            XSplat_& operator=(int i) override { SetScalar(i); return *this; }
             XSplat_& operator=(double d) override { SetScalar(d); return *this; }
             XSplat_& operator=(const Date_& d) override { SetScalar(d); return *this; }
             XSplat_& operator=(const DateTime_& d) override { SetScalar(d); return *this; }
@@ -157,7 +160,7 @@ namespace Dal {
 
         int ExtractInt(const Cell_& src) {
             const auto d = ExtractDouble(src);
-            int ret_val = static_cast<int>(d);
+            int ret_val = AsInt(d);
             REQUIRE(ret_val == d, "Non-integer value not expected");
             return ret_val;
         }
@@ -225,7 +228,14 @@ namespace Dal {
             XUnSplat_(const Matrix_<Cell_>& data, int row_start, int row_stop, int col_start, bool quiet)
                 : data_(data), rowStart_(row_start), rowStop_(row_stop), colStart_(col_start), quiet_(quiet) {}
 
+            // a sheet does not show empty cells at the end of a row
+            bool IsBlank(int row, int col) const {
+                return row >= data_.Rows() || col >= data_.Cols() || std::holds_alternative<std::monostate>(data_(row, col).val_);
+            }
+
             String_ Type() const override {
+                if (IsBlank(rowStart_, colStart_))
+                    return {};
                 const Cell_& c = data_(rowStart_, colStart_);
                 if (auto p = std::get_if<String_>(&c.val_))
                     if (auto pt = p->find(OBJECT_PREFACE); pt != String_::npos)
@@ -234,6 +244,8 @@ namespace Dal {
             }
 
             String_ Tag() const {
+                if (IsBlank(rowStart_, colStart_))
+                    return {};
                 const Cell_& c = data_(rowStart_, colStart_);
                 if (auto p = std::get_if<String_>(&c.val_); p && p->substr(0, TAG_PREFACE.size()) == TAG_PREFACE)
                     return p->substr(0, p->find(OBJECT_PREFACE));
@@ -259,7 +271,8 @@ namespace Dal {
             bool HasChild(const String_& name) const override {
                 REQUIRE(!Type().empty(), "Can't be a empty view");
                 const auto nameCol = colStart_ + 1;
-                REQUIRE(nameCol < data_.Cols(), "Can't have a child");
+                if (nameCol >= data_.Cols())
+                    return false;
                 for (auto ir = rowStart_; ir < rowStop_; ++ir) {
                     if (data_(ir, nameCol) == name) {
                         return true;
@@ -272,10 +285,17 @@ namespace Dal {
                 REQUIRE(quiet_, "Unexpected child '" + child_name + "'; aborting");
             }
 
+            int RowStop(int row) const {
+                int ret_val = data_.Cols();
+                while (ret_val > colStart_ && IsBlank(row, ret_val - 1))
+                    --ret_val;
+                return max(ret_val, min(colStart_, data_.Cols()));
+            }
+
             const Cell_& GetScalar() const {
                 REQUIRE(rowStop_ == rowStart_ + 1, "Can't get a scalar value from a multi-line entry");
-                REQUIRE(colStart_ == data_.Cols() - 1 || Cell::IsEmpty(data_(rowStart_, colStart_ + 1)),
-                        "Can't get a scalar value from a multi-row entry");
+                REQUIRE(!IsBlank(rowStart_, colStart_), "Can't get a scalar value from an empty entry");
+                REQUIRE(RowStop(rowStart_) == colStart_ + 1, "Can't get a scalar value from a multi-row entry");
                 return data_(rowStart_, colStart_);
             }
 
@@ -293,10 +313,8 @@ namespace Dal {
 
             pair<Matrix_<Cell_>::Row_::const_iterator, Matrix_<Cell_>::Row_::const_iterator> VectorRange() const {
                 REQUIRE(rowStop_ == rowStart_ + 1, "Can't get a vector value from a multi-line entry");
-                int colStop = colStart_ + 1;
-                while (colStop < data_.Cols() && !Cell::IsEmpty(data_(rowStart_, colStop)))
-                    ++colStop;
-                return make_pair(data_.Row(rowStart_).begin() + colStart_, data_.Row(rowStart_).begin() + colStop);
+                const int colStop = RowStop(rowStart_);
+                return make_pair(data_.Row(rowStart_).begin() + min(colStart_, colStop), data_.Row(rowStart_).begin() + colStop);
             }
 
             Vector_<> AsDoubleVector() const override { return TranslateRange(VectorRange(), ExtractDouble); }
@@ -310,21 +328,15 @@ namespace Dal {
             Vector_<Cell_> AsCellVector() const override { return TranslateRange(VectorRange(), Identity_<Cell_>()); }
 
             int MatrixStop() const {
-                for (int ret_val = colStart_ + 1;;) {
-                    for (int ir = rowStart_;; ++ir) {
-                        if (ir == rowStop_)
-                            return ret_val; // found an empty column
-                        else if (!Cell::IsEmpty(data_(ir, ret_val)))
-                            break; // column is not empty
-                    }
-                    if (++ret_val == data_.Cols())
-                        return ret_val;
-                }
+                int ret_val = colStart_;
+                for (int ir = rowStart_; ir < rowStop_; ++ir)
+                    ret_val = max(ret_val, RowStop(ir));
+                return ret_val;
             }
             template <class F_> auto TranslateMatrix(int col_stop, F_ translate) const {
                 Matrix_<VALUE_TYPE_OF(translate(data_(0, 0)))> ret_val;
                 ret_val.Resize(rowStop_ - rowStart_, col_stop - colStart_);
-                for (int ir = rowStart_; ir < rowStop_; ++ir)
+                for (int ir = rowStart_; ir < rowStop_ && col_stop > colStart_; ++ir)
                     transform(data_.Row(ir).begin() + colStart_, data_.Row(ir).begin() + col_stop,
                               ret_val.Row(ir - rowStart_).begin(), translate);
                 return ret_val;
@@ -345,19 +357,38 @@ namespace Dal {
                 return ret_val;
             }
 
-            Handle_<Storable_>& Known(Archive::Built_& built) const override { return built.known_[Tag()]; }
+            Handle_<Storable_>& Known(Archive::Built_& built) const override {
+                const String_ tag = Tag();
+                auto& ret_val = built.known_[tag];
+                if (tag.empty())
+                    ret_val.reset(); // not shared with any other object
+                return ret_val;
+            }
         };
 
+        // yyyy-mm-dd, or yyyy-mm-dd hh:mm:ss
+        bool HasShape(const String_& content, const char* shape) {
+            return content.size() == strlen(shape) && std::equal(content.begin(), content.end(), shape, [](char c, char s) {
+                return s == '0' ? c >= '0' && c <= '9' : c == s;
+            });
+        }
+        bool LooksLikeDate(const String_& content) { return HasShape(content, "0000-00-00"); }
+        bool LooksLikeDateTime(const String_& content) { return HasShape(content, "0000-00-00 00:00:00"); }
+
         Cell_ AsCell(const String_& content) {
             if (content.empty())
                 return Cell_();
-            else if (content.front() == '=' && content.back() == '=')
-                return Cell_(content.substr(1, content.size() - 2));
+            else if (content.size() > 1 && content.front() == '=' && content.back() == '=')
+                return Cell_(String_(content.substr(1, content.size() - 2)));
             else if (content == "TRUE")
                 return Cell_(true);
             else if (content == "FALSE")
                 return Cell_(false);
-            else if (content.find_first_not_of("0123456789.eE+-") == String_::npos) {
+            else if (LooksLikeDate(content))
+                return Cell_(Date::FromString(content));
+            else if (LooksLikeDateTime(content))
+                return Cell_(DateTime::FromString(content));
+            else if (content.find_first_not_of("0123456789.eE+-infa") == String_::npos) {
                 char* e;
                 double ret_val = std::strtod(content.c_str(), &e);
                 if (!*e)
@@ -366,20 +397,60 @@ namespace Dal {
             return Cell_(content);
         }
 
+        // the inverse of AsCell
+        String_ AsText(const Cell_& cell) {
+            if (Cell::IsString(cell)) {
+                const String_ ret_val = Cell::ToString(cell);
+                REQUIRE(ret_val.find('\n') == String_::npos && ret_val.find('\0') == String_::npos, "Can't write text with a line break to a file");
+                if (LooksLikeDate(ret_val) || LooksLikeDateTime(ret_val))
+                    return '=' + ret_val + '=';
+                const Cell_ readBack = AsCell(ret_val);
+                return Cell::IsString(readBack) && Cell::ToString(readBack).size() == ret_val.size() ? ret_val : String_('=' + ret_val + '=');
+            }
+            if (Cell::IsDouble(cell)) {
+                char digits[40];
+                snprintf(digits, sizeof(digits), "%.17g", Cell::ToDouble(cell));
+                return digits;
+            }
+            return Cell::CoerceToString(cell);
+        }
+
+        // comma-separated; a quoted field can contain commas and doubled quotes
+        String_ JoinLine(const Vector_<Cell_>& cells) {
+            String_ ret_val;
+            for (int i = 0; i < cells.size(); ++i) {
+                if (i > 0)
+                    ret_val.push_back(',');
+                const String_ text = AsText(cells[i]);
+                if (text.find_first_of(",\"\r") == String_::npos)
+                    ret_val += text;
+                else {
+                    ret_val.push_back('"');
+                    for (const char c : text)
+                        ret_val.append(c == '"' ? 2 : 1, c);
+                    ret_val.push_back('"');
+                }
+            }
+            return ret_val;
+        }
+
         Vector_<Cell_> SplitLine(const String_& line) {
             Vector_<Cell_> ret_val;
             auto start = line.begin();
             while (start != line.end()) {
-                auto stop = start;
+                String_ content;
                 bool quoted = false;
-                for (; stop != line.end(); ++stop) {
-                    if (stop == line.end() || (!quoted && *stop == ','))
-                        break;
-                    else if (*stop == '"')
+                for (; start != line.end() && (quoted || *start != ','); ++start) {
+                    if (*start != '"')
+                        content.push_back(*start);
+                    else if (quoted && Next(start) != line.end() && *Next(start) == '"')
+                        content.push_back(*start++);
+                    else
                         quoted = !quoted;
                 }
-                ret_val.push_back(AsCell(String_(start, stop)));
-                start = stop == line.end() ? line.end() : Next(stop);
+                ret_val.push_back(AsCell(content));
+                if (start != line.end())
+                    ++start;
             }
             return ret_val;
         }
@@ -410,7 +481,9 @@ namespace Dal {
     void SplatFile(const String_& file_name, const Storable_& src) {
         Matrix_<Cell_> mat = Splat(src);
         NOTE("Save object to local file");
-        Vector_<String_> ret = Cell::ToStringLines(mat);
+        Vector_<String_> ret;
+        for (int ir = 0; ir < mat.Rows(); ++ir)
+            ret.push_back(JoinLine(Vector_<Cell_>(mat.Row(ir).begin(), mat.Row(ir).end())));
         File::Write(file_name, ret);
     }
 
-- 
2.43.0


From 56a2bf963e7882b832732b3c3f72b4d2b4374ec2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:35:07 +0000
Subject: [PATCH 26/36] fix: file lines longer than 2047 characters ended
 reading, missing and unwritable files were not reported

---
 dal/utilities/file.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/dal/utilities/file.cpp b/dal/utilities/file.cpp
index 30b48ba..35feafd 100644
--- a/dal/utilities/file.cpp
+++ b/dal/utilities/file.cpp
@@ -4,6 +4,7 @@
 
 #include <cstdio>
 #include <fstream>
+#include <string>
 #include <dal/platform/platform.hpp>
 #include <dal/platform/strict.hpp>
 #include <dal/utilities/file.hpp>
@@ -13,9 +14,10 @@
 namespace Dal::File {
     void Read(const String_& file_name, Vector_<String_>* dst) {
         std::ifstream src(file_name.c_str());
-        char buf[2048];
-        while (src.getline(buf, 2048))
-            dst->emplace_back(buf);
+        REQUIRE(src, "file can't be read");
+        std::string line;
+        while (std::getline(src, line))
+            dst->emplace_back(line.begin(), line.end());
         src.close();
     }
 
@@ -24,6 +26,7 @@ namespace Dal::File {
         for (const auto& line : src)
             dst << line << std::endl;
         dst.close();
+        REQUIRE(dst, "file can't be written");
     }
 
     void Remove(const String_& file_name) {
-- 
2.43.0


From cfca4f823d643690e311dbaea565c20a8c2ccae3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:35:07 +0000
Subject: [PATCH 27/36] fix: number texts lost digits, integer texts with
 trailing characters accepted, large integral cells rejected, dictionary texts
 lost empty and logical values

---
 dal/math/cell.cpp            | 18 ++++++++----------
 dal/string/strings.cpp       | 31 ++++++++++++++++++++++++-------
 dal/utilities/dictionary.cpp | 23 ++++++++---------------
 dal/utilities/numerics.cpp   |  6 +++---
 4 files changed, 43 insertions(+), 35 deletions(-)

diff --git a/dal/math/cell.cpp b/dal/math/cell.cpp
index 83d4330..0bef305 100644
--- a/dal/math/cell.cpp
+++ b/dal/math/cell.cpp
@@ -11,10 +11,16 @@
 namespace Dal {
 
     namespace {
+        struct IsInt_ {
+            bool operator()(double d) const {
+                return d >= -2147483648. && d <= 2147483647. && AsInt(d) == d;
+            }
+            template <class E_> bool operator()(E_) const { return false; }
+        };
+
         struct ToString_ {
             String_ operator()(double d) const {
-                int ii = AsInt(d);
-                return ii == d ? String::FromInt(ii) : String::FromDouble(d);
+                return IsInt_()(d) ? String::FromInt(AsInt(d)) : String::FromDouble(d);
             }
             String_ operator()(bool b) const { return b ? "TRUE" : "FALSE"; }
             String_ operator()(const String_& s) const { return s; }
@@ -39,14 +45,6 @@ namespace Dal {
             int operator()(bool b) const { return b ? 1 : 0; }
             template <class E_> int operator()(E_) const { THROW("Cell must contain an integer value"); }
         };
-
-        struct IsInt_ {
-            bool operator()(double d) const {
-                int ii = AsInt(d);
-                return ii == d;
-            }
-            template <class E_> bool operator()(E_) const { return false; }
-        };
     } // namespace
 
     String_ Cell::ToString(const Cell_& src) {
diff --git a/dal/string/strings.cpp b/dal/string/strings.cpp
index ea2fcb8..038c780 100644
--- a/dal/string/strings.cpp
+++ b/dal/string/strings.cpp
@@ -3,6 +3,9 @@
 //
 
 #include <bitset>
+#include <cmath>
+#include <cstdio>
+#include <cstdlib>
 #include <sstream>
 #include <dal/platform/strict.hpp>
 #include <dal/string/strings.hpp>
@@ -37,16 +40,30 @@ namespace Dal::String {
         }
     }
 
-    int ToInt(const String_& src) { return std::stoi(src.c_str()); }
+    int ToInt(const String_& src) {
+        size_t idx;
+        const auto val = std::stoi(src.c_str(), &idx);
+        REQUIRE(idx == src.size(), "Not a valid integer string");
+        return val;
+    }
 
     double ToDouble(const String_& src) {
-        size_t idx;
-        const auto val = std::stod(src.c_str(), &idx);
-        REQUIRE(idx == src.size(), "Not a valid number string");
+        char* stop;
+        const auto val = std::strtod(src.c_str(), &stop);
+        REQUIRE(!src.empty() && stop == src.c_str() + src.size(), "Not a valid number string");
+        REQUIRE(!std::isinf(val) || src.find_first_of("0123456789") == String_::npos, "Number is too large");
         return val;
     }
 
-    String_ FromDouble(double src) { return String_(std::to_string(src)); }
+    String_ FromDouble(double src) {
+        const String_ ret_val(std::to_string(src));
+        if (std::isnan(src) || std::strtod(ret_val.c_str(), nullptr) == src)
+            return ret_val;
+        // six decimals are not enough to recover the number
+        char digits[40];
+        snprintf(digits, sizeof(digits), "%.17g", src);
+        return String_(digits);
+    }
 
     String_ FromInt(int src) { return String_(std::to_string(src)); }
     String_ FromBool(bool src) {
@@ -69,7 +86,7 @@ namespace Dal::String {
         String_ ret_val;
         for (const auto& c : src) {
             if (!IsFluff(c))
-                ret_val.push_back(static_cast<char>(toupper(static_cast<int>(c))));
+                ret_val.push_back(static_cast<char>(toupper(static_cast<unsigned char>(c))));
         }
         return ret_val;
     }
@@ -88,7 +105,7 @@ namespace Dal::String {
         auto p = lhs.begin();
         auto q = rhs;
         while (true) {
-            while (p != lhs.end() && SKIP[*p])
+            while (p != lhs.end() && SKIP[static_cast<unsigned char>(*p)])
                 ++p;
             if (!*q || p == lhs.end())
                 return !*q && p == lhs.end();
diff --git a/dal/utilities/dictionary.cpp b/dal/utilities/dictionary.cpp
index 2408eef..11b5cb3 100644
--- a/dal/utilities/dictionary.cpp
+++ b/dal/utilities/dictionary.cpp
@@ -45,9 +45,12 @@ namespace Dal {
         for (const auto& kv : d) {
             if (!ret_val.empty())
                 ret_val += ';';
+            const String_ value = Cell::CoerceToString(kv.second);
+            REQUIRE(!kv.first.empty() && kv.first.find_first_of("=;") == String_::npos, "Can't write key '" + kv.first + "' which is empty or contains a separator");
+            REQUIRE(value.find(';') == String_::npos, "Can't write value '" + value + "' which contains a separator");
             ret_val += kv.first;
             ret_val += '=';
-            ret_val += Cell::CoerceToString(kv.second);
+            ret_val += value;
         }
         return ret_val;
     }
@@ -55,20 +58,10 @@ namespace Dal {
         Vector_<String_> entries = String::Split(s, ';', false);
         Dictionary_ ret_val;
         for (const auto& kev : entries) {
-            Vector_<String_> kv = String::Split(kev, '=', true);
-            REQUIRE(kv.size() == 2, "Dictionary entry must have the form 'key=value'");
-            REQUIRE(!kv.front().empty(), "Empty dictionary key");
-            const String_& vs = kv.back();
-            Cell_ value;
-            if (String::IsNumber(vs))
-                value = String::ToDouble(vs);
-            else if (Date::IsDateString(vs))
-                value = Date::FromString(vs);
-            else if (DateTime::IsDateTimeString(vs))
-                value = DateTime::FromString(vs);
-            else if (!vs.empty())
-                value = vs;
-            ret_val.Insert(kv.front(), value);
+            const auto sep = kev.find('=');
+            REQUIRE(sep != String_::npos, "Dictionary entry must have the form 'key=value'");
+            REQUIRE(!String::Condensed(kev.substr(0, sep)).empty(), "Empty dictionary key");
+            ret_val.Insert(kev.substr(0, sep), Cell::ConvertString(kev.substr(sep + 1)));
         }
         return ret_val;
     }
diff --git a/dal/utilities/numerics.cpp b/dal/utilities/numerics.cpp
index d01692b..1d1ba70 100644
--- a/dal/utilities/numerics.cpp
+++ b/dal/utilities/numerics.cpp
@@ -10,17 +10,17 @@
 
 namespace Dal {
     int AsInt(double src) {
-        REQUIRE(std::fabs(src) < 2147483647., "Number is too large to be an integer");
+        REQUIRE(src > -2147483649. && src < 2147483648., "Number is too large to be an integer");
         return static_cast<int>(src + (src > 0 ? 1e-9 : -1e-9));
     }
 
     int NearestInt(double src) {
-        REQUIRE(std::fabs(src) < 2147483647, "Number is too large to be an integer");
+        REQUIRE(src > -2147483648.5 && src < 2147483647.5, "Number is too large to be an integer");
         return static_cast<int>(src + (src > 0 ? 0.5 : -0.5));
     }
 
     int AsInt(std::ptrdiff_t src) {
-        REQUIRE(std::abs(src) < 2147483647, "32-bit integer overflow");
+        REQUIRE(src >= -2147483647 - 1 && src <= 2147483647, "32-bit integer overflow");
         return static_cast<int>(src);
     }
 } // namespace Dal
-- 
2.43.0


From 930a9c794d5d0778a6696e37b3ebdd85862a7614 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:42:15 +0000
Subject: [PATCH 28/36] fix: tables with dictionaries of empty values were
 rejected

---
 dal/storage/splat.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/dal/storage/splat.cpp b/dal/storage/splat.cpp
index 9b9001a..b95ca7a 100644
--- a/dal/storage/splat.cpp
+++ b/dal/storage/splat.cpp
@@ -349,11 +349,12 @@ namespace Dal {
             Matrix_<Cell_> AsCellMatrix() const override { return TranslateMatrix(MatrixStop(), Identity_<Cell_>()); }
 
             Dictionary_ AsDictionary() const override {
-                REQUIRE(MatrixStop() == colStart_ + 2,
+                const int stop = MatrixStop();
+                REQUIRE(stop <= colStart_ + 2,
                         "Can't extract dictionary because entry does not have two columns");
                 Dictionary_ ret_val;
-                for (int ir = rowStart_; ir < rowStop_; ++ir)
-                    ret_val.Insert(ExtractString(data_(ir, colStart_)), data_(ir, colStart_ + 1));
+                for (int ir = rowStart_; ir < rowStop_ && stop > colStart_; ++ir)
+                    ret_val.Insert(ExtractString(data_(ir, colStart_)), IsBlank(ir, colStart_ + 1) ? Cell_() : data_(ir, colStart_ + 1));
                 return ret_val;
             }
 
-- 
2.43.0


From 74eb1f532430079dcd085f0a625a529350760e89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:50:15 +0000
Subject: [PATCH 29/36] fix: texts of days that do not exist were read as other
 dates

---
 dal/time/dateutils.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/dal/time/dateutils.cpp b/dal/time/dateutils.cpp
index 3fc408f..60ce01f 100644
--- a/dal/time/dateutils.cpp
+++ b/dal/time/dateutils.cpp
@@ -12,6 +12,13 @@
 namespace {
     const std::regex US_FORMAT("([0-9]+)/([0-9]+)/([0-9]+)");
     const std::regex YMD_FORMAT("([0-9]+)-([0-9]+)-([0-9]+)");
+
+    Dal::Date_ ExistingDate(int yyyy, int mm, int dd) {
+        const Dal::Date_ ret_val(yyyy, mm, dd);
+        REQUIRE(mm >= 1 && mm <= 12 && Dal::Date::Year(ret_val) == yyyy && Dal::Date::Month(ret_val) == mm && Dal::Date::Day(ret_val) == dd,
+                "No such date");
+        return ret_val;
+    }
 } // namespace
 
 namespace Dal {
@@ -27,13 +34,13 @@ namespace Dal {
             const int mm = String::ToInt(String_(match.str(1)));
             const int dd = String::ToInt(String_(match.str(2)));
             const int yy = String::ToInt(String_(match.str(3))) + (match.str(3).size() == 2 ? 2000 : 0);
-            return Date_(yy, mm, dd);
+            return ExistingDate(yy, mm, dd);
         }
         if (std::regex_match(src, match, YMD_FORMAT)) {
             const int yyyy = String::ToInt(String_(match.str(1)));
             const int mm = String::ToInt(String_(match.str(2)));
             const int dd = String::ToInt(String_(match.str(3)));
-            return Date_(yyyy, mm, dd);
+            return ExistingDate(yyyy, mm, dd);
         }
         THROW("Unrecognizable date source");
     }
-- 
2.43.0


From e2b93035d09cda07bab9cbae4083cc6eb77fcf24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:11:21 +0000
Subject: [PATCH 30/36] fix: Black and Bachelier options at small, zero or
 negative inputs, implied volatilities of most forwards, limiting
 sensitivities, jump-diffusion truncation and carry in implied surfaces

---
 dal/math/analytics/vanilla.hpp  | 18 +++----
 dal/math/distribution/black.cpp | 91 +++++++++++++++++++++------------
 dal/math/distribution/black.hpp |  4 +-
 dal/math/matrix/matrixs.hpp     |  2 +
 dal/math/specialfunctions.cpp   |  3 ++
 dal/model/ivs.hpp               |  6 ++-
 6 files changed, 78 insertions(+), 46 deletions(-)

diff --git a/dal/math/analytics/vanilla.hpp b/dal/math/analytics/vanilla.hpp
index 0f2a98e..b495f4c 100644
--- a/dal/math/analytics/vanilla.hpp
+++ b/dal/math/analytics/vanilla.hpp
@@ -32,17 +32,17 @@ namespace Dal::AAD {
         const T_ var = vol * vol;
         const T_ intensT = intens * mat;
 
-        unsigned fact = 1;
-        double iT = 1.0;
-        const size_t cut = 10;
+        // every option price is below its spot, so the probability-weighted spots left out bound the error
+        const T_ upper = intensT * (1.0 + Dal::exp(mv2));
+        T_ prob = Dal::exp(-intensT);
         T_ result = 0.0;
-        for (size_t n = 0; n < cut; ++n) {
-            const T_ s = spot * Dal::exp(n * mv2 - comp * mat);
-            const T_ v = Dal::sqrt(var + n * varJmp / mat);
-            const T_ prob = Dal::exp(-intensT) * iT / fact;
+        for (size_t n = 0;; ++n) {
+            const T_ s = spot * Dal::exp(double(n) * mv2 - comp * mat);
+            const T_ v = Dal::sqrt(var + double(n) * varJmp / mat);
             result += prob * BlackScholes<T_>(s, strike, v, mat);
-            fact *= n + 1;
-            iT *= intensT;
+            if (double(n) > upper && prob * s < 1.0e-16 * spot)
+                break;
+            prob *= intensT / double(n + 1);
         }
         return result;
     }
diff --git a/dal/math/distribution/black.cpp b/dal/math/distribution/black.cpp
index 1dde9fb..f61499e 100644
--- a/dal/math/distribution/black.cpp
+++ b/dal/math/distribution/black.cpp
@@ -11,23 +11,54 @@
 
 namespace Dal {
     namespace Distribution {
-        double BlackIV(double fwd, double strike, const OptionType_& type, double price, double guess) {
-            static const int MAX_ITERATIONS = 30;
-            static const double TOL = 1.0e-10;
-            REQUIRE(price >= type.Payout(fwd, strike), "value below intrinsic value in BlackIV");
-            Brent_ task(guess > 0.0 ? log(guess) : -1.5);
-            Converged_ done(TOL * max(1.0, fwd), TOL * max(1.0, price));
-            for (int i = 0; i < MAX_ITERATIONS; ++i) {
-                const double vol = exp(task.NextX());
-                if (done(task, BlackOpt(fwd, vol, strike, type) - price))
-                    return vol;
+        namespace {
+            // all types reduce to the out-of-the-money call or put; its price, unlike that of an in-the-money option, keeps relative precision
+            OptionType_ OutOfTheMoney(double fwd, double strike) {
+                return strike > fwd ? OptionType_::Value_::CALL : OptionType_::Value_::PUT;
+            }
+
+            double TimeValue(double fwd, double strike, const OptionType_& type, double price) {
+                const double excess = price - type.Payout(fwd, strike);
+                // allow for rounding in the price
+                REQUIRE(excess >= -EPSILON * max(fabs(fwd), fabs(strike)), "value below intrinsic value");
+                return max(0.0, type.Switch() == OptionType_::Value_::STRADDLE ? 0.5 * excess : excess);
+            }
+
+            // search in log(vol)
+            template <class F_> double ImpliedVol(const F_& otm_price, double time_value, double log_guess) {
+                static const int MAX_ITERATIONS = 100;
+                static const double TOL = 1.0e-10;
+                if (!(time_value > 0.0))
+                    return 0.0;
+                Brent_ task(log_guess);
+                Converged_ done(TOL, TOL * time_value);
+                for (int i = 0; i < MAX_ITERATIONS; ++i) {
+                    const double vol = exp(task.NextX());
+                    if (done(task, max(0.0, otm_price(vol)) - time_value))
+                        return vol;
+                }
+                THROW("exhausted iterations in implied vol search");
             }
-            THROW("exhausted iterations in BlackIV");
+
+            // option at zero vol or with no uncertainty has the limiting greeks
+            double DegenerateD(double fwd, double strike) {
+                return fwd == strike ? 0.0 : (fwd > strike ? INF : -INF);
+            }
+        } // namespace
+
+        double BlackIV(double fwd, double strike, const OptionType_& type, double price, double guess) {
+            REQUIRE(fwd > 0.0 && strike > 0.0, "BlackIV needs positive forward and strike");
+            const double timeValue = TimeValue(fwd, strike, type, price);
+            REQUIRE(timeValue < min(fwd, strike), "value too high for any volatility in BlackIV");
+            const OptionType_ otm = OutOfTheMoney(fwd, strike);
+            return ImpliedVol([&](double vol) { return BlackOpt(fwd, vol, strike, otm); },
+                              timeValue, guess > 0.0 ? log(guess) : -1.5);
         }
 
         Vector_<> BlackGreeks(double fwd, double vol, double strike, const OptionType_& type) {
-            const double dMinus = log(fwd / strike) / vol - 0.5 * vol;
-            const double dPlus = dMinus + vol;
+            const double dPlus = IsZero(vol) || !(fwd > 0.0 && strike > 0.0)
+                                     ? DegenerateD(fwd, strike)
+                                     : log(fwd / strike) / vol + 0.5 * vol;
             double fwdDelta = 0.0;
             double vega = 0.0;
             switch (type.Switch()) {
@@ -53,22 +84,16 @@ namespace Dal {
         }
 
         double BachelierIV(double fwd, double strike, const OptionType_& type, double price, double guess) {
-            static const int MAX_ITERATIONS = 30;
-            static const double TOL = 1.0e-10;
-            REQUIRE(price >= type.Payout(fwd, strike), "value below intrinsic value in BlackIV");
-            Brent_ task(guess > 0.0 ? guess : -1.5 * fwd);
-            Converged_ done(TOL * max(1.0, fwd), TOL * max(1.0, price));
-            for (int i = 0; i < MAX_ITERATIONS; ++i) {
-                const double vol = exp(task.NextX());
-                if (done(task, BachelierOpt(fwd, vol, strike, type) - price))
-                    return vol;
-            }
-            THROW("exhausted iterations in BachelierIV");
+            const double timeValue = TimeValue(fwd, strike, type, price);
+            const OptionType_ otm = OutOfTheMoney(fwd, strike);
+            // at the money the vol is the price over the density at zero
+            const double start = guess > 0.0 ? guess : timeValue / NPDF(0.0) + 0.25 * fabs(fwd - strike);
+            return ImpliedVol([&](double vol) { return BachelierOpt(fwd, vol, strike, otm); }, timeValue, log(start));
         }
 
         Vector_<> BachelierGreeks(double fwd, double vol, double strike, const OptionType_& type) {
             const double diff = fwd - strike;
-            const double d = diff / vol;
+            const double d = IsZero(vol) ? DegenerateD(fwd, strike) : diff / vol;
             double fwdDelta = 0.0;
             double vega = 0.0;
             switch (type.Switch()) {
@@ -105,10 +130,10 @@ namespace Dal {
         Vector_<> greeks = Distribution::BlackGreeks(f_, vol_, strike, type);
         std::map<String_, double> ret_val;
         for (const auto& name: to_report) {
-            if (name == "delta")
-                ret_val.insert({String_("delta"), greeks[0]});
-            else if (name == "vega")
-                ret_val.insert({String_("vega"), greeks[1]});
+            if (name == "delta" || name == "forward")
+                ret_val.insert({name, greeks[0]});
+            else if (name == "vega" || name == "vol")
+                ret_val.insert({name, greeks[1]});
             else if (name == "volvega")
                 ret_val.insert({String_("volvega"), vol_ * greeks[1]});
             else
@@ -128,10 +153,10 @@ namespace Dal {
         Vector_<> greeks = Distribution::BachelierGreeks(f_, vol_, strike, type);
         std::map<String_, double> ret_val;
         for (const auto& name: to_report) {
-            if (name == "delta")
-                ret_val.insert({String_("delta"), greeks[0]});
-            else if (name == "vega")
-                ret_val.insert({String_("vega"), greeks[1]});
+            if (name == "delta" || name == "forward")
+                ret_val.insert({name, greeks[0]});
+            else if (name == "vega" || name == "vol")
+                ret_val.insert({name, greeks[1]});
             else if (name == "volvega")
                 ret_val.insert({String_("volvega"), vol_ * greeks[1]});
             else
diff --git a/dal/math/distribution/black.hpp b/dal/math/distribution/black.hpp
index af8dd3c..6d7927f 100644
--- a/dal/math/distribution/black.hpp
+++ b/dal/math/distribution/black.hpp
@@ -12,7 +12,7 @@ namespace Dal {
     namespace Distribution {
         template <class T_>
         T_ BlackOpt(const T_& fwd, const T_& vol, const T_& strike, const OptionType_& type) {
-            if (IsZero(vol) || !IsPositive(fwd * strike))
+            if (IsZero(vol) || !(fwd > 0.0 && strike > 0.0))
                 return type.Payout(fwd, strike);
             T_ dMinus = log(fwd / strike) / vol - 0.5 * vol;
             T_ dPlus = dMinus + vol;
@@ -33,7 +33,7 @@ namespace Dal {
 
         template <class T_>
         T_ BachelierOpt(const T_& fwd, const T_& vol, const T_& strike, const OptionType_& type)  {
-            if (IsZero(vol) || !IsPositive(fwd * strike))
+            if (IsZero(vol))
                 return type.Payout(fwd, strike);
             T_ diff = fwd - strike;
             T_ d = diff / vol;
diff --git a/dal/math/matrix/matrixs.hpp b/dal/math/matrix/matrixs.hpp
index 6597828..6737113 100644
--- a/dal/math/matrix/matrixs.hpp
+++ b/dal/math/matrix/matrixs.hpp
@@ -43,6 +43,8 @@ namespace Dal {
         inline CI_ begin() const { return First(); }
         CI_ Last() const { return vals_.end() - cols_; }
         inline CI_ end() const { return Last(); }
+        inline I_ begin() { return vals_.begin(); }
+        inline I_ end() { return vals_.end() - cols_; }
 
         CR_ operator()(int row, int col) const { return hooks_[row][col]; }
         R_ operator()(int row, int col) { return hooks_[row][col]; }
diff --git a/dal/math/specialfunctions.cpp b/dal/math/specialfunctions.cpp
index b7373c5..067bfac 100644
--- a/dal/math/specialfunctions.cpp
+++ b/dal/math/specialfunctions.cpp
@@ -67,6 +67,9 @@ namespace Dal {
         static const double x_low_ = 0.02425;
         static const double x_high_ = 1.0 - x_low_;
 
+        if (x == 0.0 || x == 1.0)
+            return x == 0.0 ? -Dal::INF : Dal::INF;
+
         double z;
         if (x < x_low_ || x_high_ < x) {
             if (x < x_low_) {
diff --git a/dal/model/ivs.hpp b/dal/model/ivs.hpp
index cde2cee..b61aadb 100644
--- a/dal/model/ivs.hpp
+++ b/dal/model/ivs.hpp
@@ -60,7 +60,9 @@ namespace Dal::AAD {
 
         template <class T_ = double>
         T_ Call(double strike, double mat, const RiskView_<T_>* risk = nullptr) const {
-            return BlackScholes<T_>(spot_, strike, ImpliedVol(strike, mat) + (risk ? risk->Spread(strike, mat) : T_(0.0)), mat);
+            const double df = Dal::exp(-r_ * mat);
+            const double fwd = spot_ * Dal::exp((r_ - q_) * mat);
+            return df * BlackScholes<T_>(fwd, strike, ImpliedVol(strike, mat) + (risk ? risk->Spread(strike, mat) : T_(0.0)), mat);
         }
 
         template <class T_ = double>
@@ -76,7 +78,7 @@ namespace Dal::AAD {
             const T_ c20 = Call(strike + ds, mat, risk);
             const T_ ckk = (c10 + c20 - 2.0 * c00) / ds / ds;
             const T_ ck = (c20 - c10) * 0.5 / ds;
-            return Dal::sqrt(2.0 * (ct + q_ * c00 + (r_ - q_) * ck) / ckk) / strike;
+            return Dal::sqrt(2.0 * (ct + q_ * c00 + (r_ - q_) * strike * ck) / ckk) / strike;
         }
 
         virtual ~IVS_() = default;
-- 
2.43.0


From d0fda4600d27a45d383f8504fa5f6e18a82250a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:23:13 +0000
Subject: [PATCH 31/36] fix: models ignored requested forwards, discounts and
 rates, renaming model data with slides crashed, calibration outside the
 trusted range read past its grid, and slopes at nodes were lost

---
 dal/math/interp/interp.hpp |  6 ++---
 dal/model/blackscholes.cpp |  2 +-
 dal/model/blackscholes.hpp | 10 +++++++-
 dal/model/dupire.cpp       |  2 +-
 dal/model/dupire.hpp       | 26 +++++++++++++--------
 dal/model/utilities.hpp    | 47 ++++++++++++++++++++++++++++++++++----
 6 files changed, 74 insertions(+), 19 deletions(-)

diff --git a/dal/math/interp/interp.hpp b/dal/math/interp/interp.hpp
index 817f9cf..01c4771 100644
--- a/dal/math/interp/interp.hpp
+++ b/dal/math/interp/interp.hpp
@@ -36,12 +36,12 @@ namespace Dal {
         auto pge = LowerBound(x, static_cast<double>(x0));
         if (pge == x.end())
             return y.back();
-        if (pge == x.begin() || IsZero(x0 - *pge))
+        if (pge == x.begin())
             return y[pge - x.begin()];
         auto plt = Previous(pge);
-        const T_ gFrac = (x0 - *plt) / (*pge - *plt);
+        const T_ gFrac = (x0 - *pge) / (*pge - *plt); // zero at the node, which keeps its value and a slope
         auto flt = y.begin() + (plt - x.begin());
-        return *flt + gFrac * (*Next(flt) - *flt);
+        return *Next(flt) + gFrac * (*Next(flt) - *flt);
     }
 
     class BASE_EXPORT Interp1Linear_ : public Interp1_ {
diff --git a/dal/model/blackscholes.cpp b/dal/model/blackscholes.cpp
index 81ef3cc..d914741 100644
--- a/dal/model/blackscholes.cpp
+++ b/dal/model/blackscholes.cpp
@@ -15,7 +15,7 @@ namespace Dal {
     }
 
     BSModelData_* BSModelData_::MutantModel(const String_* new_name, const Slide_* slide) const {
-        std::unique_ptr<BSModelData_> temp(new BSModelData_(*new_name, spot_, vol_, rate_, div_));
+        std::unique_ptr<BSModelData_> temp(new BSModelData_(new_name ? *new_name : name_, spot_, vol_, rate_, div_));
         if (slide) {
             // TODO: finish the implementation
         }
diff --git a/dal/model/blackscholes.hpp b/dal/model/blackscholes.hpp
index 88db6e2..cd7dddc 100644
--- a/dal/model/blackscholes.hpp
+++ b/dal/model/blackscholes.hpp
@@ -6,6 +6,7 @@
 
 #include <dal/math/operators.hpp>
 #include <dal/model/base.hpp>
+#include <dal/model/utilities.hpp>
 #include <dal/storage/archive.hpp>
 #include <dal/utilities/algorithms.hpp>
 
@@ -36,6 +37,7 @@ namespace Dal {
             Vector_<T_> stds_;
             Vector_<T_> drifts_;
             Vector_<T_> numeraires_;
+            Vector_<RatesSample_<T_>> rates_;
 
             Vector_<T_*> parameters_;
             Vector_<String_> parameterLabels_;
@@ -51,6 +53,7 @@ namespace Dal {
                 if (def.numeraire_)
                     scenario.numeraire_ = numeraires_[idx];
                 scenario.spot_ = spot;
+                rates_[idx].Fill(spot, &scenario);
             }
 
         public:
@@ -103,6 +106,9 @@ namespace Dal {
 
                 const size_t n = productTimeLine.size();
                 numeraires_.Resize(n);
+                rates_.Resize(n);
+                for (size_t i = 0; i < n; ++i)
+                    rates_[i].Allocate(defLine[i]);
             }
 
             void Init(const Vector_<>& productTimeline, const Vector_<SampleDef_>& defLine) override {
@@ -117,9 +123,11 @@ namespace Dal {
                 }
 
                 const size_t m = productTimeline.size();
-                for (size_t i = 0; i < m; ++i)
+                for (size_t i = 0; i < m; ++i) {
                     if (defLine[i].numeraire_)
                         numeraires_[i] = Dal::exp(rate_ * productTimeline[i]);
+                    rates_[i].Init(defLine[i], productTimeline[i], rate_, div_);
+                }
             }
 
             [[nodiscard]] size_t SimDim() const override { return timeLine_.size() - 1; }
diff --git a/dal/model/dupire.cpp b/dal/model/dupire.cpp
index cfdc6e1..b871cb2 100644
--- a/dal/model/dupire.cpp
+++ b/dal/model/dupire.cpp
@@ -15,7 +15,7 @@ namespace Dal {
     }
 
     DupireModelData_* DupireModelData_::MutantModel(const String_* new_name, const Slide_* slide) const {
-        std::unique_ptr<DupireModelData_> temp(new DupireModelData_(*new_name, spot_, rate_, repo_, spots_, times_, vols_));
+        std::unique_ptr<DupireModelData_> temp(new DupireModelData_(new_name ? *new_name : name_, spot_, rate_, repo_, spots_, times_, vols_));
         if (slide) {
             // TODO: finish the implementation
         }
diff --git a/dal/model/dupire.hpp b/dal/model/dupire.hpp
index df31e24..6b03340 100644
--- a/dal/model/dupire.hpp
+++ b/dal/model/dupire.hpp
@@ -49,7 +49,7 @@ namespace Dal {
             Matrix_<T_> interpVols_;
             Vector_<T_> drifts_;
             Vector_<T_> numeraires_;
-            Vector_<Vector_<T_>> discounts_;
+            Vector_<RatesSample_<T_>> rates_;
             Vector_<T_*> parameters_;
             Vector_<String_> parameterLabels_;
 
@@ -64,6 +64,9 @@ namespace Dal {
                     double maxDt = 1.0)
                 : spot_(spot), r_(r), q_(q), spots_(spots), logSpots_(spots.size()), times_(times), vols_(vols), maxDt_(maxDt),
                   parameters_(vols.Rows() * vols.Cols() + 3), parameterLabels_(vols.Rows() * vols.Cols() + 3), defLine_(nullptr) {
+                REQUIRE(vols_.Rows() == spots_.size() && vols_.Cols() == times_.size(), "local vols do not match their spots and times");
+                REQUIRE(!spots_.empty() && !times_.empty(), "local vols need spots and times");
+                REQUIRE(maxDt_ > 0.0, "local vol model needs positive time steps");
                 Transform(spots_, [](double x) { return Dal::log(x); }, &logSpots_);
                 parameterLabels_[0] = "spot";
                 parameterLabels_[1] = "rate";
@@ -86,7 +89,7 @@ namespace Dal {
 
             [[nodiscard]] const Vector_<>& Times() const { return times_; }
 
-            const Vector_<T_>& Vols() const { return vols_; }
+            const Matrix_<T_>& Vols() const { return vols_; }
 
             [[nodiscard]] const Vector_<T_*>& Parameters() const override { return parameters_; }
 
@@ -110,9 +113,9 @@ namespace Dal {
 
                 const size_t n = productTimeline.size();
                 numeraires_.Resize(n);
-                discounts_.Resize(n);
+                rates_.Resize(n);
                 for (size_t j = 0; j < n; ++j)
-                    discounts_[j].Resize(defLine[j].discountMats_.size());
+                    rates_[j].Allocate(defLine[j]);
             }
 
             void Init(const Vector_<>& productTimeline, const Vector_<SampleDef_>& defLine) override {
@@ -132,9 +135,7 @@ namespace Dal {
                     if (defLine[i].numeraire_)
                         numeraires_[i] = Dal::exp(r_ * productTimeline[i]);
 
-                    const size_t pDF = defLine[i].discountMats_.size();
-                    for (size_t j = 0; j < pDF; ++j)
-                        discounts_[i][j] = Dal::exp(-r_ * (defLine[i].discountMats_[j] - productTimeline[i]));
+                    rates_[i].Init(defLine[i], productTimeline[i], r_, q_);
                 }
             }
 
@@ -179,8 +180,7 @@ namespace Dal {
                 if (def.numeraire_)
                     scenario.numeraire_ = numeraires_[idx];
                 scenario.spot_ = spot;
-                std::fill(scenario.forwards_.front().begin(), scenario.forwards_.front().end(), spot);
-                Copy(discounts_[idx], &scenario.discounts_);
+                rates_[idx].Fill(spot, &scenario);
             }
         };
 
@@ -214,6 +214,14 @@ namespace Dal {
                 lVolsBegin[i] = ivs.LocalVol(spots[i], maturity, &riskView);
             }
 
+            if (il > ih) {
+                // No spot of the grid is inside
+                const T_ atm = ivs.LocalVol(ivs.Spot(), maturity, &riskView);
+                for (int i = 0; i < nSpots; ++i)
+                    lVolsBegin[i] = atm;
+                return;
+            }
+
             // Extrapolate flat outside std
             for (int i = 0; i < il; ++i)
                 lVolsBegin[i] = lVolsBegin[il];
diff --git a/dal/model/utilities.hpp b/dal/model/utilities.hpp
index 3ba7826..5fe932f 100644
--- a/dal/model/utilities.hpp
+++ b/dal/model/utilities.hpp
@@ -5,6 +5,8 @@
 #pragma once
 
 #include <algorithm>
+#include <dal/math/aad/sample.hpp>
+#include <dal/math/operators.hpp>
 
 namespace Dal::AAD {
     template <class CONT_, class T_, class IT_ = T_*>
@@ -34,10 +36,10 @@ namespace Dal::AAD {
                 //  Spacing between supplementary points
                 auto spacing = (next - current) / addPoints;
                 //  Add the steps
-                auto t = current + spacing;
-                while (t < next - minDx) {
-                    filled.push_back(t);
-                    t += spacing;
+                for (int k = 1; k < addPoints; ++k) {
+                    const auto t = current + k * spacing;
+                    if (t < next - minDx)
+                        filled.push_back(t);
                 }
             }
             //  Push the next step on the product timeline and advance
@@ -48,4 +50,41 @@ namespace Dal::AAD {
         return filled;
     }
 
+    // what a sample asks of an asset with constant rate and yield: everything but the spot is known in advance
+    template <class T_> struct RatesSample_ {
+        Vector_<T_> discounts_;
+        Vector_<T_> libors_;
+        Vector_<Vector_<T_>> forwardFactors_;
+
+        void Allocate(const SampleDef_& def) {
+            discounts_.Resize(def.discountMats_.size());
+            libors_.Resize(def.liborDefs_.size());
+            forwardFactors_.Resize(def.forwardMats_.size());
+            for (size_t i = 0; i < forwardFactors_.size(); ++i)
+                forwardFactors_[i].Resize(def.forwardMats_[i].size());
+        }
+
+        void Init(const SampleDef_& def, double time, const T_& rate, const T_& yield) {
+            for (size_t i = 0; i < discounts_.size(); ++i)
+                discounts_[i] = Dal::exp(-rate * (def.discountMats_[i] - time));
+            for (size_t i = 0; i < libors_.size(); ++i) {
+                const double dt = def.liborDefs_[i].end_ - def.liborDefs_[i].start_;
+                libors_[i] = (Dal::exp(rate * dt) - 1.0) / dt;
+            }
+            for (size_t i = 0; i < forwardFactors_.size(); ++i)
+                for (size_t j = 0; j < forwardFactors_[i].size(); ++j)
+                    forwardFactors_[i][j] = Dal::exp((rate - yield) * (def.forwardMats_[i][j] - time));
+        }
+
+        void Fill(const T_& spot, Sample_<T_>* sample) const {
+            for (size_t i = 0; i < discounts_.size(); ++i)
+                sample->discounts_[i] = discounts_[i];
+            for (size_t i = 0; i < libors_.size(); ++i)
+                sample->libors_[i] = libors_[i];
+            for (size_t i = 0; i < forwardFactors_.size(); ++i)
+                for (size_t j = 0; j < forwardFactors_[i].size(); ++j)
+                    sample->forwards_[i][j] = spot * forwardFactors_[i][j];
+        }
+    };
+
 } // namespace Dal::AAD
-- 
2.43.0


From 1fe583c5c0f456943aae48f32d02f7f3cd38c66c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:41:47 +0000
Subject: [PATCH 32/36] fix: meshes of fewer than two points and solver
 coefficients of another size were used out of bounds

---
 dal/math/pde/fd1d.cpp                          | 3 +++
 dal/math/pde/meshers/concentrating1dmesher.cpp | 2 +-
 dal/math/pde/meshers/fdm1dmesher.hpp           | 2 +-
 dal/math/pde/meshers/uniform1dmesher.hpp       | 1 +
 4 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/dal/math/pde/fd1d.cpp b/dal/math/pde/fd1d.cpp
index 44ee30a..ffcca0a 100644
--- a/dal/math/pde/fd1d.cpp
+++ b/dal/math/pde/fd1d.cpp
@@ -35,6 +35,9 @@ namespace Dal::PDE {
     }
 
     void FD1D_::RollBwd(double dt, double theta, Vector_<>& res) {
+        REQUIRE(A_, "finite difference solver must be initialized");
+        const int n = A_->Size();
+        REQUIRE(r_.size() == n && mu_.size() == n && var_.size() == n && res.size() == n, "coefficients and values must match the mesh");
         if (theta != 1.0) {
             CalcAx(1.0, dt * (1.0 - theta));
             vs_ = res;
diff --git a/dal/math/pde/meshers/concentrating1dmesher.cpp b/dal/math/pde/meshers/concentrating1dmesher.cpp
index feb5994..28d4c23 100644
--- a/dal/math/pde/meshers/concentrating1dmesher.cpp
+++ b/dal/math/pde/meshers/concentrating1dmesher.cpp
@@ -15,6 +15,7 @@ namespace Dal {
         const auto cPoint = cPoints.first;
         const auto density = cPoints.second * (end - start);
 
+        REQUIRE(size > 1, "mesh needs at least two points");
         REQUIRE(cPoint >= start && cPoint <= end, "cPoint must be between start and end");
         REQUIRE(density > 0.0, "density > 0 required");
 
@@ -37,7 +38,6 @@ namespace Dal {
             u.push_back(1.0);
             z.push_back(1.0);
 
-            Interp::NewLinear("intep", u, z);
             transform = std::shared_ptr<Interp1_>(Interp::NewLinear("intep", u, z));
         }
 
diff --git a/dal/math/pde/meshers/fdm1dmesher.hpp b/dal/math/pde/meshers/fdm1dmesher.hpp
index f636a7c..79ede77 100644
--- a/dal/math/pde/meshers/fdm1dmesher.hpp
+++ b/dal/math/pde/meshers/fdm1dmesher.hpp
@@ -9,7 +9,7 @@
 namespace Dal {
     class FDM1DMesher_ {
     public:
-        explicit FDM1DMesher_(int size): locations_(size), dplus_(size), dminus_(size) {}
+        explicit FDM1DMesher_(int size): locations_(size > 0 ? size : 0), dplus_(locations_.size()), dminus_(locations_.size()) {}
         virtual ~FDM1DMesher_() = default;
 
         [[nodiscard]] int Size() const { return locations_.size(); }
diff --git a/dal/math/pde/meshers/uniform1dmesher.hpp b/dal/math/pde/meshers/uniform1dmesher.hpp
index 481a5d2..c2b48cf 100644
--- a/dal/math/pde/meshers/uniform1dmesher.hpp
+++ b/dal/math/pde/meshers/uniform1dmesher.hpp
@@ -12,6 +12,7 @@ namespace Dal {
     public:
         Uniform1DMesher_(double start, double end, int size)
             :FDM1DMesher_(size) {
+            REQUIRE(size > 1, "mesh needs at least two points");
             REQUIRE(end > start, "end must be large than start");
             const auto dx = (end - start) / (size - 1);
 
-- 
2.43.0


From 7360decc606ac0da5f3bc4675e186d3075ca7925 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:52:03 +0000
Subject: [PATCH 33/36] fix: index names were half-checked or had no parser,
 quiet lookups without fixing access crashed, discount indices lost their
 collateral, and monitored history missed fixings and had no extremes

---
 dal/indice/index.cpp         |  4 ++--
 dal/indice/index/ir.cpp      |  9 ++++++--
 dal/indice/index/ir.hpp      |  2 +-
 dal/indice/indexparse.cpp    |  6 ++++-
 dal/indice/indexpath.cpp     | 43 +++++++++++++++++++++++++++++-------
 dal/indice/indexpath.hpp     |  5 +++++
 dal/indice/parser/equity.cpp |  8 +++++--
 dal/indice/parser/fx.cpp     |  3 ++-
 dal/indice/parser/init.cpp   |  2 ++
 9 files changed, 65 insertions(+), 17 deletions(-)

diff --git a/dal/indice/index.cpp b/dal/indice/index.cpp
index 196eb40..86ece28 100644
--- a/dal/indice/index.cpp
+++ b/dal/indice/index.cpp
@@ -12,10 +12,10 @@ namespace Dal {
         static const std::map<DateTime_, double> EMPTY;
         auto hist = Environment::Find<FixingsAccess_>(_env);
         REQUIRE(hist || quiet, "no fixing access");
-        auto fixings = hist->Fetch(index_name);
+        auto fixings = hist ? hist->Fetch(index_name) : Handle_<Fixings_>();
         REQUIRE(fixings || quiet, "no fixings exist");
 
-        auto vals = fixings ? fixings->vals_ : EMPTY;
+        const auto& vals = fixings ? fixings->vals_ : EMPTY;
         auto pf = vals.find(fixing_time);
         if (pf == vals.end()) {
             REQUIRE(quiet, "No fixing for this time");
diff --git a/dal/indice/index/ir.cpp b/dal/indice/index/ir.cpp
index cdfba0f..8f3d0d4 100644
--- a/dal/indice/index/ir.cpp
+++ b/dal/indice/index/ir.cpp
@@ -32,6 +32,10 @@ namespace Dal {
                 return Cell::ToString(start);
             else if (Cell::IsDate(start))
                 return Date::ToString(Cell::ToDate(start));
+            else if (Cell::IsDateTime(start))
+                return Date::ToString(Cell::ToDateTime(start).Date());
+            else if (Cell::IsInt(start))
+                return String::FromInt(Cell::ToInt(start));
             else if (Cell::IsEmpty(start))
                 THROW("maturity may not be empty");
             else
@@ -49,7 +53,7 @@ namespace Dal {
     namespace Index {
         Date_ IRForward_::StartDate(const DateTime_& fixing_time) const {
             Date_ temp = DateFromCell(start_, fixing_time.Date());
-            if (Cell::IsDate(start_))
+            if (Cell::IsDate(start_) || Cell::IsDateTime(start_))
                 return temp;
             return Libor::StartFromFix(ccy_, temp);
         }
@@ -64,7 +68,8 @@ namespace Dal {
         }
 
         String_ Index::DF_::Name() const {
-            return "IR[DF]:" + String_(ccy_.String()) + StartPostfix(start_) + "," + MatPostfix(maturity_);
+            const String_ coll = collateral_ == CollateralType_() ? String_() : "," + String_(collateral_.String());
+            return "IR[DF" + coll + "]:" + String_(ccy_.String()) + StartPostfix(start_) + "," + MatPostfix(maturity_);
         }
 
         Date_ Index::DF_::StartDate(const DateTime_& fixing_time) const {
diff --git a/dal/indice/index/ir.hpp b/dal/indice/index/ir.hpp
index a2c02b5..630a1d0 100644
--- a/dal/indice/index/ir.hpp
+++ b/dal/indice/index/ir.hpp
@@ -53,7 +53,7 @@ namespace Dal::Index {
             const Cell_& maturity,
             const Cell_* start = nullptr,
             const CollateralType_& coll = CollateralType_())
-            : ccy_(ccy), maturity_(maturity), start_(Dereference(start, Cell_())) {}
+            : ccy_(ccy), maturity_(maturity), collateral_(coll), start_(Dereference(start, Cell_())) {}
 
         [[nodiscard]] String_ Name() const override;
         [[nodiscard]] Date_ Maturity(const DateTime_& event_time) const;
diff --git a/dal/indice/indexparse.cpp b/dal/indice/indexparse.cpp
index 2b35294..1f8feff 100644
--- a/dal/indice/indexparse.cpp
+++ b/dal/indice/indexparse.cpp
@@ -21,7 +21,11 @@ namespace Dal {
         Index_* ParseSingle(const String_& name) {
             auto stop = name.find_first_of(":[");
             if (stop == String_::npos)
-                return ParseSuperShot(name);
+            {
+                Index_* test = ParseSuperShot(name);
+                REQUIRE(test, "no parser for '" + name + "'");
+                return test;
+            }
             const String_ ac = name.substr(0, stop);
             auto pp = TheIndexParsers().find(ac);
             REQUIRE(pp != TheIndexParsers().end(), "no parser for '" + name + "'");
diff --git a/dal/indice/indexpath.cpp b/dal/indice/indexpath.cpp
index b510da8..984774d 100644
--- a/dal/indice/indexpath.cpp
+++ b/dal/indice/indexpath.cpp
@@ -8,6 +8,20 @@
 #include <dal/utilities/exceptions.hpp>
 
 namespace Dal {
+    namespace {
+        // visits the fixings in [from, to) which are a whole number of intervals after "from" -- to within half a second,
+        // because intervals such as an hour are not exact fractions of a day
+        template <class F_>
+        void ForEachMonitored(const std::map<DateTime_, double>& fixings, const DateTime_& from, const DateTime_& to, double interval, const F_& func) {
+            static constexpr double TOL = 0.5 / 86400;
+            REQUIRE(interval > 0.0, "Monitoring interval must be positive");
+            for (auto pf = fixings.lower_bound(from); pf != fixings.end() && pf->first < to; ++pf) {
+                const double elapsed = pf->first - from;
+                if (std::fabs(elapsed - interval * std::round(elapsed / interval)) < TOL)
+                    func(pf->first, pf->second);
+            }
+        }
+    } // namespace
 
     double IndexPath_::Extremum(bool maximum,
                                 const Dal::DateTime_ &from,
@@ -52,16 +66,29 @@ namespace Dal {
                                                 const std::pair<double, double>& range,
                                                 double monitoring_interval,
                                                 double ramp_sigma) const {
-        DateTime_ current = from;
         double prob = 1.0;
-
-        while (current < to) {
-            auto pfix = fixings_.find(current);
-            if (pfix != fixings_.end())
-                prob *= FixInRangeProb(current, range, ramp_sigma);
-            current += monitoring_interval;
-        }
+        ForEachMonitored(fixings_, from, to, monitoring_interval, [&](const DateTime_& t, double) {
+            prob *= FixInRangeProb(t, range, ramp_sigma);
+        });
         return prob;
     }
 
+    double IndexPathHistorical_::Extremum(bool maximum,
+                                          const DateTime_& from,
+                                          const DateTime_& to,
+                                          double monitoring_interval,
+                                          const std::pair<double, double>& collar) const {
+        bool any = false;
+        double ret_val = 0.0;
+        ForEachMonitored(fixings_, from, to, monitoring_interval, [&](const DateTime_&, double fixed) {
+            if (!any)
+                ret_val = fixed;
+            else
+                ret_val = maximum ? std::max(ret_val, fixed) : std::min(ret_val, fixed);
+            any = true;
+        });
+        REQUIRE(any, "No fixing exists in the monitored period");
+        return std::max(collar.first, std::min(collar.second, ret_val));
+    }
+
 }
diff --git a/dal/indice/indexpath.hpp b/dal/indice/indexpath.hpp
index 409ac69..5f832bd 100644
--- a/dal/indice/indexpath.hpp
+++ b/dal/indice/indexpath.hpp
@@ -41,6 +41,11 @@ namespace Dal {
                                             const std::pair<double, double>& range,
                                             double monitoring_interval,
                                             double ramp_sigma) const override;
+        [[nodiscard]] double Extremum(bool maximum,
+                                      const DateTime_& from,
+                                      const DateTime_& to,
+                                      double monitoring_interval,
+                                      const std::pair<double, double>& collar) const override;
 
         explicit IndexPathHistorical_(const std::map<DateTime_, double>& fixings = std::map<DateTime_, double>()): fixings_((fixings)) {}
     };
diff --git a/dal/indice/parser/equity.cpp b/dal/indice/parser/equity.cpp
index a085673..ec4a99f 100644
--- a/dal/indice/parser/equity.cpp
+++ b/dal/indice/parser/equity.cpp
@@ -6,22 +6,26 @@
 #include <dal/platform/strict.hpp>
 #include <dal/indice/parser/equity.hpp>
 #include <dal/indice/index/equity.hpp>
+#include <dal/time/dateincrement.hpp>
 #include <dal/time/dateutils.hpp>
 
 namespace Dal::Index {
     Index_* EquityParser(const String_& name) {
         auto eq_start = name.find_first_of("[");
         auto eq_stop = name.find_first_of("]");
+        REQUIRE(eq_stop != String_::npos && eq_start < eq_stop && name.substr(0, eq_start) == "EQ", "equity index pattern is not good");
 
         String_ eq_name = name.substr(eq_start + 1, eq_stop - eq_start - 1);
-        auto tenor_start = name.find_first_of("@>", eq_stop + 1);
-        if (tenor_start == String_::npos)
+        REQUIRE(!eq_name.empty(), "equity index must name its equity");
+        auto tenor_start = eq_stop + 1;
+        if (tenor_start == name.length())
             return new Equity_(eq_name, nullptr, nullptr);
         else if (name[tenor_start] == '@') {
             auto delivery_date = Date::FromString(name.substr(tenor_start + 1, name.length() - tenor_start - 1));
             return new Equity_(eq_name, &delivery_date, nullptr);
         } else if (name[tenor_start] == '>') {
             String_ delay_increment = name.substr(tenor_start + 1, name.length() - tenor_start - 1);
+            Date::ParseIncrement(delay_increment); // reject unusable increments here rather than at first use
             return new Equity_(eq_name, nullptr, &delay_increment);
         } else
             THROW("index pattern is not good");
diff --git a/dal/indice/parser/fx.cpp b/dal/indice/parser/fx.cpp
index 3dbd85a..5f4504c 100644
--- a/dal/indice/parser/fx.cpp
+++ b/dal/indice/parser/fx.cpp
@@ -12,7 +12,8 @@ namespace Dal::Index {
         auto fx_start = name.find_first_of("[");
         auto fx_stop = name.find_first_of("]");
         auto fx_sep = name.find_first_of("/");
-        REQUIRE(fx_start != String_::npos && fx_stop != String_::npos && fx_sep != String_::npos, "fx index pattern is not good");
+        REQUIRE(fx_start != String_::npos && fx_stop != String_::npos && fx_sep != String_::npos && fx_start < fx_sep
+                && fx_sep < fx_stop && fx_stop + 1 == name.length() && name.substr(0, fx_start) == "FX", "fx index pattern is not good");
 
         String_ fgn = name.substr(fx_start + 1, fx_sep - fx_start - 1);
         String_ dom = name.substr(fx_sep + 1, fx_stop - fx_sep - 1);
diff --git a/dal/indice/parser/init.cpp b/dal/indice/parser/init.cpp
index 14647fb..977b31a 100644
--- a/dal/indice/parser/init.cpp
+++ b/dal/indice/parser/init.cpp
@@ -8,6 +8,7 @@
 #include <dal/string/strings.hpp>
 #include <dal/indice/indexparse.hpp>
 #include <dal/indice/parser/equity.hpp>
+#include <dal/indice/parser/fx.hpp>
 
 namespace Dal {
 
@@ -16,6 +17,7 @@ namespace Dal {
     void IndexParsers_::Init() {
         if (!init_) {
             Index::RegisterParser("EQ", Index::EquityParser);
+            Index::RegisterParser("FX", Index::FxParser);
             init_ = true;
         }
     }
-- 
2.43.0


From 960c157caa0f0ba4a60bb30f1e138418f758b4e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:14:18 +0000
Subject: [PATCH 34/36] fix: two different classes shared the name FixHistory_,
 so that unoptimised builds destroyed global fixing histories with the wrong
 destructor, and an assertion on them checked the wrong column

---
 dal/indice/fixings.cpp  | 6 +++---
 dal/indice/fixings.hpp  | 6 +++---
 dal/storage/globals.cpp | 2 +-
 3 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/dal/indice/fixings.cpp b/dal/indice/fixings.cpp
index e633a9a..94fac6e 100644
--- a/dal/indice/fixings.cpp
+++ b/dal/indice/fixings.cpp
@@ -20,12 +20,12 @@ namespace Dal {
             return new Fixings_(name_, ZipToMap(fixing_times_, fixings_));
         }
     }
-    const FixHistory_& FixHistory::Empty() {
-        static const FixHistory_ RET_VAL((FixHistory_::vals_t()));
+    const FixingHistory_& FixHistory::Empty() {
+        static const FixingHistory_ RET_VAL((FixingHistory_::vals_t()));
         return RET_VAL;
     }
 
-    double FixHistory_::Find(const DateTime_& fix_time, bool quiet) const {
+    double FixingHistory_::Find(const DateTime_& fix_time, bool quiet) const {
         auto less_ = [](const pair<DateTime_, double>& lhs, const DateTime_& rhs) { return lhs.first < rhs; };
 
         auto pGE = std::lower_bound(vals_.begin(), vals_.end(), fix_time, less_);
diff --git a/dal/indice/fixings.hpp b/dal/indice/fixings.hpp
index 56a7371..3b5dc0b 100644
--- a/dal/indice/fixings.hpp
+++ b/dal/indice/fixings.hpp
@@ -22,7 +22,7 @@ fixing_times is datetime[]
 -IF-------------------------------------------------------------------------*/
 
 namespace Dal {
-    class FixHistory_ {
+    class FixingHistory_ {
     public:
         using vals_t = std::map<DateTime_, double>;
 
@@ -30,12 +30,12 @@ namespace Dal {
         vals_t vals_;
 
     public:
-        FixHistory_(const vals_t& vals) : vals_(vals) {}
+        FixingHistory_(const vals_t& vals) : vals_(vals) {}
         double Find(const DateTime_& fix_time, bool quiet = false) const;
     };
 
     namespace FixHistory {
-        const FixHistory_& Empty();
+        const FixingHistory_& Empty();
     }
 
     class Fixings_ : public Storable_ {
diff --git a/dal/storage/globals.cpp b/dal/storage/globals.cpp
index 5eb5cc0..82f3d64 100644
--- a/dal/storage/globals.cpp
+++ b/dal/storage/globals.cpp
@@ -97,7 +97,7 @@ namespace Dal {
                 return retval;
             assert(stored.Cols() == 2);
             assert(AllOf(stored.Col(0), Cell::TypeCheck_<DateTime_>()));
-            assert(AllOf(stored.Col(0), Cell::TypeCheck_<double>()));
+            assert(AllOf(stored.Col(1), Cell::TypeCheck_<double>()));
             const int n = stored.Rows();
             retval.vals_.Resize(n);
             for (int ii = 0; ii < n; ++ii)
-- 
2.43.0


From 9c15ad8cb7af9c8496594886f8f46d316eaf3b39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:14:18 +0000
Subject: [PATCH 35/36] fix: errors of Report_::AddHeaderRow read a dead
 temporary

---
 dal/risk/report.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dal/risk/report.cpp b/dal/risk/report.cpp
index 99e8bb0..249bb30 100644
--- a/dal/risk/report.cpp
+++ b/dal/risk/report.cpp
@@ -149,8 +149,8 @@ namespace Dal {
 
     void Report_::AddHeaderRow(const String_& axes, int offset, const Vector_<Cell_>& values) {
         auto& [labels_, values_] = headers_[FindAxis(axes_, axes)];
-        const auto n_labels = labels_.size();
-        NOTICE(static_cast<int>(n_labels));
+        const int n_labels = static_cast<int>(labels_.size());
+        NOTICE(n_labels); // must not be a temporary, whose value would be gone when an error is reported
         REQUIRE(offset >= 0, "Invalid header row");
         REQUIRE(values.size() == n_labels, "Wrong number (= " + ToString(static_cast<int>(values.size())) + " of labels");
         if (offset >= values_.Rows())
-- 
2.43.0


From 86a981d3b624990eb0f5453d9c8c76a65a94a3a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:33:14 +0000
Subject: [PATCH 36/36] fix: valuing a product whose events have all passed
 crashed, and path counts that are not positive were accepted

---
 dal/model/blackscholes.hpp | 2 +-
 public/src/value.cpp       | 1 +
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/dal/model/blackscholes.hpp b/dal/model/blackscholes.hpp
index cd7dddc..0f0542f 100644
--- a/dal/model/blackscholes.hpp
+++ b/dal/model/blackscholes.hpp
@@ -98,7 +98,7 @@ namespace Dal {
                         timeLine_.push_back(time);
                 }
 
-                todayOnTimeLine_ = productTimeLine[0] == 0;
+                todayOnTimeLine_ = !productTimeLine.empty() && productTimeLine[0] == 0;
                 defLine_ = &defLine;
 
                 stds_.Resize(timeLine_.size() - 1);
diff --git a/public/src/value.cpp b/public/src/value.cpp
index 34cbd92..20a16d0 100644
--- a/public/src/value.cpp
+++ b/public/src/value.cpp
@@ -28,6 +28,7 @@ namespace Dal {
                                                 double smooth) {
         const auto modelType = model_data->Type();
         REQUIRE(MODEL_STORE.find(modelType) != MODEL_STORE.end(), "only support black scholes and Dupire model now");
+        REQUIRE(n_paths > 0, "number of paths must be positive");
         auto prd = product->Product();
         std::map<String_, double> res;
         if (enable_aad) {
-- 
2.43.0

