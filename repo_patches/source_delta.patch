From 39628f878c5e0c53e732883fa4d403275feecddb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:15 +0000
Subject: [PATCH 1/3] fix: receive the data of a truncated last window at the
 time of its end

---
 src/cplscheme/BaseCouplingScheme.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/cplscheme/BaseCouplingScheme.cpp b/src/cplscheme/BaseCouplingScheme.cpp
index 5ea18b9..28b42d0 100644
--- a/src/cplscheme/BaseCouplingScheme.cpp
+++ b/src/cplscheme/BaseCouplingScheme.cpp
@@ -209,7 +209,8 @@ void BaseCouplingScheme::receiveDataForWindowEnd(const m2n::PtrM2N &m2n, const D
   // buffer current time
   const impl::TimeHandler oldTime = _time;
   // set _time state to point to end of this window such that _time in receiveData is at end of window
-  _time.progressBy(_nextTimeWindowSize);
+  // the end of this window may be truncated by the max-time
+  _time.progressBy(std::min(_nextTimeWindowSize, _time.untilEnd()));
   // receive data for end of window
   this->receiveData(m2n, receiveData);
   // reset time state;
-- 
2.43.0


From 1a9be9f3fced9cb78289716272bfefd660a67e3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:15 +0000
Subject: [PATCH 2/3] fix: receive zero instead of unset values on ranks
 without remote vertices

---
 src/m2n/PointToPointCommunication.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/m2n/PointToPointCommunication.cpp b/src/m2n/PointToPointCommunication.cpp
index cd3392c..4837ce7 100644
--- a/src/m2n/PointToPointCommunication.cpp
+++ b/src/m2n/PointToPointCommunication.cpp
@@ -630,10 +630,11 @@ void PointToPointCommunication::send(precice::span<double const> itemsToSend, in
 
 void PointToPointCommunication::receive(precice::span<double> itemsToReceive, int valueDimension)
 {
-  if (_mappings.empty() || itemsToReceive.empty()) {
+  if (itemsToReceive.empty()) {
     return;
   }
 
+  // Vertices without a remote counterpart receive zero, also if this rank has no mappings at all
   std::fill(itemsToReceive.begin(), itemsToReceive.end(), 0.0);
 
   for (auto &mapping : _mappings) {
-- 
2.43.0


From 59ce260239c3754fcf5bbd0c379e80928f35fc83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:25 +0000
Subject: [PATCH 3/3] fix: reject advance() before initialize() and after
 finalize() instead of dereferencing a missing event

---
 src/precice/impl/ParticipantImpl.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/precice/impl/ParticipantImpl.cpp b/src/precice/impl/ParticipantImpl.cpp
index f57d477..e44ce1d 100644
--- a/src/precice/impl/ParticipantImpl.cpp
+++ b/src/precice/impl/ParticipantImpl.cpp
@@ -394,6 +394,9 @@ void ParticipantImpl::advance(
 {
 
   PRECICE_TRACE(computedTimeStepSize);
+  PRECICE_CHECK(_state != State::Constructed, "initialize() has to be called before advance().");
+  PRECICE_CHECK(_state != State::Finalized, "advance() cannot be called after finalize().");
+  PRECICE_CHECK(_state == State::Initialized, "initialize() has to be called before advance().");
 
   // Enforce that all user-created events are stopped to prevent incorrect nesting.
   PRECICE_CHECK(_userEvents.empty(), "There are unstopped user defined events. Please stop them using stopLastProfilingSection() before calling advance().");
@@ -404,9 +407,6 @@ void ParticipantImpl::advance(
 
   Event e("advance", profiling::Fundamental, profiling::Synchronize);
 
-  PRECICE_CHECK(_state != State::Constructed, "initialize() has to be called before advance().");
-  PRECICE_CHECK(_state != State::Finalized, "advance() cannot be called after finalize().");
-  PRECICE_CHECK(_state == State::Initialized, "initialize() has to be called before advance().");
   PRECICE_ASSERT(_couplingScheme->isInitialized());
   PRECICE_CHECK(isCouplingOngoing(), "advance() cannot be called when isCouplingOngoing() returns false.");
 
-- 
2.43.0

