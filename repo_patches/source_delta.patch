From f30dce0a72c7faf578bc65768cef88b8f1786095 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:27 +0000
Subject: [PATCH 01/36] fix: weight surface component outputs by the fraction
 of their land cover

---
 core/src/base/ModelBuilder.cpp       | 2 +-
 core/src/bricks/Glacier.cpp          | 1 +
 core/src/bricks/LandCover.cpp        | 7 +++++--
 core/src/bricks/LandCover.h          | 1 +
 core/src/bricks/SurfaceComponent.cpp | 9 +++++++--
 core/src/bricks/SurfaceComponent.h   | 5 +++++
 6 files changed, 20 insertions(+), 5 deletions(-)

diff --git a/core/src/base/ModelBuilder.cpp b/core/src/base/ModelBuilder.cpp
index 7084646..9db8c4e 100644
--- a/core/src/base/ModelBuilder.cpp
+++ b/core/src/base/ModelBuilder.cpp
@@ -494,7 +494,7 @@ void ModelBuilder::BuildHydroUnitBricksFluxes(SettingsModel& modelSettings, Hydr
                                     flux->SetAsStatic();
                                 }
                                 flux->SetType(output.fluxType);
-                                flux->NeedsWeighting(true);
+                                // The lateral process handles the area conversion itself.
                                 targetBrick->AttachFluxIn(flux);
                                 lateralProcess->AttachFluxOutWithWeight(std::move(fluxPtr),
                                                                         lateralConnection->GetFraction());
diff --git a/core/src/bricks/Glacier.cpp b/core/src/bricks/Glacier.cpp
index 1f91945..37db1fb 100644
--- a/core/src/bricks/Glacier.cpp
+++ b/core/src/bricks/Glacier.cpp
@@ -144,6 +144,7 @@ double* Glacier::GetValuePointer(std::string_view name) {
 }
 
 void Glacier::SurfaceComponentAdded(SurfaceComponent* brick) {
+    LandCover::SurfaceComponentAdded(brick);
     if (brick->GetCategory() == BrickCategory::Snowpack) {
         auto snowpack = dynamic_cast<Snowpack*>(brick);
         _ice->SetRelatedSnowpack(snowpack);
diff --git a/core/src/bricks/LandCover.cpp b/core/src/bricks/LandCover.cpp
index ef7c02f..3376637 100644
--- a/core/src/bricks/LandCover.cpp
+++ b/core/src/bricks/LandCover.cpp
@@ -34,8 +34,11 @@ void LandCover::SetAreaFraction(double value) {
             }
         }
     }
+    for (auto surfaceComponent : _surfaceComponents) {
+        surfaceComponent->UpdateFluxWeights();
+    }
 }
 
-void LandCover::SurfaceComponentAdded(SurfaceComponent*) {
-    // Nothing to do.
+void LandCover::SurfaceComponentAdded(SurfaceComponent* brick) {
+    _surfaceComponents.push_back(brick);
 }
diff --git a/core/src/bricks/LandCover.h b/core/src/bricks/LandCover.h
index fb97ae6..adbbfbc 100644
--- a/core/src/bricks/LandCover.h
+++ b/core/src/bricks/LandCover.h
@@ -102,6 +102,7 @@ class LandCover : public Brick {
   protected:
     double _areaFraction;
     double _initialAreaFraction;
+    vector<SurfaceComponent*> _surfaceComponents;  // non-owning references
 };
 
 #endif  // HYDROBRICKS_BASE_LAND_COVER_H
diff --git a/core/src/bricks/SurfaceComponent.cpp b/core/src/bricks/SurfaceComponent.cpp
index 1c35f28..71c826a 100644
--- a/core/src/bricks/SurfaceComponent.cpp
+++ b/core/src/bricks/SurfaceComponent.cpp
@@ -12,12 +12,17 @@ SurfaceComponent::SurfaceComponent()
 void SurfaceComponent::SetAreaFraction(double value) {
     assert(_parent);
     _areaFraction = value;
+    UpdateFluxWeights();
+}
+
+void SurfaceComponent::UpdateFluxWeights() {
+    assert(_parent);
+    const double weight = _areaFraction * _parent->GetAreaFraction();
     for (const auto& process : _processes) {
         for (int i = 0; i < process->GetOutputFluxCount(); ++i) {
             Flux* output = process->GetOutputFlux(i);
             if (output->NeedsWeighting()) {
-                value *= _parent->GetAreaFraction();
-                output->SetFractionLandCover(value);
+                output->SetFractionLandCover(weight);
             }
         }
     }
diff --git a/core/src/bricks/SurfaceComponent.h b/core/src/bricks/SurfaceComponent.h
index 6fc0bd4..920c897 100644
--- a/core/src/bricks/SurfaceComponent.h
+++ b/core/src/bricks/SurfaceComponent.h
@@ -34,6 +34,11 @@ class SurfaceComponent : public Brick {
      */
     void SetAreaFraction(double value);
 
+    /**
+     * Update the weights of the outgoing fluxes from the area fractions of the component and of its land cover.
+     */
+    void UpdateFluxWeights();
+
     /**
      * Gets the area fraction of the parent land cover of this component.
      *
-- 
2.43.0


From 848e796ab210add88478615ef17fdce743ed1ddb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:46 +0000
Subject: [PATCH 02/36] fix: apply the area weight to fluxes feeding a splitter

---
 core/src/fluxes/FluxSimple.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/core/src/fluxes/FluxSimple.cpp b/core/src/fluxes/FluxSimple.cpp
index 26d7a53..5d59c4f 100644
--- a/core/src/fluxes/FluxSimple.cpp
+++ b/core/src/fluxes/FluxSimple.cpp
@@ -12,6 +12,5 @@ double FluxSimple::GetAmount() {
 }
 
 void FluxSimple::UpdateFlux(double amount) {
-    assert(_fractionTotal == 1.0);
-    _amount = amount;
+    Flux::UpdateFlux(amount);
 }
-- 
2.43.0


From 0efebdc0a1933358761d86706a47cf714664e77b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:08 +0000
Subject: [PATCH 03/36] fix: pass on all the inputs of a multi-fluxes splitter

---
 core/src/fluxes/SplitterMultiFluxes.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/core/src/fluxes/SplitterMultiFluxes.cpp b/core/src/fluxes/SplitterMultiFluxes.cpp
index 1195762..03ecb79 100644
--- a/core/src/fluxes/SplitterMultiFluxes.cpp
+++ b/core/src/fluxes/SplitterMultiFluxes.cpp
@@ -34,7 +34,11 @@ double* SplitterMultiFluxes::GetValuePointer(const string& name) {
 
 void SplitterMultiFluxes::Compute() {
     assert(!_inputs.empty());
+    double amount = 0;
+    for (const auto& input : _inputs) {
+        amount += input->GetAmount();
+    }
     for (const auto& output : _outputs) {
-        output->UpdateFlux(_inputs[0]->GetAmount());
+        output->UpdateFlux(amount);
     }
 }
-- 
2.43.0


From cbabd04830c2f6d6bade6aebaf36ea286a1bc5eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:24 +0000
Subject: [PATCH 04/36] fix: compute the splitters of the sub-basin in each
 time step

---
 core/src/base/Processor.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/core/src/base/Processor.cpp b/core/src/base/Processor.cpp
index bb83db0..efed925 100644
--- a/core/src/base/Processor.cpp
+++ b/core/src/base/Processor.cpp
@@ -263,6 +263,11 @@ bool Processor::ProcessTimeStep(double timeStepInDays) {
         }
     }
 
+    int basinSplitterCount = basin->GetSplitterCount();
+    for (int iSplitter = 0; iSplitter < basinSplitterCount; ++iSplitter) {
+        basin->GetSplitter(iSplitter)->Compute();
+    }
+
     // Process the bricks that need a solver
     if (!_solver->Solve(timeStepInDays)) {
         return false;
-- 
2.43.0


From 202a1809d066844d462cb8c7c54aff10d232e4d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:46 +0000
Subject: [PATCH 05/36] fix: set parameters of sub-basin bricks addressed by
 type

---
 core/src/base/SettingsModel.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/src/base/SettingsModel.cpp b/core/src/base/SettingsModel.cpp
index 9b73ecd..d015b3c 100644
--- a/core/src/base/SettingsModel.cpp
+++ b/core/src/base/SettingsModel.cpp
@@ -1012,7 +1012,7 @@ bool SettingsModel::SetParameterValueInSelectedStructure(const string& component
         // Set the parameter for all matching bricks - subbasins
         for (auto& brick : _selectedStructure->subBasinBricks) {
             if (typeMatches(brick.type)) {
-                SelectHydroUnitBrick(brick.name);
+                SelectSubBasinBrick(brick.name);
                 if (BrickHasParameter(name)) {
                     SetBrickParameterValue(name, value);
                 } else {
-- 
2.43.0


From ac3d78861034d88efd59452510f6ade0cc49a230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:46 +0000
Subject: [PATCH 06/36] fix: let the infinite storage of a glacier be switched
 off by a parameter update

---
 core/src/bricks/Glacier.cpp          | 4 +---
 core/src/containers/WaterContainer.h | 6 ++++--
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/core/src/bricks/Glacier.cpp b/core/src/bricks/Glacier.cpp
index 37db1fb..3126729 100644
--- a/core/src/bricks/Glacier.cpp
+++ b/core/src/bricks/Glacier.cpp
@@ -22,9 +22,7 @@ void Glacier::SetParameters(const BrickSettings& brickSettings) {
     Brick::SetParameters(brickSettings);
     if (HasParameter(brickSettings, "infinite_storage")) {
         const float* valPtr = GetParameterValuePointer(brickSettings, "infinite_storage");
-        if (valPtr && !NearlyZero(*valPtr, EPSILON_F)) {
-            _ice->SetAsInfiniteStorage();
-        }
+        _ice->SetAsInfiniteStorage(valPtr && !NearlyZero(*valPtr, EPSILON_F));
     }
 
     if (HasParameter(brickSettings, "no_melt_when_snow_cover")) {
diff --git a/core/src/containers/WaterContainer.h b/core/src/containers/WaterContainer.h
index 36bec2d..66b1b38 100644
--- a/core/src/containers/WaterContainer.h
+++ b/core/src/containers/WaterContainer.h
@@ -115,9 +115,11 @@ class WaterContainer {
 
     /**
      * Set the water container as an infinite storage.
+     *
+     * @param value true if the storage is infinite, false otherwise.
      */
-    void SetAsInfiniteStorage() {
-        _infiniteStorage = true;
+    void SetAsInfiniteStorage(bool value = true) {
+        _infiniteStorage = value;
     }
 
     /**
-- 
2.43.0


From 9f63dc1c3b78afcfd7e02ab065ccac572178c4cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:59 +0000
Subject: [PATCH 07/36] fix: reset the processes of a snowpack with its
 storages

---
 core/src/bricks/Snowpack.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/src/bricks/Snowpack.cpp b/core/src/bricks/Snowpack.cpp
index bd305ab..c24dec1 100644
--- a/core/src/bricks/Snowpack.cpp
+++ b/core/src/bricks/Snowpack.cpp
@@ -7,7 +7,7 @@ Snowpack::Snowpack()
 }
 
 void Snowpack::Reset() {
-    _water->Reset();
+    Brick::Reset();
     _snow->Reset();
 }
 
-- 
2.43.0


From f818659c6c6abcb5447c97bacc4520a501edfe05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:13 +0000
Subject: [PATCH 08/36] fix: drop forcing values corrected in an interrupted
 step when resetting

---
 core/src/spatial/HydroUnit.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/core/src/spatial/HydroUnit.cpp b/core/src/spatial/HydroUnit.cpp
index 4ac2c6d..a1184ec 100644
--- a/core/src/spatial/HydroUnit.cpp
+++ b/core/src/spatial/HydroUnit.cpp
@@ -104,6 +104,7 @@ void HydroUnit::Reset() {
     for (const auto& brick : _bricks) {
         brick->Reset();
     }
+    ResetForcingUpdates();
 }
 
 void HydroUnit::SaveAsInitialState() {
-- 
2.43.0


From f858aea4081bafc90811ed4ac520ea8047bd0ead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:30 +0000
Subject: [PATCH 09/36] fix: keep the glacier extent set by an evolution action
 after a reset

---
 core/src/actions/ActionGlacierEvolutionAreaScaling.cpp | 2 ++
 core/src/actions/ActionGlacierEvolutionDeltaH.cpp      | 2 ++
 core/src/spatial/HydroUnit.cpp                         | 6 ++++++
 core/src/spatial/HydroUnit.h                           | 6 ++++++
 4 files changed, 16 insertions(+)

diff --git a/core/src/actions/ActionGlacierEvolutionAreaScaling.cpp b/core/src/actions/ActionGlacierEvolutionAreaScaling.cpp
index 119a76f..74cfd85 100644
--- a/core/src/actions/ActionGlacierEvolutionAreaScaling.cpp
+++ b/core/src/actions/ActionGlacierEvolutionAreaScaling.cpp
@@ -45,6 +45,8 @@ bool ActionGlacierEvolutionAreaScaling::Init() {
             if (!unit->ChangeLandCoverAreaFraction(_landCoverName, fraction)) {
                 return false;
             }
+            // Every run starts from this extent, also after a reset.
+            unit->SaveInitialAreaFractions();
         } else if (!NearlyEqual(areaInModel, areaRef, PRECISION)) {
             LogError(
                 "The glacier area fraction in hydro unit %d does not match the lookup table "
diff --git a/core/src/actions/ActionGlacierEvolutionDeltaH.cpp b/core/src/actions/ActionGlacierEvolutionDeltaH.cpp
index ea2f6f7..7a21456 100644
--- a/core/src/actions/ActionGlacierEvolutionDeltaH.cpp
+++ b/core/src/actions/ActionGlacierEvolutionDeltaH.cpp
@@ -47,6 +47,8 @@ bool ActionGlacierEvolutionDeltaH::Init() {
             if (!unit->ChangeLandCoverAreaFraction(_landCoverName, fraction)) {
                 return false;
             }
+            // Every run starts from this extent, also after a reset.
+            unit->SaveInitialAreaFractions();
         } else if (!NearlyEqual(areaInModel, areaRef, PRECISION)) {
             LogError(
                 "The glacier area fraction in hydro unit %d does not match the lookup table "
diff --git a/core/src/spatial/HydroUnit.cpp b/core/src/spatial/HydroUnit.cpp
index a1184ec..835bd2f 100644
--- a/core/src/spatial/HydroUnit.cpp
+++ b/core/src/spatial/HydroUnit.cpp
@@ -457,6 +457,12 @@ void HydroUnit::RestoreInitialAreaFractions() {
     }
 }
 
+void HydroUnit::SaveInitialAreaFractions() {
+    for (auto brick : _landCoverBricks) {
+        brick->SetInitialAreaFraction(brick->GetAreaFraction());
+    }
+}
+
 bool HydroUnit::FixLandCoverFractionsTotal() {
     // The generic (soil) land cover absorbs the area changes.
     LandCover* ground = GetGenericLandCover();
diff --git a/core/src/spatial/HydroUnit.h b/core/src/spatial/HydroUnit.h
index aa6b8b0..97128a4 100644
--- a/core/src/spatial/HydroUnit.h
+++ b/core/src/spatial/HydroUnit.h
@@ -313,6 +313,12 @@ class HydroUnit {
      */
     void RestoreInitialAreaFractions();
 
+    /**
+     * Adopt the current area fractions of all land covers as the initial extents
+     * (used when an action sets the extents a run starts from).
+     */
+    void SaveInitialAreaFractions();
+
     /**
      * Get the generic land cover that absorbs area changes ('open', or its
      * 'ground'/'generic'/'generic_land_cover' aliases).
-- 
2.43.0


From d4941225ffaaaab92c83bae53eb98766162659d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:52 +0000
Subject: [PATCH 10/36] fix: make the number of time steps independent of
 rounding errors in the dates

---
 core/src/base/TimeMachine.cpp | 15 +++++++++++----
 core/src/base/TimeMachine.h   |  1 +
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/core/src/base/TimeMachine.cpp b/core/src/base/TimeMachine.cpp
index 4e3e0d1..7979d2b 100644
--- a/core/src/base/TimeMachine.cpp
+++ b/core/src/base/TimeMachine.cpp
@@ -1,7 +1,8 @@
 #include "TimeMachine.h"
 
 TimeMachine::TimeMachine()
-    : _date(0),
+    : _stepIndex(0),
+      _date(0),
       _start(0),
       _end(0),
       _timeStep(0),
@@ -11,6 +12,7 @@ TimeMachine::TimeMachine()
       _actionsManager(nullptr) {}
 
 void TimeMachine::Initialize(double start, double end, int timeStep, TimeUnit timeStepUnit) {
+    _stepIndex = 0;
     _date = start;
     _start = start;
     _end = end;
@@ -22,6 +24,7 @@ void TimeMachine::Initialize(double start, double end, int timeStep, TimeUnit ti
 void TimeMachine::Initialize(const TimerSettings& settings) {
     _start = ParseDate(settings.start, guess);
     _end = ParseDate(settings.end, guess);
+    _stepIndex = 0;
     _date = _start;
     _timeStep = settings.timeStep;
 
@@ -39,16 +42,19 @@ void TimeMachine::Initialize(const TimerSettings& settings) {
 }
 
 void TimeMachine::Reset() {
+    _stepIndex = 0;
     _date = _start;
 }
 
 bool TimeMachine::IsOver() const {
-    return _date > _end;
+    return _stepIndex >= GetTimeStepCount();
 }
 
 void TimeMachine::IncrementTime() {
     assert(_timeStepInDays > 0);
-    _date += _timeStepInDays;
+    // Computed from the start: adding up the steps would accumulate rounding errors.
+    _stepIndex++;
+    _date = _start + _stepIndex * _timeStepInDays;
 
     if (_parametersUpdater) {
         _parametersUpdater->DateUpdate(_date);
@@ -60,7 +66,8 @@ void TimeMachine::IncrementTime() {
 
 int TimeMachine::GetTimeStepCount() const {
     assert(_timeStepInDays > 0);
-    return static_cast<int>(1 + (_end - _start) / _timeStepInDays);
+    // The tolerance absorbs the rounding of dates, far below the shortest time step.
+    return static_cast<int>(1 + (_end - _start) / _timeStepInDays + 1e-5);
 }
 
 void TimeMachine::UpdateTimeStepInDays() {
diff --git a/core/src/base/TimeMachine.h b/core/src/base/TimeMachine.h
index 3673196..793a086 100644
--- a/core/src/base/TimeMachine.h
+++ b/core/src/base/TimeMachine.h
@@ -131,6 +131,7 @@ class TimeMachine {
     void Validate() const;
 
   private:
+    int _stepIndex;
     double _date;
     double _start;
     double _end;
-- 
2.43.0


From 8d1e6db8b1400056cb122511b591195802ba8aff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:21 +0000
Subject: [PATCH 11/36] fix: reattach actions and parameter updates when a
 spin-up step throws

---
 core/src/base/ModelHydro.cpp | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/core/src/base/ModelHydro.cpp b/core/src/base/ModelHydro.cpp
index 369a304..1f2b97c 100644
--- a/core/src/base/ModelHydro.cpp
+++ b/core/src/base/ModelHydro.cpp
@@ -143,16 +143,23 @@ ModelResult ModelHydro::RunSpinup() {
     _timer.SetParametersUpdater(nullptr);
 
     ModelResult result{};
-    for (int i = 0; i < _spinupSteps; ++i) {
-        if (!_processor.ProcessTimeStep(*_timer.GetTimeStepPointer())) {
-            result = std::unexpected("Time step processing failed during spin-up.");
-            break;
-        }
-        _timer.IncrementTime();
-        if (auto r = UpdateForcing(); !r) {
-            result = std::unexpected(std::format("Failed updating forcing during spin-up: {}", r.error()));
-            break;
+    try {
+        for (int i = 0; i < _spinupSteps; ++i) {
+            if (!_processor.ProcessTimeStep(*_timer.GetTimeStepPointer())) {
+                result = std::unexpected("Time step processing failed during spin-up.");
+                break;
+            }
+            _timer.IncrementTime();
+            if (auto r = UpdateForcing(); !r) {
+                result = std::unexpected(std::format("Failed updating forcing during spin-up: {}", r.error()));
+                break;
+            }
         }
+    } catch (...) {
+        // A failing time step must not leave them detached.
+        _timer.SetActionsManager(&_actionsManager);
+        _timer.SetParametersUpdater(&_parametersUpdater);
+        throw;
     }
 
     _timer.SetActionsManager(&_actionsManager);
-- 
2.43.0


From f391d435f1ac20eebdcf685597d60e891273a9c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:21 +0000
Subject: [PATCH 12/36] fix: position forcing series by their own time step

---
 core/src/base/TimeSeriesData.cpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/core/src/base/TimeSeriesData.cpp b/core/src/base/TimeSeriesData.cpp
index 42b7ee5..3103dd7 100644
--- a/core/src/base/TimeSeriesData.cpp
+++ b/core/src/base/TimeSeriesData.cpp
@@ -76,23 +76,24 @@ bool TimeSeriesDataRegular::SetCursorToDate(double date) {
         return false;
     }
 
-    double dt = date - _start;
-
+    double stepInDays = _timeStep;
     switch (_timeStepUnit) {
         case TimeUnit::Day:
-            _cursor = static_cast<int>(dt);
             break;
         case TimeUnit::Hour:
-            _cursor = static_cast<int>(dt) * 24;
+            stepInDays /= 24.0;
             break;
         case TimeUnit::Minute:
-            _cursor = static_cast<int>(dt) * 1440;
+            stepInDays /= 1440.0;
             break;
         default:
             throw NotImplemented(std::format("TimeSeriesDataRegular::SetCursorToDate - Time unit {} not supported",
                                              static_cast<int>(_timeStepUnit)));
     }
 
+    // Last record at or before the date; the tolerance absorbs the rounding of dates.
+    _cursor = static_cast<int>((date - _start) / stepInDays + 1e-5);
+
     return true;
 }
 
-- 
2.43.0


From c62f219c34ab76c2b018cfbd30eac469eea83b78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:13 +0000
Subject: [PATCH 13/36] fix: apply yearly actions once per date for any time
 step

---
 core/src/actions/Action.cpp         | 11 ++---------
 core/src/actions/ActionsManager.cpp | 16 ++++++++++------
 core/src/actions/ActionsManager.h   |  3 ++-
 core/src/base/TimeMachine.cpp       |  3 ++-
 4 files changed, 16 insertions(+), 17 deletions(-)

diff --git a/core/src/actions/Action.cpp b/core/src/actions/Action.cpp
index 5478ce4..15aa040 100644
--- a/core/src/actions/Action.cpp
+++ b/core/src/actions/Action.cpp
@@ -40,15 +40,8 @@ bool Action::Apply(double) {
 }
 
 bool Action::ApplyIfRecursive(const Time date) {
-    for (int month : _recursiveMonths) {
-        if (month != date.month) {
-            continue;
-        }
-        for (int day : _recursiveDays) {
-            if (day != date.day) {
-                continue;
-            }
-
+    for (size_t i = 0; i < _recursiveMonths.size(); ++i) {
+        if (_recursiveMonths[i] == date.month && _recursiveDays[i] == date.day) {
             return Apply();
         }
     }
diff --git a/core/src/actions/ActionsManager.cpp b/core/src/actions/ActionsManager.cpp
index e39a969..0ae616f 100644
--- a/core/src/actions/ActionsManager.cpp
+++ b/core/src/actions/ActionsManager.cpp
@@ -77,13 +77,17 @@ int ActionsManager::GetSporadicActionItemCount() const {
     return items;
 }
 
-void ActionsManager::DateUpdate(double date) {
-    // Recursive actions
+void ActionsManager::DateUpdate(double date, double previousDate) {
+    // Recursive actions, once for every day that begins with this update (the tolerance
+    // absorbs the rounding of dates)
     if (!_recursiveActionIndices.empty()) {
-        Time dateStruct = GetTimeStructFromMJD(date);
-        for (int actionIndex : _recursiveActionIndices) {
-            if (!_actions[actionIndex]->ApplyIfRecursive(dateStruct)) {
-                throw RuntimeError("Application of a recursive action failed.");
+        int lastDay = static_cast<int>(date + 1e-5);
+        for (int day = static_cast<int>(previousDate + 1e-5) + 1; day <= lastDay; ++day) {
+            Time dateStruct = GetTimeStructFromMJD(day);
+            for (int actionIndex : _recursiveActionIndices) {
+                if (!_actions[actionIndex]->ApplyIfRecursive(dateStruct)) {
+                    throw RuntimeError("Application of a recursive action failed.");
+                }
             }
         }
     }
diff --git a/core/src/actions/ActionsManager.h b/core/src/actions/ActionsManager.h
index 57a723b..0c85caa 100644
--- a/core/src/actions/ActionsManager.h
+++ b/core/src/actions/ActionsManager.h
@@ -61,8 +61,9 @@ class ActionsManager {
      * Update the date during the simulation. Triggers the actions that are scheduled for the current date.
      *
      * @param date corresponding date of the simulation.
+     * @param previousDate date of the simulation before this update.
      */
-    void DateUpdate(double date);
+    void DateUpdate(double date, double previousDate);
 
     /**
      * Get the sub basin associated with the model.
diff --git a/core/src/base/TimeMachine.cpp b/core/src/base/TimeMachine.cpp
index 7979d2b..ec0a8ab 100644
--- a/core/src/base/TimeMachine.cpp
+++ b/core/src/base/TimeMachine.cpp
@@ -52,6 +52,7 @@ bool TimeMachine::IsOver() const {
 
 void TimeMachine::IncrementTime() {
     assert(_timeStepInDays > 0);
+    double previousDate = _date;
     // Computed from the start: adding up the steps would accumulate rounding errors.
     _stepIndex++;
     _date = _start + _stepIndex * _timeStepInDays;
@@ -60,7 +61,7 @@ void TimeMachine::IncrementTime() {
         _parametersUpdater->DateUpdate(_date);
     }
     if (_actionsManager) {
-        _actionsManager->DateUpdate(_date);
+        _actionsManager->DateUpdate(_date, previousDate);
     }
 }
 
-- 
2.43.0


From a7b0d3abdc6d3f4906f1e0d5a766f5589cd634b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:16 +0000
Subject: [PATCH 14/36] fix: a refused land cover change leaves the area
 fractions as they were

---
 core/src/spatial/HydroUnit.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/core/src/spatial/HydroUnit.cpp b/core/src/spatial/HydroUnit.cpp
index 835bd2f..d7d2e3c 100644
--- a/core/src/spatial/HydroUnit.cpp
+++ b/core/src/spatial/HydroUnit.cpp
@@ -365,8 +365,14 @@ bool HydroUnit::ChangeLandCoverAreaFraction(std::string_view name, double fracti
         TransferLandCoverContent(changed, oldFraction, fraction, generic, genericOldFraction, genericNewFraction);
     }
 
+    double previousFraction = changed->GetAreaFraction();
     changed->SetAreaFraction(fraction);
-    return FixLandCoverFractionsTotal();
+    if (!FixLandCoverFractionsTotal()) {
+        changed->SetAreaFraction(previousFraction);
+        return false;
+    }
+
+    return true;
 }
 
 LandCover* HydroUnit::GetGenericLandCover() const {
-- 
2.43.0


From 54bbb05e722fc994cd0b722a419503f288d6435d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:35 +0000
Subject: [PATCH 15/36] fix: a cover or component that lost its area went on
 delivering the water of its last step

---
 core/src/base/Processor.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/core/src/base/Processor.cpp b/core/src/base/Processor.cpp
index efed925..c6efc44 100644
--- a/core/src/base/Processor.cpp
+++ b/core/src/base/Processor.cpp
@@ -256,6 +256,14 @@ bool Processor::ProcessTimeStep(double timeStepInDays) {
                 continue;
             }
             if (brick->IsNull()) {
+                // Nothing flows out of a brick without area: clear what its last step with an area left.
+                for (int i = 0; i < brick->GetProcessCount(); ++i) {
+                    auto process = brick->GetProcess(i);
+                    for (int j = 0; j < process->GetOutputFluxCount(); ++j) {
+                        process->GetOutputFlux(j)->Reset();
+                        process->GetOutputFlux(j)->LinkChangeRate(nullptr);
+                    }
+                }
                 continue;
             }
 
-- 
2.43.0


From 98434451e2ffc6887416667e2695c85e6cab49a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:49:37 +0000
Subject: [PATCH 16/36] fix: an overflow declared as outflow:overflow did not
 receive the excess of its store

---
 core/src/base/ModelBuilder.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/core/src/base/ModelBuilder.cpp b/core/src/base/ModelBuilder.cpp
index 9db8c4e..e1952c8 100644
--- a/core/src/base/ModelBuilder.cpp
+++ b/core/src/base/ModelBuilder.cpp
@@ -17,6 +17,7 @@
 #include "Logger.h"
 #include "Process.h"
 #include "ProcessLateral.h"
+#include "ProcessOutflowOverflow.h"
 #include "SettingsBasin.h"
 #include "SettingsModel.h"
 #include "Splitter.h"
@@ -127,7 +128,7 @@ void ModelBuilder::CreateSubBasinComponents(SettingsModel& modelSettings) {
             process->SetParameters(processSettings);
             brick->AddProcess(std::move(processPtr));
 
-            if (processSettings.type == "overflow") {
+            if (dynamic_cast<ProcessOutflowOverflow*>(process)) {
                 brick->GetWaterContainer()->LinkOverflow(process);
             }
         }
@@ -231,7 +232,7 @@ void ModelBuilder::CreateHydroUnitBrick(SettingsModel& modelSettings, HydroUnit*
         process->SetParameters(processSettings);
         brick->AddProcess(std::move(processPtr));
 
-        if (processSettings.type == "overflow") {
+        if (dynamic_cast<ProcessOutflowOverflow*>(process)) {
             brick->GetWaterContainer()->LinkOverflow(process);
         }
 
-- 
2.43.0


From 396b0f94fe5b0ddc007b9f28a7d60cb69d058855 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:40:28 +0000
Subject: [PATCH 17/36] fix: a hydro unit property was returned unconverted for
 degree units, and not at all when asked for in no unit

---
 core/src/spatial/HydroUnitProperty.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/src/spatial/HydroUnitProperty.cpp b/core/src/spatial/HydroUnitProperty.cpp
index 0f329ff..bac5454 100644
--- a/core/src/spatial/HydroUnitProperty.cpp
+++ b/core/src/spatial/HydroUnitProperty.cpp
@@ -17,11 +17,11 @@ HydroUnitProperty::HydroUnitProperty(string name, string valueString, string uni
       _valueString(std::move(valueString)) {}
 
 double HydroUnitProperty::GetValue(std::string_view unit) const {
-    if (_unit == unit) {
+    if (unit.empty() || _unit == unit) {
         return _value;
     }
     if (_unit == "degrees" || _unit == "degree" || _unit == "deg" || _unit == "°") {
-        if (unit == "degrees" || _unit == "degree" || unit == "deg" || _unit == "°") {
+        if (unit == "degrees" || unit == "degree" || unit == "deg" || unit == "°") {
             return _value;
         }
         if (unit == "radians" || unit == "rad") {
-- 
2.43.0


From f936a7e02b994210644f472e4d73cf3007cbf98a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:40:28 +0000
Subject: [PATCH 18/36] fix: most sub-daily forcing data were refused because
 their end date differed by rounding

---
 core/src/base/TimeSeriesData.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/core/src/base/TimeSeriesData.cpp b/core/src/base/TimeSeriesData.cpp
index 3103dd7..e3396c5 100644
--- a/core/src/base/TimeSeriesData.cpp
+++ b/core/src/base/TimeSeriesData.cpp
@@ -39,7 +39,8 @@ TimeSeriesDataRegular::TimeSeriesDataRegular(double start, double end, int timeS
 
 bool TimeSeriesDataRegular::SetValues(vecDouble values) {
     double calcEnd = IncrementDateBy(_start, _timeStep * static_cast<int>(values.size() - 1), _timeStepUnit);
-    if (calcEnd != _end) {
+    // The two dates are computed differently and can differ by rounding.
+    if (std::abs(calcEnd - _end) > 1e-5) {
         LogError("The size of the time series data does not match the time properties.");
         LogError("End of the data ({}) != end of the dates ({}).", calcEnd, _end);
         return false;
-- 
2.43.0


From 4a21be23d692ee5abdd2b53fecc667dc9e35465b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:40:28 +0000
Subject: [PATCH 19/36] fix: the period of distributed forcing data was that of
 its first unit only

---
 core/src/base/TimeSeriesDistributed.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/core/src/base/TimeSeriesDistributed.cpp b/core/src/base/TimeSeriesDistributed.cpp
index a3c3bd9..9e3579c 100644
--- a/core/src/base/TimeSeriesDistributed.cpp
+++ b/core/src/base/TimeSeriesDistributed.cpp
@@ -33,12 +33,20 @@ bool TimeSeriesDistributed::AdvanceOneTimeStep() {
 
 double TimeSeriesDistributed::GetStart() const {
     assert(!_data.empty());
-    return _data[0]->GetStart();
+    double start = _data[0]->GetStart();
+    for (const auto& data : _data) {
+        start = std::max(start, data->GetStart());
+    }
+    return start;
 }
 
 double TimeSeriesDistributed::GetEnd() const {
     assert(!_data.empty());
-    return _data[0]->GetEnd();
+    double end = _data[0]->GetEnd();
+    for (const auto& data : _data) {
+        end = std::min(end, data->GetEnd());
+    }
+    return end;
 }
 
 double TimeSeriesDistributed::GetTotal(const SettingsBasin* basinSettings) {
-- 
2.43.0


From 1d3647c118e6839aa500dd5380245e5230ceba31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:40:28 +0000
Subject: [PATCH 20/36] fix: forcing values were read at a wrong position for a
 date without data

---
 core/src/base/TimeSeriesData.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/core/src/base/TimeSeriesData.cpp b/core/src/base/TimeSeriesData.cpp
index e3396c5..406a19c 100644
--- a/core/src/base/TimeSeriesData.cpp
+++ b/core/src/base/TimeSeriesData.cpp
@@ -51,7 +51,9 @@ bool TimeSeriesDataRegular::SetValues(vecDouble values) {
 }
 
 double TimeSeriesDataRegular::GetValueFor(double date) {
-    SetCursorToDate(date);
+    if (!SetCursorToDate(date)) {
+        throw InputError(std::format("No data available for the date {}.", date));
+    }
     return _values[_cursor];
 }
 
-- 
2.43.0


From b5a05a26a31e9aa143522a9c67fd7077e6330caa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:40:28 +0000
Subject: [PATCH 21/36] fix: forcing data with refused values, rounded dates or
 a single date was loaded all the same

---
 core/src/base/TimeSeries.cpp | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/core/src/base/TimeSeries.cpp b/core/src/base/TimeSeries.cpp
index c5bf0ee..607dbe4 100644
--- a/core/src/base/TimeSeries.cpp
+++ b/core/src/base/TimeSeries.cpp
@@ -22,7 +22,10 @@ bool TimeSeries::Parse(const string& path, vector<std::unique_ptr<TimeSeries>>&
         int timeLength = file.GetDimLen("time");
 
         // Get time
-        vecFloat time = file.GetVarFloat1D("time", timeLength);
+        vecDouble time = file.GetVarDouble1D("time", timeLength);
+        if (time.size() < 2) {
+            throw InputError("The forcing data must contain at least two dates.");
+        }
         Time startSt = GetTimeStructFromMJD(time[0]);
         Time endSt = GetTimeStructFromMJD(time[time.size() - 1]);
         double start = GetMJD(startSt.year, startSt.month, startSt.day, startSt.hour, startSt.min);
@@ -64,7 +67,10 @@ bool TimeSeries::Parse(const string& path, vector<std::unique_ptr<TimeSeries>>&
                 for (int i = 0; i < values.rows(); ++i) {
                     axd valuesUnit = values.row(i);
                     auto forcingData = std::make_unique<TimeSeriesDataRegular>(start, end, timeStep, timeUnit);
-                    forcingData->SetValues(vector<double>(valuesUnit.data(), valuesUnit.data() + valuesUnit.rows()));
+                    if (!forcingData->SetValues(
+                            vector<double>(valuesUnit.data(), valuesUnit.data() + valuesUnit.rows()))) {
+                        return false;
+                    }
                     timeSeries->AddData(std::move(forcingData), ids[i]);
                 }
             } else {
@@ -73,7 +79,9 @@ bool TimeSeries::Parse(const string& path, vector<std::unique_ptr<TimeSeries>>&
                     // A column of a column-major array is contiguous, so copy it straight into the vector.
                     const double* colStart = values.col(i).data();
                     auto forcingData = std::make_unique<TimeSeriesDataRegular>(start, end, timeStep, timeUnit);
-                    forcingData->SetValues(vecDouble(colStart, colStart + values.rows()));
+                    if (!forcingData->SetValues(vecDouble(colStart, colStart + values.rows()))) {
+                        return false;
+                    }
                     timeSeries->AddData(std::move(forcingData), ids[i]);
                 }
             }
@@ -91,6 +99,9 @@ bool TimeSeries::Parse(const string& path, vector<std::unique_ptr<TimeSeries>>&
 
 std::unique_ptr<TimeSeries> TimeSeries::Create(const string& varName, const axd& time, const axi& ids,
                                                const axxd& data) {
+    if (time.size() < 2) {
+        throw InputError("The forcing data must contain at least two dates.");
+    }
     // Get time
     Time startSt = GetTimeStructFromMJD(time[0]);
     Time endSt = GetTimeStructFromMJD(time[time.size() - 1]);
-- 
2.43.0


From fc8cdfda08b4c9146add9efb9e9e141ae783c8ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:40:28 +0000
Subject: [PATCH 22/36] fix: forcing data of another time step than the model
 was accepted and read out of phase

---
 core/src/base/ModelHydro.cpp            |  5 +++++
 core/src/base/TimeSeries.h              |  8 ++++++++
 core/src/base/TimeSeriesData.cpp        |  8 ++++++++
 core/src/base/TimeSeriesData.h          | 13 +++++++++++++
 core/src/base/TimeSeriesDistributed.cpp |  9 +++++++++
 core/src/base/TimeSeriesDistributed.h   |  5 +++++
 core/src/base/TimeSeriesUniform.cpp     |  5 +++++
 core/src/base/TimeSeriesUniform.h       |  5 +++++
 8 files changed, 58 insertions(+)

diff --git a/core/src/base/ModelHydro.cpp b/core/src/base/ModelHydro.cpp
index 1f2b97c..57c14bd 100644
--- a/core/src/base/ModelHydro.cpp
+++ b/core/src/base/ModelHydro.cpp
@@ -283,6 +283,11 @@ bool ModelHydro::AddTimeSeries(std::unique_ptr<TimeSeries> timeSeries) {
         }
     }
 
+    if (!timeSeries->MatchesTimeStep(*_timer.GetTimeStepPointer())) {
+        LogError("The time step of the data does not match the time step of the model.");
+        return false;
+    }
+
     if (timeSeries->GetStart() > _timer.GetStart()) {
         LogError("The data starts after the beginning of the modelling period.");
         return false;
diff --git a/core/src/base/TimeSeries.h b/core/src/base/TimeSeries.h
index a5c7384..1859961 100644
--- a/core/src/base/TimeSeries.h
+++ b/core/src/base/TimeSeries.h
@@ -69,6 +69,14 @@ class TimeSeries {
      */
     [[nodiscard]] virtual double GetEnd() const = 0;
 
+    /**
+     * Check that the records of the time series are spaced by the given time step.
+     *
+     * @param timeStepInDays the time step [days].
+     * @return true if the records follow the given time step.
+     */
+    [[nodiscard]] virtual bool MatchesTimeStep(double timeStepInDays) const = 0;
+
     /**
      * Get the sum of the time series data for the provided basin settings.
      *
diff --git a/core/src/base/TimeSeriesData.cpp b/core/src/base/TimeSeriesData.cpp
index 406a19c..0f11c24 100644
--- a/core/src/base/TimeSeriesData.cpp
+++ b/core/src/base/TimeSeriesData.cpp
@@ -26,6 +26,10 @@ double TimeSeriesData::GetSum() {
     throw NotImplemented("TimeSeriesData::GetSum - Not yet implemented");
 }
 
+bool TimeSeriesData::MatchesTimeStep(double) const {
+    throw NotImplemented("TimeSeriesData::MatchesTimeStep - Not yet implemented");
+}
+
 /*
  * TimeSeriesDataRegular
  */
@@ -118,6 +122,10 @@ double TimeSeriesDataRegular::GetEnd() const {
     return _end;
 }
 
+bool TimeSeriesDataRegular::MatchesTimeStep(double timeStepInDays) const {
+    return std::abs(IncrementDateBy(0, _timeStep, _timeStepUnit) - timeStepInDays) < 1e-5;
+}
+
 bool TimeSeriesDataRegular::IsValid() const {
     // Check that values have been set
     if (_values.empty()) {
diff --git a/core/src/base/TimeSeriesData.h b/core/src/base/TimeSeriesData.h
index a33cafe..391ac55 100644
--- a/core/src/base/TimeSeriesData.h
+++ b/core/src/base/TimeSeriesData.h
@@ -68,6 +68,14 @@ class TimeSeriesData {
      */
     [[nodiscard]] virtual double GetEnd() const = 0;
 
+    /**
+     * Check that the records of the time series are spaced by the given time step.
+     *
+     * @param timeStepInDays the time step [days].
+     * @return true if the records follow the given time step.
+     */
+    [[nodiscard]] virtual bool MatchesTimeStep(double timeStepInDays) const;
+
     /**
      * Check if the time series data is valid.
      * Verifies that the data has values and date range is set correctly.
@@ -135,6 +143,11 @@ class TimeSeriesDataRegular : public TimeSeriesData {
      */
     double GetEnd() const override;
 
+    /**
+     * @copydoc TimeSeriesData::MatchesTimeStep()
+     */
+    [[nodiscard]] bool MatchesTimeStep(double timeStepInDays) const override;
+
     /**
      * @copydoc TimeSeriesData::IsValid()
      */
diff --git a/core/src/base/TimeSeriesDistributed.cpp b/core/src/base/TimeSeriesDistributed.cpp
index 9e3579c..46f3a45 100644
--- a/core/src/base/TimeSeriesDistributed.cpp
+++ b/core/src/base/TimeSeriesDistributed.cpp
@@ -49,6 +49,15 @@ double TimeSeriesDistributed::GetEnd() const {
     return end;
 }
 
+bool TimeSeriesDistributed::MatchesTimeStep(double timeStepInDays) const {
+    for (const auto& data : _data) {
+        if (!data->MatchesTimeStep(timeStepInDays)) {
+            return false;
+        }
+    }
+    return true;
+}
+
 double TimeSeriesDistributed::GetTotal(const SettingsBasin* basinSettings) {
     double total = 0;
     double areaTotal = basinSettings->GetTotalArea();
diff --git a/core/src/base/TimeSeriesDistributed.h b/core/src/base/TimeSeriesDistributed.h
index b457871..7112be4 100644
--- a/core/src/base/TimeSeriesDistributed.h
+++ b/core/src/base/TimeSeriesDistributed.h
@@ -47,6 +47,11 @@ class TimeSeriesDistributed : public TimeSeries {
      */
     [[nodiscard]] double GetEnd() const override;
 
+    /**
+     * @copydoc TimeSeries::MatchesTimeStep()
+     */
+    [[nodiscard]] bool MatchesTimeStep(double timeStepInDays) const override;
+
     /**
      * @copydoc TimeSeries::GetTotal()
      */
diff --git a/core/src/base/TimeSeriesUniform.cpp b/core/src/base/TimeSeriesUniform.cpp
index a4b884c..83f5ea6 100644
--- a/core/src/base/TimeSeriesUniform.cpp
+++ b/core/src/base/TimeSeriesUniform.cpp
@@ -34,6 +34,11 @@ double TimeSeriesUniform::GetEnd() const {
     return _data->GetEnd();
 }
 
+bool TimeSeriesUniform::MatchesTimeStep(double timeStepInDays) const {
+    assert(_data);
+    return _data->MatchesTimeStep(timeStepInDays);
+}
+
 double TimeSeriesUniform::GetTotal(const SettingsBasin*) {
     throw NotImplemented("TimeSeriesUniform::GetTotal - Not yet implemented");
 }
diff --git a/core/src/base/TimeSeriesUniform.h b/core/src/base/TimeSeriesUniform.h
index 8126e99..a1e46e7 100644
--- a/core/src/base/TimeSeriesUniform.h
+++ b/core/src/base/TimeSeriesUniform.h
@@ -49,6 +49,11 @@ class TimeSeriesUniform : public TimeSeries {
      */
     [[nodiscard]] double GetEnd() const override;
 
+    /**
+     * @copydoc TimeSeries::MatchesTimeStep()
+     */
+    [[nodiscard]] bool MatchesTimeStep(double timeStepInDays) const override;
+
     /**
      * @copydoc TimeSeries::GetTotal()
      */
-- 
2.43.0


From 639e8334e435e69071511cf3bebcdeee14f18d22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:42:21 +0000
Subject: [PATCH 23/36] fix: a unit without glacier in the first row of a
 glacier table got an undefined amount of ice

---
 core/src/actions/ActionGlacierEvolutionAreaScaling.cpp | 4 +++-
 core/src/actions/ActionGlacierEvolutionDeltaH.cpp      | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/core/src/actions/ActionGlacierEvolutionAreaScaling.cpp b/core/src/actions/ActionGlacierEvolutionAreaScaling.cpp
index 74cfd85..d01ace0 100644
--- a/core/src/actions/ActionGlacierEvolutionAreaScaling.cpp
+++ b/core/src/actions/ActionGlacierEvolutionAreaScaling.cpp
@@ -61,7 +61,9 @@ bool ActionGlacierEvolutionAreaScaling::Init() {
             LogError("The land cover {} was not found in hydro unit {}", _landCoverName, id);
             return false;
         }
-        double iceWE = _tableVolume(0, i) * constants::iceDensity / areaRef;
+        // A unit without glacier holds no ice.
+        double iceWE =
+            NearlyZero(areaRef, PRECISION) ? 0.0 : _tableVolume(0, i) * constants::iceDensity / areaRef;
         brick->UpdateContent(iceWE, ContentType::Ice);
         brick->SetInitialState(iceWE, ContentType::Ice);
     }
diff --git a/core/src/actions/ActionGlacierEvolutionDeltaH.cpp b/core/src/actions/ActionGlacierEvolutionDeltaH.cpp
index 7a21456..2c3a0b5 100644
--- a/core/src/actions/ActionGlacierEvolutionDeltaH.cpp
+++ b/core/src/actions/ActionGlacierEvolutionDeltaH.cpp
@@ -63,7 +63,9 @@ bool ActionGlacierEvolutionDeltaH::Init() {
             LogError("The land cover {} was not found in hydro unit {}", _landCoverName, id);
             return false;
         }
-        double iceWE = _tableVolume(0, i) * constants::iceDensity / areaRef;
+        // A unit without glacier holds no ice.
+        double iceWE =
+            NearlyZero(areaRef, PRECISION) ? 0.0 : _tableVolume(0, i) * constants::iceDensity / areaRef;
         brick->UpdateContent(iceWE, ContentType::Ice);
         brick->SetInitialState(iceWE, ContentType::Ice);
     }
-- 
2.43.0


From 0fd278db64deae317b6c089d911280c32e555485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:22:21 +0000
Subject: [PATCH 24/36] fix: snow moved to a smaller area without being made
 instantaneous was not converted by the areas

---
 core/src/fluxes/Flux.cpp        | 2 +-
 core/src/fluxes/FluxToBrick.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/src/fluxes/Flux.cpp b/core/src/fluxes/Flux.cpp
index 9ed4502..bc45b70 100644
--- a/core/src/fluxes/Flux.cpp
+++ b/core/src/fluxes/Flux.cpp
@@ -18,7 +18,7 @@ void Flux::Reset() {
 }
 
 void Flux::UpdateFlux(double amount) {
-    if (_fractionTotal < 1.0) {
+    if (_fractionTotal != 1.0) {
         _amount = amount * _fractionTotal;
     } else {
         _amount = amount;
diff --git a/core/src/fluxes/FluxToBrick.cpp b/core/src/fluxes/FluxToBrick.cpp
index d01ab3c..d01b587 100644
--- a/core/src/fluxes/FluxToBrick.cpp
+++ b/core/src/fluxes/FluxToBrick.cpp
@@ -16,7 +16,7 @@ double FluxToBrick::GetAmount() {
 
 void FluxToBrick::UpdateFlux(double amount) {
     assert(_toBrick);
-    if (_fractionTotal < 1.0) {
+    if (_fractionTotal != 1.0) {
         _amount = amount * _fractionTotal;
     } else {
         _amount = amount;
-- 
2.43.0


From f5be668c5ed94f0fa5de49247a6c399b118cee06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:06:20 +0000
Subject: [PATCH 25/36] fix: make the log level atomic (read by running models
 while another thread sets it)

---
 core/src/base/Log.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/core/src/base/Log.cpp b/core/src/base/Log.cpp
index 0cdb2de..65ca55f 100644
--- a/core/src/base/Log.cpp
+++ b/core/src/base/Log.cpp
@@ -1,5 +1,6 @@
 #include "Log.h"
 
+#include <atomic>
 #include <fstream>
 #include <iostream>
 #include <mutex>
@@ -8,7 +9,7 @@
 namespace {
 
 struct LogState {
-    LogLevel level = LogLevel::Message;
+    std::atomic<LogLevel> level = LogLevel::Message;
     std::ofstream logFile;
     std::mutex mutex;
 };
-- 
2.43.0


From 95eb7573915eb3f843388e4288762c32f5ea84bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:06:20 +0000
Subject: [PATCH 26/36] fix: rain and snow/rain splitters without their forcing
 are not valid

---
 core/src/fluxes/SplitterRain.cpp              | 4 ++++
 core/src/fluxes/SplitterSnowRainLinear.cpp    | 8 ++++++++
 core/src/fluxes/SplitterSnowRainThreshold.cpp | 9 +++++++++
 3 files changed, 21 insertions(+)

diff --git a/core/src/fluxes/SplitterRain.cpp b/core/src/fluxes/SplitterRain.cpp
index 960924a..07b39ad 100644
--- a/core/src/fluxes/SplitterRain.cpp
+++ b/core/src/fluxes/SplitterRain.cpp
@@ -10,6 +10,10 @@ bool SplitterRain::IsValid() const {
         LogError("SplitterRain should have 1 output.");
         return false;
     }
+    if (_precipitation == nullptr) {
+        LogError("SplitterRain: precipitation forcing not attached.");
+        return false;
+    }
 
     return true;
 }
diff --git a/core/src/fluxes/SplitterSnowRainLinear.cpp b/core/src/fluxes/SplitterSnowRainLinear.cpp
index 6213cff..05f5927 100644
--- a/core/src/fluxes/SplitterSnowRainLinear.cpp
+++ b/core/src/fluxes/SplitterSnowRainLinear.cpp
@@ -14,6 +14,14 @@ bool SplitterSnowRainLinear::IsValid() const {
         LogError("SplitterSnowRainLinear should have 2 outputs.");
         return false;
     }
+    if (_precipitation == nullptr) {
+        LogError("SplitterSnowRainLinear: precipitation forcing not attached.");
+        return false;
+    }
+    if (_temperature == nullptr) {
+        LogError("SplitterSnowRainLinear: temperature forcing not attached.");
+        return false;
+    }
 
     return true;
 }
diff --git a/core/src/fluxes/SplitterSnowRainThreshold.cpp b/core/src/fluxes/SplitterSnowRainThreshold.cpp
index a446ce2..c337796 100644
--- a/core/src/fluxes/SplitterSnowRainThreshold.cpp
+++ b/core/src/fluxes/SplitterSnowRainThreshold.cpp
@@ -13,6 +13,15 @@ bool SplitterSnowRainThreshold::IsValid() const {
         LogError("SplitterSnowRainThreshold should have 2 outputs.");
         return false;
     }
+    if (_precipitation == nullptr) {
+        LogError("SplitterSnowRainThreshold: precipitation forcing not attached.");
+        return false;
+    }
+    if (_temperature == nullptr) {
+        LogError("SplitterSnowRainThreshold: temperature forcing not attached.");
+        return false;
+    }
+
     return true;
 }
 
-- 
2.43.0


From 19222c84ce81dc1f8196354d620ad0040c714439 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:06:20 +0000
Subject: [PATCH 27/36] fix: a required forcing without time series raises an
 error instead of dereferencing null

---
 core/src/base/Forcing.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/core/src/base/Forcing.cpp b/core/src/base/Forcing.cpp
index b5a7f85..ba7969d 100644
--- a/core/src/base/Forcing.cpp
+++ b/core/src/base/Forcing.cpp
@@ -10,8 +10,10 @@ void Forcing::AttachTimeSeriesData(TimeSeriesData* timeSeriesData) {
 }
 
 double Forcing::GetValue() const {
-    assert(_timeSeriesData);
     if (_hasUpdatedValue) return _updatedValue;
+    if (!_timeSeriesData) {
+        throw ModelConfigError("No time series was provided for a forcing that the model requires.");
+    }
     return _timeSeriesData->GetCurrentValue();
 }
 
-- 
2.43.0


From 11dbe2da9e081d2be686f39f32e21e04286acf14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:08:30 +0000
Subject: [PATCH 28/36] fix: the SWAT snow to ice transformation without its
 hemisphere parameter dereferenced null

---
 core/src/processes/ProcessTransformSnowToIceSwat.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/src/processes/ProcessTransformSnowToIceSwat.cpp b/core/src/processes/ProcessTransformSnowToIceSwat.cpp
index 3a1c45e..0212abb 100644
--- a/core/src/processes/ProcessTransformSnowToIceSwat.cpp
+++ b/core/src/processes/ProcessTransformSnowToIceSwat.cpp
@@ -31,7 +31,7 @@ void ProcessTransformSnowToIceSwat::SetParameters(const ProcessSettings& process
 const vecDouble& ProcessTransformSnowToIceSwat::GetRates() {
     assert(_timeMachine);
     int doy = _timeMachine->GetCurrentDayOfYear();
-    bool northHemisphere = !(*_northHemisphere == 0);
+    bool northHemisphere = _northHemisphere == nullptr || *_northHemisphere != 0;
     int daysRef = (northHemisphere) ? 81 : 264;  // 81 = March 22, 264 = September 21
     auto coeff = static_cast<float>(*_basalAccCoeff * (1 + std::sin(2.0f * constants::pi * (doy - daysRef) / 365.0f)));
 
-- 
2.43.0


From 5ad7848c0c481b672c43abeef46b04cc0d5c814f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:45:38 +0000
Subject: [PATCH 29/36] fix: unknown brick and splitter types raise an error
 instead of a null dereference

---
 core/src/bricks/Brick.cpp    | 4 ++--
 core/src/fluxes/Splitter.cpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/core/src/bricks/Brick.cpp b/core/src/bricks/Brick.cpp
index f916bbb..5c71997 100644
--- a/core/src/bricks/Brick.cpp
+++ b/core/src/bricks/Brick.cpp
@@ -20,8 +20,8 @@ Brick::Brick()
 std::unique_ptr<Brick> Brick::Factory(const BrickSettings& brickSettings) {
     BrickType type = BrickTypeFromString(brickSettings.type);
     if (type == BrickType::Unknown) {
-        LogError("Brick type '{}' not recognized. {}", brickSettings.type, GetBrickTypeSuggestions());
-        return nullptr;
+        throw ModelConfigError(
+            std::format("Brick type '{}' not recognized. {}", brickSettings.type, GetBrickTypeSuggestions()));
     }
     return Factory(type);
 }
diff --git a/core/src/fluxes/Splitter.cpp b/core/src/fluxes/Splitter.cpp
index 2038075..4597174 100644
--- a/core/src/fluxes/Splitter.cpp
+++ b/core/src/fluxes/Splitter.cpp
@@ -72,8 +72,8 @@ std::unique_ptr<Splitter> Splitter::Factory(const SplitterSettings& splitterSett
     if (it != registry.end()) {
         return it->second(splitterSettings);
     }
-    LogError("Splitter type '{}' not recognized. {}", splitterSettings.type, GetValidSplitterTypes());
-    return nullptr;
+    throw ModelConfigError(
+        std::format("Splitter type '{}' not recognized. {}", splitterSettings.type, GetValidSplitterTypes()));
 }
 
 const float* Splitter::GetParameterValuePointer(const SplitterSettings& splitterSettings, const string& name) {
-- 
2.43.0


From 339b39d7dc091652482abb64a521dc46191b0e66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:02:09 +0000
Subject: [PATCH 30/36] fix: report a failing close or write of a results file,
 and do not throw from the FileNetcdf destructor

---
 core/src/base/FileNetcdf.cpp   | 10 ++++++++--
 core/src/base/ResultWriter.cpp |  7 +++++++
 2 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/core/src/base/FileNetcdf.cpp b/core/src/base/FileNetcdf.cpp
index 35a0760..78310cf 100644
--- a/core/src/base/FileNetcdf.cpp
+++ b/core/src/base/FileNetcdf.cpp
@@ -7,7 +7,11 @@ FileNetcdf::FileNetcdf()
 
 FileNetcdf::~FileNetcdf() {
     if (_ncId >= 0) {
-        CheckNcStatus(nc_close(_ncId));
+        // A destructor must not throw: report the failure without raising an exception.
+        int status = nc_close(_ncId);
+        if (status != NC_NOERR) {
+            LogError(std::format("NetCDF error: {}", nc_strerror(status)));
+        }
     }
 }
 
@@ -43,8 +47,10 @@ bool FileNetcdf::Create(const string& path) {
 }
 
 void FileNetcdf::Close() {
-    CheckNcStatus(nc_close(_ncId));
+    // The identifier is released even if closing fails.
+    int status = nc_close(_ncId);
     _ncId = -1;
+    CheckNcStatus(status);
 }
 
 int FileNetcdf::GetVariableCount() const {
diff --git a/core/src/base/ResultWriter.cpp b/core/src/base/ResultWriter.cpp
index d173bee..4f3ed8c 100644
--- a/core/src/base/ResultWriter.cpp
+++ b/core/src/base/ResultWriter.cpp
@@ -79,6 +79,9 @@ bool ResultWriter::WriteNetCDF(const string& path, const axd& time, const vecInt
             file.PutAttString("labels_land_covers", hydroUnitFractionLabels);
         }
 
+        // Close explicitly, so that a failure to flush the data is reported.
+        file.Close();
+
     } catch (std::exception& e) {
         LogError(e.what());
         return false;
@@ -123,6 +126,10 @@ bool ResultWriter::WriteCSV(const string& path, const axd& time, const vecStr& l
         }
 
         outFile.close();
+        if (!outFile) {
+            LogError("Could not write file {}.", filePath);
+            return false;
+        }
 
     } catch (std::exception& e) {
         LogError(e.what());
-- 
2.43.0


From 7abaa0231afe56c3322529df6e0f3caaef5d8118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:02:09 +0000
Subject: [PATCH 31/36] fix: average over the hydro units, not over time, in
 Results.get_mean_hydro_units_values

---
 python/src/hydrobricks/results.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/python/src/hydrobricks/results.py b/python/src/hydrobricks/results.py
index 9b5f170..3f08563 100644
--- a/python/src/hydrobricks/results.py
+++ b/python/src/hydrobricks/results.py
@@ -186,7 +186,7 @@ class Results:
         -------
         np.ndarray
             Values of the component at the hydro units.
-            Shape: (n_timesteps, n_hydro_units) for time series, or
+            Shape: (n_hydro_units, n_timesteps) for time series, or
             (n_hydro_units,) for single date if only start_date provided.
 
         Raises
@@ -246,7 +246,8 @@ class Results:
         values = self.get_hydro_units_values(component, start_date, end_date)
         lc_areas = self.get_land_cover_areas(land_cover, start_date, end_date)
 
-        return self._area_weighted_nanmean(values, lc_areas, axis=1)
+        # Values are (units × time), or (units,) for a single date: average over the units.
+        return self._area_weighted_nanmean(values, lc_areas, axis=0)
 
     def get_mean_swe(
         self, start_date: str | None = None, end_date: str | None = None
-- 
2.43.0


From 0a3eb3101d43541823e1389bdfc4729064964824 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:06:16 +0000
Subject: [PATCH 32/36] fix: raise when the model outputs could not be written
 instead of returning the path

---
 python/src/hydrobricks/models/model.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/python/src/hydrobricks/models/model.py b/python/src/hydrobricks/models/model.py
index b229454..d24197f 100644
--- a/python/src/hydrobricks/models/model.py
+++ b/python/src/hydrobricks/models/model.py
@@ -496,7 +496,8 @@ class Model(ABC):
         Raises
         ------
         ModelError
-            If no path is given and the model has no output path (setup not called).
+            If no path is given and the model has no output path (setup not called), or
+            if the file could not be written.
         """
         if path is None:
             path = self.output_path
@@ -506,7 +507,11 @@ class Model(ABC):
                 "setup() first.",
                 is_initialized=self._is_initialized,
             )
-        self.model.dump_outputs(str(path))
+        if not self.model.dump_outputs(str(path)):
+            raise ModelError(
+                f"The model outputs could not be written to {path}.",
+                is_initialized=self._is_initialized,
+            )
         return os.path.join(str(path), RESULTS_FILENAME)
 
     def get_results(self, output_path: str | Path | None = None) -> Results:
-- 
2.43.0


From 1d65de930ddfe931f9b24645f2e413451acd0099 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:06:16 +0000
Subject: [PATCH 33/36] fix: refuse lateral connections between unknown hydro
 units and invalid months of actions instead of only logging them

---
 core/src/actions/Action.cpp   | 3 +--
 core/src/spatial/SubBasin.cpp | 3 ++-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/core/src/actions/Action.cpp b/core/src/actions/Action.cpp
index 15aa040..5a976da 100644
--- a/core/src/actions/Action.cpp
+++ b/core/src/actions/Action.cpp
@@ -18,8 +18,7 @@ void Action::ResetCursor() {
 void Action::AddRecursiveDate(int month, int day) {
     // Check that the month is valid.
     if (month < 1 || month > 12) {
-        month = 1;
-        LogError("Invalid month: {}", month);
+        throw InputError(std::format("Invalid month: {}", month));
     }
 
     // Check that the day is valid for the given month.
diff --git a/core/src/spatial/SubBasin.cpp b/core/src/spatial/SubBasin.cpp
index b88468b..9dad66f 100644
--- a/core/src/spatial/SubBasin.cpp
+++ b/core/src/spatial/SubBasin.cpp
@@ -49,7 +49,8 @@ void SubBasin::BuildBasin(SettingsBasin& basinSettings) {
         if (giver && receiver) {
             giver->AddLateralConnection(receiver, connection.fraction, connection.type);
         } else {
-            LogError("Invalid hydro unit IDs in lateral connection settings.");
+            throw ModelConfigError(std::format("Invalid hydro unit IDs in lateral connection settings ({} to {}).",
+                                               connection.giverHydroUnitId, connection.receiverHydroUnitId));
         }
     }
 }
-- 
2.43.0


From cebf7a01ac08052f614c1dc8ffdcca9296d40de8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:40:19 +0000
Subject: [PATCH 34/36] fix: exit with an error when the command line is
 refused

---
 core/src/app/Hydrobricks.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/core/src/app/Hydrobricks.cpp b/core/src/app/Hydrobricks.cpp
index 0921694..9869229 100644
--- a/core/src/app/Hydrobricks.cpp
+++ b/core/src/app/Hydrobricks.cpp
@@ -1,5 +1,6 @@
 #include "Hydrobricks.h"
 
+#include <cstdlib>
 #include <cstring>
 #include <iostream>
 
@@ -42,12 +43,12 @@ bool ParseArgs(int argc, char** argv, CliArgs& args) {
     for (int i = 1; i < argc; ++i) {
         if (std::strcmp(argv[i], "--help") == 0 || std::strcmp(argv[i], "-h") == 0) {
             std::cout << kUsage;
-            return false;
+            std::exit(EXIT_SUCCESS);
         }
         if (std::strcmp(argv[i], "--version") == 0 || std::strcmp(argv[i], "-v") == 0) {
             std::cout << std::format("hydrobricks version {}.{}.{}, {}\n", HYDROBRICKS_MAJOR_VERSION,
                                      HYDROBRICKS_MINOR_VERSION, HYDROBRICKS_PATCH_VERSION, __DATE__);
-            return false;
+            std::exit(EXIT_SUCCESS);
         }
 
         auto getNext = [&](const char* name) -> string {
@@ -162,7 +163,7 @@ int main(int argc, char** argv) {
 
         CliArgs args;
         if (!ParseArgs(argc, argv, args)) {
-            return 0;
+            return 1;
         }
 
         int result = RunModel(args);
-- 
2.43.0


From d0584166fdf84f026e85f7940f12721173e97a53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:40:19 +0000
Subject: [PATCH 35/36] fix: return the failure when the area of a glacier
 without ice cannot be changed

---
 core/src/actions/ActionGlacierEvolutionAreaScaling.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/core/src/actions/ActionGlacierEvolutionAreaScaling.cpp b/core/src/actions/ActionGlacierEvolutionAreaScaling.cpp
index d01ace0..ad0c5ed 100644
--- a/core/src/actions/ActionGlacierEvolutionAreaScaling.cpp
+++ b/core/src/actions/ActionGlacierEvolutionAreaScaling.cpp
@@ -98,7 +98,9 @@ bool ActionGlacierEvolutionAreaScaling::Apply(double) {
 
         if (NearlyZero(iceVolume, PRECISION)) {
             // If the glacier water equivalent is zero, set the area to zero.
-            unit->ChangeLandCoverAreaFraction(_landCoverName, 0);
+            if (!unit->ChangeLandCoverAreaFraction(_landCoverName, 0)) {
+                return false;
+            }
             continue;
         }
 
-- 
2.43.0


From d15ebdad731c0cc07dbe57611012425b82d7785a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:40:19 +0000
Subject: [PATCH 36/36] fix: throw instead of only logging for time units
 without a step length and empty property texts

---
 core/src/base/TimeMachine.cpp          | 2 +-
 core/src/base/Utils.cpp                | 4 +---
 core/src/spatial/HydroUnitProperty.cpp | 2 +-
 3 files changed, 3 insertions(+), 5 deletions(-)

diff --git a/core/src/base/TimeMachine.cpp b/core/src/base/TimeMachine.cpp
index ec0a8ab..f5db6ff 100644
--- a/core/src/base/TimeMachine.cpp
+++ b/core/src/base/TimeMachine.cpp
@@ -88,7 +88,7 @@ void TimeMachine::UpdateTimeStepInDays() {
             _timeStepInDays = _timeStep / 1440.0;
             break;
         default:
-            LogError("The provided time step unit is not allowed.");
+            throw InputError("The provided time step unit is not allowed.");
     }
 }
 
diff --git a/core/src/base/Utils.cpp b/core/src/base/Utils.cpp
index a54243c..8e30bfe 100644
--- a/core/src/base/Utils.cpp
+++ b/core/src/base/Utils.cpp
@@ -219,10 +219,8 @@ double IncrementDateBy(double date, int amount, TimeUnit unit) {
         case TimeUnit::Minute:
             return date + amount / 1440.0;
         default:
-            LogError("The provided time step unit is not allowed.");
+            throw InputError("The provided time step unit is not allowed.");
     }
-
-    return 0;
 }
 
 Time GetTimeStructFromMJD(double mjd) {
diff --git a/core/src/spatial/HydroUnitProperty.cpp b/core/src/spatial/HydroUnitProperty.cpp
index bac5454..28546ee 100644
--- a/core/src/spatial/HydroUnitProperty.cpp
+++ b/core/src/spatial/HydroUnitProperty.cpp
@@ -49,7 +49,7 @@ double HydroUnitProperty::GetValue(std::string_view unit) const {
 
 string HydroUnitProperty::GetValueString() const {
     if (_valueString.empty()) {
-        LogError("The value (string) for the property '{}' is empty.", _name);
+        throw ModelConfigError(std::format("The value (string) for the property '{}' is empty.", _name));
     }
 
     return _valueString;
-- 
2.43.0

