From 5bb343dee4e7540582af8bb728ae72781ec0b504 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:49 +0000
Subject: [PATCH 001/104] fix: QEngineCPU::Copy() finishes queued gates and
 keeps the running norm

A shallow copy shared the state vector of an engine whose gate queue was still
running, and carried a running norm of 0, so that a normalizing QUnit lost its
state in GetQuantumState().
---
 src/qengine/utility.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/qengine/utility.cpp b/src/qengine/utility.cpp
index de8db83..5b64eba 100644
--- a/src/qengine/utility.cpp
+++ b/src/qengine/utility.cpp
@@ -43,7 +43,11 @@ QEnginePtr QEngineCPU::CloneEmpty()
 
 QInterfacePtr QEngineCPU::Copy()
 {
+    // The copy shares the state vector, but not the gate queue or the norm.
+    Finish();
+
     QEngineCPUPtr clone = std::dynamic_pointer_cast<QEngineCPU>(CloneEmpty());
+    clone->runningNorm = runningNorm;
     clone->stateVec = stateVec;
 
     return clone;
-- 
2.43.0


From cd8d49b6e80c00467fc82f59dab51064570885e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:50 +0000
Subject: [PATCH 002/104] fix: exp2x2() and log2x2() pair eigenvalues with
 their own eigenvectors

The columns of the diagonalizing matrix were paired with each other's
eigenvalue, so that TimeEvolve() of a Hamiltonian with off-diagonal terms
evolved backwards in the traceless part.
---
 src/common/functions.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/common/functions.cpp b/src/common/functions.cpp
index b5d28b1..217cefa 100644
--- a/src/common/functions.cpp
+++ b/src/common/functions.cpp
@@ -148,10 +148,11 @@ void _expLog2x2(const complex* matrix2x2, complex* outMatrix2x2, bool isExp)
         jacobian[1U] = matrix2x2[1U];
         jacobian[3U] = matrix2x2[3U] - eigenvalue2;
 
-        outMatrix2x2[0U] = eigenvalue1;
+        // By Cayley-Hamilton, the columns of (M - eigenvalue1) are eigenvectors of eigenvalue2, and vice versa.
+        outMatrix2x2[0U] = eigenvalue2;
         outMatrix2x2[1U] = ZERO_CMPLX;
         outMatrix2x2[2U] = ZERO_CMPLX;
-        outMatrix2x2[3U] = eigenvalue2;
+        outMatrix2x2[3U] = eigenvalue1;
 
         real1 nrm = (real1)std::sqrt((real1_s)(norm(jacobian[0U]) + norm(jacobian[2U])));
         jacobian[0U] /= nrm;
-- 
2.43.0


From ce75a9c7dfc0889bc31a97feec0cebaabc528b22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:57 +0000
Subject: [PATCH 003/104] fix: TimeEvolve() exponentiates uniformly controlled
 terms with the factor -i

A UniformHamiltonianOp was applied as exp(-H t), which is not unitary, instead
of exp(-i H t).
---
 src/qinterface/gates.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/qinterface/gates.cpp b/src/qinterface/gates.cpp
index 7065399..e0918fd 100644
--- a/src/qinterface/gates.cpp
+++ b/src/qinterface/gates.cpp
@@ -444,7 +444,7 @@ void QInterface::TimeEvolve(Hamiltonian h, real1_f timeDiff_f)
         std::unique_ptr<complex[]> mtrx(new complex[maxJ]);
 
         for (bitCapIntOcl j = 0U; j < maxJ; ++j) {
-            mtrx[j] = opMtrx[j] * (-timeDiff);
+            mtrx[j] = I_CMPLX * (opMtrx[j] * (-timeDiff));
         }
 
         if (op->toggles.size()) {
@@ -462,9 +462,8 @@ void QInterface::TimeEvolve(Hamiltonian h, real1_f timeDiff_f)
             }
             UniformlyControlledSingleBit(op->controls, op->targetBit, expMtrx.get());
         } else {
-            complex timesI[4U]{ I_CMPLX * mtrx[0U], I_CMPLX * mtrx[1U], I_CMPLX * mtrx[2U], I_CMPLX * mtrx[3U] };
             complex toApply[4U];
-            exp2x2(timesI, toApply);
+            exp2x2(mtrx.get(), toApply);
             if (op->controls.size() == 0U) {
                 Mtrx(toApply, op->targetBit);
             } else if (op->anti) {
-- 
2.43.0


From 0dd0ed84d96d315ccd85297de51a65e49a2db674 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:53 +0000
Subject: [PATCH 004/104] fix: FSim() decomposition applies theta, not twice
 theta

The generic RXX/RYY decomposition rotated by 2*theta, unlike the special cases
of the same method and the state vector simulators.
---
 include/qinterface.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/qinterface.hpp b/include/qinterface.hpp
index 70ef79c..1951b8d 100644
--- a/include/qinterface.hpp
+++ b/include/qinterface.hpp
@@ -2408,7 +2408,7 @@ public:
         H(qubit1);
         H(qubit2);
         CNOT(qubit1, qubit2);
-        RZ(2 * theta, qubit2);
+        RZ(theta, qubit2);
         CNOT(qubit1, qubit2);
         H(qubit2);
         H(qubit1);
@@ -2419,7 +2419,7 @@ public:
         H(qubit1);
         H(qubit2);
         CNOT(qubit1, qubit2);
-        RZ(2 * theta, qubit2);
+        RZ(theta, qubit2);
         CNOT(qubit1, qubit2);
         H(qubit2);
         H(qubit1);
-- 
2.43.0


From 5ef8d1a1006957ee06686b0f40be2b596c454165 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:53 +0000
Subject: [PATCH 005/104] fix: QBdt::FSim() applies the phase exp(-i*phi), as
 all other simulators do

---
 src/qbdt/tree.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/qbdt/tree.cpp b/src/qbdt/tree.cpp
index 671a62e..3522b12 100644
--- a/src/qbdt/tree.cpp
+++ b/src/qbdt/tree.cpp
@@ -760,10 +760,10 @@ void QBdt::FSim(real1_f theta, real1_f phi, bitLenInt qubit1, bitLenInt qubit2)
     const std::vector<bitLenInt> controls{ qubit1 };
     const real1_f sinTheta = sin(theta);
     if ((sinTheta * sinTheta) <= FP_NORM_EPSILON_F) {
-        return MCPhase(controls, ONE_CMPLX, exp(complex(ZERO_R1, (real1)phi)), qubit2);
+        return MCPhase(controls, ONE_CMPLX, exp(complex(ZERO_R1, -(real1)phi)), qubit2);
     }
 
-    const complex expIPhi = exp(complex(ZERO_R1, (real1)phi));
+    const complex expIPhi = exp(complex(ZERO_R1, -(real1)phi));
     const real1_f sinThetaDiffNeg = ONE_R1_F + sinTheta;
     if ((sinThetaDiffNeg * sinThetaDiffNeg) <= FP_NORM_EPSILON_F) {
         ISwap(qubit1, qubit2);
-- 
2.43.0


From 6c77dede1647a56d353f101953fa6edc7c006fc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:14 +0000
Subject: [PATCH 006/104] fix: QStabilizerHybrid::CSwap() moves buffered
 non-Clifford gates along

With controls trimmed away, it swapped only the stabilizer rows and left the
buffered single-qubit gates behind.
---
 src/qstabilizerhybrid.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/qstabilizerhybrid.cpp b/src/qstabilizerhybrid.cpp
index ce245d6..3b035cb 100644
--- a/src/qstabilizerhybrid.cpp
+++ b/src/qstabilizerhybrid.cpp
@@ -965,9 +965,7 @@ void QStabilizerHybrid::CSwap(const std::vector<bitLenInt>& lControls, bitLenInt
         }
 
         if (controls.empty()) {
-            rdmClone = nullptr;
-
-            return stabilizer->Swap(qubit1, qubit2);
+            return Swap(qubit1, qubit2);
         }
 
         SwitchToEngine();
-- 
2.43.0


From f498467d124855e31fc87593a624861b5f2e0e77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:14 +0000
Subject: [PATCH 007/104] fix: QUnit::UniformlyControlledSingleBit() honours
 its matrix skip arguments

---
 src/qunit.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/qunit.cpp b/src/qunit.cpp
index a77d95f..08e00b9 100644
--- a/src/qunit.cpp
+++ b/src/qunit.cpp
@@ -1921,7 +1921,12 @@ void QUnit::UniformlyControlledSingleBit(const std::vector<bitLenInt>& controls,
 {
     // If there are no controls, this is equivalent to the single bit gate.
     if (controls.empty()) {
-        return Mtrx(mtrxs, qubitIndex);
+        return Mtrx(mtrxs + ((bitCapIntOcl)mtrxSkipValueMask * 4U), qubitIndex);
+    }
+
+    if (!mtrxSkipPowers.empty()) {
+        // (The skipped powers index the matrix list, not the trimmed control permutation.)
+        return QInterface::UniformlyControlledSingleBit(controls, qubitIndex, mtrxs, mtrxSkipPowers, mtrxSkipValueMask);
     }
 
     if (qubitIndex >= qubitCount) {
-- 
2.43.0


From 14503a3dbccc4a55c085586690ec592fd7c6f4cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:35 +0000
Subject: [PATCH 008/104] fix: QPager constructor sets the requested initial
 permutation

---
 src/qpager.cpp | 15 +++------------
 1 file changed, 3 insertions(+), 12 deletions(-)

diff --git a/src/qpager.cpp b/src/qpager.cpp
index 80c4428..26f0955 100644
--- a/src/qpager.cpp
+++ b/src/qpager.cpp
@@ -51,20 +51,11 @@ QPager::QPager(std::vector<QInterfaceEngine> eng, bitLenInt qBitCount, const bit
         return;
     }
 
-    const bitCapInt initState = maxQPower + ONE_BCI;
-    const bitCapIntOcl initStateOcl = (bitCapIntOcl)initState;
-    bitCapIntOcl pagePerm = basePageMaxQPower;
     for (bitCapIntOcl i = 0U; i < basePageCount; ++i) {
-        if (bi_compare(initState, pagePerm) < 0) {
-            // Init state is in this page.
-            qPages.push_back(MakeEngine(baseQubitsPerPage, i));
-            qPages.back()->SetPermutation(initStateOcl - (pagePerm - basePageMaxQPower));
-        } else {
-            // Init state is in a higher page.
-            qPages.push_back(MakeEngine(baseQubitsPerPage, i));
-        }
-        pagePerm += basePageMaxQPower;
+        qPages.push_back(MakeEngine(baseQubitsPerPage, i));
     }
+
+    SetPermutation(_initState, phaseFac);
 }
 
 QPager::QPager(QEnginePtr enginePtr, std::vector<QInterfaceEngine> eng, bitLenInt qBitCount, const bitCapInt& initState,
-- 
2.43.0


From d2b6ad60ceaa1a6f6de0d2fe3a932d9ff9eb625b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:35 +0000
Subject: [PATCH 009/104] fix: QPager::FSim() applies the phase exp(-i*phi), as
 all other simulators do

---
 src/qpager.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/qpager.cpp b/src/qpager.cpp
index 26f0955..91b1c7f 100644
--- a/src/qpager.cpp
+++ b/src/qpager.cpp
@@ -1415,23 +1415,23 @@ void QPager::FSim(real1_f theta, real1_f phi, bitLenInt qubit1, bitLenInt qubit2
     const real1 sinTheta = (real1)sin(theta);
 
     if ((sinTheta * sinTheta) <= FP_NORM_EPSILON) {
-        return MCPhase(controls, ONE_CMPLX, exp(complex(ZERO_R1, (real1)phi)), qubit2);
+        return MCPhase(controls, ONE_CMPLX, exp(complex(ZERO_R1, (real1)-phi)), qubit2);
     }
 
-    const complex expIPhi = exp(complex(ZERO_R1, (real1)phi));
+    const complex expNegIPhi = exp(complex(ZERO_R1, (real1)-phi));
 
     const real1 sinThetaDiffNeg = ONE_R1 + sinTheta;
     if ((sinThetaDiffNeg * sinThetaDiffNeg) <= FP_NORM_EPSILON) {
         ISwap(qubit1, qubit2);
 
-        return MCPhase(controls, ONE_CMPLX, expIPhi, qubit2);
+        return MCPhase(controls, ONE_CMPLX, expNegIPhi, qubit2);
     }
 
     const real1 sinThetaDiffPos = ONE_R1 - sinTheta;
     if ((sinThetaDiffPos * sinThetaDiffPos) <= FP_NORM_EPSILON) {
         IISwap(qubit1, qubit2);
 
-        return MCPhase(controls, ONE_CMPLX, expIPhi, qubit2);
+        return MCPhase(controls, ONE_CMPLX, expNegIPhi, qubit2);
     }
 
     CombineAndOp([&](QEnginePtr engine) { engine->FSim(theta, phi, qubit1, qubit2); }, { qubit1, qubit2 });
-- 
2.43.0


From c88e0ec43b18790d95337a6b7ef7808d872e8753 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:01 +0000
Subject: [PATCH 010/104] fix: QUnitClifford controlled gates with a definite
 control act on the mapped target

---
 include/qunitclifford.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/qunitclifford.hpp b/include/qunitclifford.hpp
index cc260e5..d4a79ce 100644
--- a/include/qunitclifford.hpp
+++ b/include/qunitclifford.hpp
@@ -106,12 +106,14 @@ protected:
         const real1_f p = Prob(control);
         if (p < (ONE_R1_F / 4)) {
             if (isAnti) {
-                fn(shards[target].unit, target, mtrx);
+                fn(shards[target].unit, shards[target].mapped, mtrx);
+                CombinePhaseOffsets(shards[target].unit);
             }
             return;
         } else if (p > (3 * ONE_R1_F / 4)) {
             if (!isAnti) {
-                fn(shards[target].unit, target, mtrx);
+                fn(shards[target].unit, shards[target].mapped, mtrx);
+                CombinePhaseOffsets(shards[target].unit);
             }
             return;
         }
-- 
2.43.0


From 33cd4156741aa282e61f146f116fac3d85e67b82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:14 +0000
Subject: [PATCH 011/104] fix: QBdt::ForceM() keeps the relative weights of the
 surviving branches

---
 src/qbdt/tree.cpp | 32 ++++++++++----------------------
 1 file changed, 10 insertions(+), 22 deletions(-)

diff --git a/src/qbdt/tree.cpp b/src/qbdt/tree.cpp
index 3522b12..bba2828 100644
--- a/src/qbdt/tree.cpp
+++ b/src/qbdt/tree.cpp
@@ -440,13 +440,19 @@ bool QBdt::ForceM(bitLenInt qubit, bool result, bool doForce, bool doApply)
     }
 #endif
 
+    // The surviving branches keep their relative weights, so carry the full path amplitudes down to the kept nodes and
+    // factor the collapsed tree again from there.
+    const real1 nrmlzr = ONE_R1 / (real1)sqrt(result ? oneChance : (ONE_R1_F - oneChance));
+
     _par_for(qPower, [&](const bitCapInt& i, const unsigned& cpu) {
         QBdtNodeInterfacePtr leaf = root;
+        complex scale = nrmlzr * leaf->scale;
         for (bitLenInt j = 0U; j < qubit; ++j) {
             leaf = leaf->branches[SelectBit(i, j)];
             if (!leaf) {
                 return;
             }
+            scale *= leaf->scale;
         }
 
 #if ENABLE_QBDT_CPU_PARALLEL && ENABLE_PTHREAD
@@ -459,30 +465,12 @@ bool QBdt::ForceM(bitLenInt qubit, bool result, bool doForce, bool doApply)
             return;
         }
 
-        QBdtNodeInterfacePtr& b0 = leaf->branches[0U];
-        QBdtNodeInterfacePtr& b1 = leaf->branches[1U];
-
-        if (result) {
-            if (IS_NODE_0(b1->scale)) {
-                b1->SetZero();
-
-                return;
-            }
-
-            b0->SetZero();
-            b1->scale /= abs(b1->scale);
-        } else {
-            if (IS_NODE_0(b0->scale)) {
-                b0->SetZero();
-
-                return;
-            }
-
-            b0->scale /= abs(b0->scale);
-            b1->SetZero();
-        }
+        leaf->branches[result ? 0U : 1U]->SetZero();
+        leaf->branches[result ? 1U : 0U]->scale *= scale;
     });
 
+    root->PopStateVector(qubit + 1U);
+    root->scale /= abs(root->scale);
     root->Prune(qubit + 1U);
 
     return result;
-- 
2.43.0


From 1ac8d29cf6f47e4a4c5187f79ee516d6bb48febe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:14 +0000
Subject: [PATCH 012/104] fix: QStabilizerHybrid::ForceM() honours buffered
 gates and doApply

---
 src/qstabilizerhybrid.cpp | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/qstabilizerhybrid.cpp b/src/qstabilizerhybrid.cpp
index 3b035cb..fb66b53 100644
--- a/src/qstabilizerhybrid.cpp
+++ b/src/qstabilizerhybrid.cpp
@@ -1522,17 +1522,26 @@ bool QStabilizerHybrid::ForceM(bitLenInt qubit, bool result, bool doForce, bool
         if (stabilizer->IsSeparableZ(qubit)) {
             if (doForce) {
                 if (doApply) {
-                    if (result != stabilizer->ForceM(qubit, result, true, true)) {
+                    const bool isZ1 = stabilizer->M(qubit);
+                    const real1 prob = norm(shard->gate[isZ1 ? (result ? 3U : 1U) : (result ? 2U : 0U)]);
+                    if (prob <= FP_NORM_EPSILON) {
                         // Sorry to throw, but the requested forced result is definitely invalid.
                         throw std::invalid_argument(
                             "QStabilizerHybrid::ForceM() forced a measurement result with 0 probability!");
                     }
+                    if (result != isZ1) {
+                        stabilizer->X(qubit);
+                    }
                     shard = nullptr;
                 }
 
                 return result;
             }
 
+            if (!doApply) {
+                return Rand() <= Prob(qubit);
+            }
+
             // Bit was already rotated to Z basis, if separable.
             return CollapseSeparableShard(qubit);
         }
@@ -1542,7 +1551,9 @@ bool QStabilizerHybrid::ForceM(bitLenInt qubit, bool result, bool doForce, bool
 
         return engine->ForceM(qubit, result, doForce, doApply);
     }
-    shard = nullptr;
+    if (doApply) {
+        shard = nullptr;
+    }
 
     if (stabilizer->IsSeparable(qubit)) {
         return stabilizer->ForceM(qubit, result, doForce, doApply);
-- 
2.43.0


From a377f236245f62b15706e2b5c064de7ec248088a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:44 +0000
Subject: [PATCH 013/104] fix: QTensorNetwork gates do not slip past later
 gates on the same qubits

---
 include/qcircuit.hpp       | 19 +++++++++++++++++++
 include/qtensornetwork.hpp | 25 ++++++++++---------------
 2 files changed, 29 insertions(+), 15 deletions(-)

diff --git a/include/qcircuit.hpp b/include/qcircuit.hpp
index 6faa580..e50fde3 100644
--- a/include/qcircuit.hpp
+++ b/include/qcircuit.hpp
@@ -748,6 +748,25 @@ public:
         return false;
     }
 
+    /**
+     * Check if any index in a set is a target or control qubit of this circuit.
+     */
+    bool IsAnyInvolved(const std::set<bitLenInt>& qubits)
+    {
+        for (const QCircuitGatePtr& gate : gates) {
+            if (qubits.find(gate->target) != qubits.end()) {
+                return true;
+            }
+            for (const bitLenInt& c : gate->controls) {
+                if (qubits.find(c) != qubits.end()) {
+                    return true;
+                }
+            }
+        }
+
+        return false;
+    }
+
     /**
      * (If the qubit is not a target of a non-phase gate...) Delete this qubits' controls and phase targets.
      */
diff --git a/include/qtensornetwork.hpp b/include/qtensornetwork.hpp
index 8319c72..61854ce 100644
--- a/include/qtensornetwork.hpp
+++ b/include/qtensornetwork.hpp
@@ -50,28 +50,23 @@ protected:
 
     QCircuitPtr GetCircuit(bitLenInt target, std::vector<bitLenInt> controls = std::vector<bitLenInt>())
     {
-        for (size_t i = 0U; i < measurements.size(); ++i) {
-            size_t l = measurements.size() - (i + 1U);
-            std::map<bitLenInt, bool>& m = measurements[l];
-            ++l;
+        std::set<bitLenInt> qubits(controls.begin(), controls.end());
+        qubits.insert(target);
 
-            if (m.find(target) != m.end()) {
+        for (size_t l = measurements.size(); l > 0U; --l) {
+            // Circuit layer "l" directly follows measurement layer "l - 1". A gate can not pass to an earlier layer, if
+            // any of its qubits are already involved in this pair of layers.
+            const std::map<bitLenInt, bool>& m = measurements[l - 1U];
+            const bool isBlocked = ((l < circuit.size()) && circuit[l]->IsAnyInvolved(qubits)) ||
+                std::any_of(qubits.begin(), qubits.end(), [&m](bitLenInt q) { return m.find(q) != m.end(); });
+
+            if (isBlocked) {
                 if (circuit.size() == l) {
                     circuit.push_back(std::make_shared<QCircuit>());
                 }
 
                 return circuit[l];
             }
-
-            for (const bitLenInt& control : controls) {
-                if (m.find(control) != m.end()) {
-                    if (circuit.size() == l) {
-                        circuit.push_back(std::make_shared<QCircuit>());
-                    }
-
-                    return circuit[l];
-                }
-            }
         }
 
         return circuit[0U];
-- 
2.43.0


From d47b86379c493828c035697b59cbfa05ecca4f67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:44 +0000
Subject: [PATCH 014/104] fix: QCircuit::DeletePhaseTarget() keeps the phase of
 controlled phase gates

---
 include/qcircuit.hpp | 40 +++++++++++++++++++++++++++++++++++++---
 1 file changed, 37 insertions(+), 3 deletions(-)

diff --git a/include/qcircuit.hpp b/include/qcircuit.hpp
index e50fde3..60a2d10 100644
--- a/include/qcircuit.hpp
+++ b/include/qcircuit.hpp
@@ -596,6 +596,31 @@ struct QCircuitGate {
         payloads = nPayloads;
         controls.erase(c);
     }
+
+    /**
+     * Erase the target index of a controlled phase gate, (via post selection,) leaving the phase on the controls.
+     */
+    void PostSelectPhaseTarget(bool eigen)
+    {
+        const bitLenInt nTarget = *(controls.rbegin());
+        const bitCapInt targetPow = pow2((bitLenInt)(controls.size() - 1U));
+        const size_t diag = eigen ? 3U : 0U;
+
+        std::map<bitCapInt, std::shared_ptr<complex>> nPayloads;
+        for (const auto& payload : payloads) {
+            const bool isTarget = (bi_compare_0(payload.first & targetPow) != 0);
+            std::shared_ptr<complex>& mtrx = nPayloads[isTarget ? (payload.first ^ targetPow) : payload.first];
+            if (!mtrx) {
+                mtrx = std::shared_ptr<complex>(
+                    new complex[4U]{ ONE_CMPLX, ZERO_CMPLX, ZERO_CMPLX, ONE_CMPLX }, std::default_delete<complex[]>());
+            }
+            mtrx.get()[isTarget ? 3U : 0U] = payload.second.get()[diag];
+        }
+
+        payloads = nPayloads;
+        target = nTarget;
+        controls.erase(nTarget);
+    }
 };
 
 std::ostream& operator<<(std::ostream& os, const QCircuitGatePtr g);
@@ -775,11 +800,20 @@ public:
         std::list<QCircuitGatePtr> nGates;
         gates.reverse();
         for (const QCircuitGatePtr& gate : gates) {
+            QCircuitGatePtr nGate = gate->Clone();
             if (gate->target == qubit) {
-                continue;
+                if (gate->controls.empty()) {
+                    // This is only a global phase factor.
+                    continue;
+                }
+                nGate->PostSelectPhaseTarget(eigen);
+            } else if (gate->controls.find(qubit) != gate->controls.end()) {
+                nGate->PostSelectControl(qubit, eigen);
+                if (nGate->payloads.empty()) {
+                    // The gate never acts.
+                    continue;
+                }
             }
-            QCircuitGatePtr nGate = gate->Clone();
-            nGate->PostSelectControl(qubit, eigen);
             nGates.insert(nGates.begin(), nGate);
         }
         gates = nGates;
-- 
2.43.0


From 12fe199c2488d65d523c8b34474cd1f24a17a45e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:11 +0000
Subject: [PATCH 015/104] fix: QTensorNetwork::ForceM() only drops layers whose
 effect is fully measured

---
 src/qtensornetwork.cpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/qtensornetwork.cpp b/src/qtensornetwork.cpp
index 119840f..3cba87b 100644
--- a/src/qtensornetwork.cpp
+++ b/src/qtensornetwork.cpp
@@ -296,6 +296,19 @@ bool QTensorNetwork::ForceM(bitLenInt qubit, bool result, bool doForce, bool doA
                 return toRet;
             }
         }
+        if (layerId) {
+            // The input of this layer is not necessarily |0>, so unmeasured qubits can not be involved, at all, and a
+            // qubit can only change value in this layer if its input value is known by measurement.
+            if (c->IsAnyInvolved(std::set<bitLenInt>(nonMeasuredQubits.begin(), nonMeasuredQubits.end()))) {
+                return toRet;
+            }
+            const std::map<bitLenInt, bool>& mPrev = measurements[layerId - 1U];
+            for (const auto& b : m) {
+                if ((mPrev.find(b.first) == mPrev.end()) && c->IsNonPhaseTarget(b.first)) {
+                    return toRet;
+                }
+            }
+        }
 
         // If we did not return, this circuit layer is fully collapsed.
         QRACK_CONST complex pauliX[4U]{ ZERO_CMPLX, ONE_CMPLX, ONE_CMPLX, ZERO_CMPLX };
-- 
2.43.0


From a1bb31da30c881a9b726016a4ed0de3f669af5dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:12 +0000
Subject: [PATCH 016/104] fix: QEngine::ForceM() honours forced values and
 doApply, and stays in bounds

---
 src/qengine/qengine.cpp | 19 +++++++------------
 1 file changed, 7 insertions(+), 12 deletions(-)

diff --git a/src/qengine/qengine.cpp b/src/qengine/qengine.cpp
index c9a1d73..04ca743 100644
--- a/src/qengine/qengine.cpp
+++ b/src/qengine/qengine.cpp
@@ -122,7 +122,7 @@ bitCapInt QEngine::ForceM(const std::vector<bitLenInt>& bits, const std::vector<
 
     // Single bit operations are better optimized for this special case:
     if (bits.size() == 1U) {
-        if (ForceM(bits[0U], values.empty() ? false : values[0U], false, doApply)) {
+        if (ForceM(bits[0U], values.empty() ? false : values[0U], !values.empty(), doApply)) {
             return pow2(bits[0U]);
         }
 
@@ -147,7 +147,7 @@ bitCapInt QEngine::ForceM(const std::vector<bitLenInt>& bits, const std::vector<
         }
         real1_f nrmlzr = ProbMask(regMask, result);
         complex nrm = phase / (real1)(std::sqrt((real1_s)nrmlzr));
-        if ((ONE_R1_F - nrmlzr) > FP_NORM_EPSILON) {
+        if (doApply && ((ONE_R1_F - nrmlzr) > FP_NORM_EPSILON)) {
             ApplyM(regMask, (bitCapInt)result, nrm);
         }
 
@@ -167,15 +167,14 @@ bitCapInt QEngine::ForceM(const std::vector<bitLenInt>& bits, const std::vector<
 
     bitCapIntOcl lcv = 0U;
     real1 lowerProb = probArray[0U];
-    bitCapIntOcl result = lengthPower - 1U;
+    bitCapIntOcl result = 0U;
 
     /*
-     * The value of 'lcv' should not exceed lengthPower unless the stateVec is
-     * in a bug-induced topology - some value in stateVec must always be a
-     * vector.
+     * If rounding leaves the total probability below 'prob', the result is the
+     * last permutation with nonzero probability.
      */
-    real1 nrmlzr = ONE_R1;
-    while ((lowerProb < prob) && (lcv < lengthPower)) {
+    real1 nrmlzr = probArray[0U];
+    while ((lowerProb < prob) && ((lcv + 1U) < lengthPower)) {
         ++lcv;
         lowerProb += probArray[lcv];
         if (probArray[lcv] > ZERO_R1) {
@@ -183,10 +182,6 @@ bitCapInt QEngine::ForceM(const std::vector<bitLenInt>& bits, const std::vector<
             result = lcv;
         }
     }
-    if (lcv < lengthPower) {
-        nrmlzr = probArray[lcv];
-        result = lcv;
-    }
 
     probArray.reset();
 
-- 
2.43.0


From 756bfc8a0724efd3bf64ecec1f881691cffec5a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:12 +0000
Subject: [PATCH 017/104] fix: QEngineCPU::ForceMParity() waits for queued
 gates

---
 src/qengine/state.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/qengine/state.cpp b/src/qengine/state.cpp
index 0eb31c9..920ba7f 100644
--- a/src/qengine/state.cpp
+++ b/src/qengine/state.cpp
@@ -1560,6 +1560,8 @@ bool QEngineCPU::ForceMParity(const bitCapInt& mask, bool result, bool doForce)
         throw std::invalid_argument("QEngineCPU::ForceMParity mask out-of-bounds!");
     }
 
+    Finish();
+
     if (!stateVec || (bi_compare_0(mask) == 0)) {
         return false;
     }
-- 
2.43.0


From f2dd77488e09a40f59d0a3a7507021d309721d1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:12 +0000
Subject: [PATCH 018/104] fix: QBdt normalizes the state vector an operation
 left to be normalized

---
 include/qbdt.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/qbdt.hpp b/include/qbdt.hpp
index 790b39b..f65858f 100644
--- a/include/qbdt.hpp
+++ b/include/qbdt.hpp
@@ -95,6 +95,9 @@ protected:
         QInterfacePtr qReg = MakeQEngine(qubitCount);
         GetQuantumState(qReg);
         operation(qReg);
+        if (doNormalize) {
+            qReg->NormalizeState();
+        }
         SetQuantumState(qReg);
     }
 
@@ -103,6 +106,9 @@ protected:
         QInterfacePtr qReg = MakeQEngine(qubitCount);
         GetQuantumState(qReg);
         const bitCapInt toRet = operation(qReg);
+        if (doNormalize) {
+            qReg->NormalizeState();
+        }
         SetQuantumState(qReg);
         return toRet;
     }
-- 
2.43.0


From 7edc1bf09fb73eea1508b267343bf715ea5c02f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:12 +0000
Subject: [PATCH 019/104] fix: QInterfaceNoisy copies carry the base class
 state

---
 include/qinterface_noisy.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/qinterface_noisy.hpp b/include/qinterface_noisy.hpp
index d213da4..c5b4496 100644
--- a/include/qinterface_noisy.hpp
+++ b/include/qinterface_noisy.hpp
@@ -80,7 +80,9 @@ public:
         bitLenInt qubitThreshold = 0U, real1_f separation_thresh = _qrack_qunit_sep_thresh);
 
     QInterfaceNoisy(QInterfaceNoisy* o)
-        : noiseParam(o->noiseParam)
+        : QInterface(*o)
+        , logFidelity(o->logFidelity)
+        , noiseParam(o->noiseParam)
         , engine(o->engine)
         , engines(o->engines)
     {
-- 
2.43.0


From de15744b9cda5bc17db554eadacbd249d55e7d0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:12 +0000
Subject: [PATCH 020/104] fix: ForceM()/ForceMReg() without collapse return a
 joint sample as a mask

---
 src/qinterface/qinterface.cpp | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/src/qinterface/qinterface.cpp b/src/qinterface/qinterface.cpp
index 0804b1f..6006a8a 100644
--- a/src/qinterface/qinterface.cpp
+++ b/src/qinterface/qinterface.cpp
@@ -212,6 +212,16 @@ void QInterface::SetReg(bitLenInt start, bitLenInt length, const bitCapInt& valu
 /// Bit-wise apply measurement gate to a register
 bitCapInt QInterface::ForceMReg(bitLenInt start, bitLenInt length, const bitCapInt& result, bool doForce, bool doApply)
 {
+    if (!doForce && !doApply) {
+        // Without collapse, the bits have to be sampled jointly.
+        std::vector<bitLenInt> bits(length);
+        for (bitLenInt bit = 0U; bit < length; ++bit) {
+            bits[bit] = start + bit;
+        }
+
+        return ForceM(bits, std::vector<bool>(), false) >> start;
+    }
+
     bitCapInt res = ZERO_BCI;
     for (bitLenInt bit = 0U; bit < length; ++bit) {
         const bitCapInt power = pow2(bit);
@@ -255,7 +265,17 @@ bitCapInt QInterface::ForceM(const std::vector<bitLenInt>& bits, const std::vect
     std::vector<bitCapInt> qPowers(bits.size());
     std::transform(bits.begin(), bits.end(), qPowers.begin(), pow2);
 
-    return MultiShotMeasureMask(qPowers, 1).begin()->first;
+    const bitCapInt sample = MultiShotMeasureMask(qPowers, 1).begin()->first;
+
+    // The sample is packed in the order of "bits", but the result is a mask.
+    bitCapInt result = ZERO_BCI;
+    for (size_t bit = 0U; bit < bits.size(); ++bit) {
+        if (bi_and_1(sample >> (bitLenInt)bit)) {
+            bi_or_ip(&result, qPowers[bit]);
+        }
+    }
+
+    return result;
 }
 
 /// Returns probability of permutation of the register
-- 
2.43.0


From 5705b28da3187d0c3f1516cc0d9d9f9d996764fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:24 +0000
Subject: [PATCH 021/104] fix: QUnit::ForceM() without collapse keeps buffered
 phases

---
 src/qunit.cpp | 14 ++------------
 1 file changed, 2 insertions(+), 12 deletions(-)

diff --git a/src/qunit.cpp b/src/qunit.cpp
index 08e00b9..df79874 100644
--- a/src/qunit.cpp
+++ b/src/qunit.cpp
@@ -1381,12 +1381,8 @@ bool QUnit::ForceM(bitLenInt qubit, bool res, bool doForce, bool doApply)
         throw std::invalid_argument("QUnit::ForceM target parameter must be within allocated qubit bounds!");
     }
 
-    if (doApply) {
-        RevertBasis1Qb(qubit);
-        RevertBasis2Qb(qubit, ONLY_INVERT, ONLY_TARGETS);
-    } else {
-        ToPermBasisMeasure(qubit);
-    }
+    // (Without "doApply," the state must not change, so no buffered gate can be discarded.)
+    ToPermBasisProb(qubit);
 
     QEngineShard& shard = shards[qubit];
 
@@ -1463,12 +1459,6 @@ bitCapInt QUnit::ForceMReg(bitLenInt start, bitLenInt length, const bitCapInt& r
         return MAll();
     }
 
-    // This will discard all buffered gates that don't affect Z basis probability,
-    // so it's safe to call ToPermBasis() without performance penalty, afterward.
-    if (!doApply) {
-        ToPermBasisMeasure(start, length);
-    }
-
     return QInterface::ForceMReg(start, length, result, doForce, doApply);
 }
 
-- 
2.43.0


From 893d6ee774e466493501389116a3e47bb0c03f61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:24 +0000
Subject: [PATCH 022/104] fix: QUnit::MAll() reads definite qubits in the Z
 basis after flushing buffers

---
 src/qunit.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/qunit.cpp b/src/qunit.cpp
index df79874..3e9f8c6 100644
--- a/src/qunit.cpp
+++ b/src/qunit.cpp
@@ -1488,6 +1488,8 @@ bitCapInt QUnit::MAll()
     bitCapInt toRet = ZERO_BCI;
 
     for (bitLenInt i = 0U; i < qubitCount; ++i) {
+        // Flushing the buffers of measured controls might have changed the basis.
+        RevertBasis1Qb(i);
         QInterfacePtr toFind = shards[i].unit;
         if (!toFind) {
             real1_f prob = norm(shards[i].amp1);
-- 
2.43.0


From bdbc1d60304a216c086bc6279a0a42c050cc7853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:07 +0000
Subject: [PATCH 023/104] fix: QTensorNetwork light cones follow the qubits of
 mid-circuit measurements

---
 src/qtensornetwork.cpp | 28 ++++++++++++++++------------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/src/qtensornetwork.cpp b/src/qtensornetwork.cpp
index 3cba87b..7e0dbfe 100644
--- a/src/qtensornetwork.cpp
+++ b/src/qtensornetwork.cpp
@@ -172,20 +172,24 @@ void QTensorNetwork::MakeLayerStack(std::set<bitLenInt> qubits)
         for (size_t i = 0U; i < circuit.size(); ++i) {
             const size_t j = circuit.size() - (i + 1U);
             if (j < measurements.size()) {
-                for (const auto& m : measurements[j]) {
-                    qubits.erase(m.first);
-                }
-            }
-            if (qubits.empty()) {
-                QRACK_CONST complex pauliX[4]{ ZERO_CMPLX, ONE_CMPLX, ONE_CMPLX, ZERO_CMPLX };
-                c.push_back(std::make_shared<QCircuit>(true, isNearClifford));
-                for (const auto& m : measurements[j]) {
-                    if (m.second) {
-                        c.back()->AppendGate(std::make_shared<QCircuitGate>(m.first, pauliX));
+                const std::map<bitLenInt, bool>& mLayer = measurements[j];
+                if (std::all_of(qubits.begin(), qubits.end(),
+                        [&mLayer](const bitLenInt& q) { return mLayer.find(q) != mLayer.end(); })) {
+                    // Every qubit of the light cone has a known value, here.
+                    QRACK_CONST complex pauliX[4]{ ZERO_CMPLX, ONE_CMPLX, ONE_CMPLX, ZERO_CMPLX };
+                    c.push_back(std::make_shared<QCircuit>(true, isNearClifford));
+                    for (const auto& m : mLayer) {
+                        if (m.second) {
+                            c.back()->AppendGate(std::make_shared<QCircuitGate>(m.first, pauliX));
+                        }
                     }
-                }
 
-                break;
+                    break;
+                }
+                // Measurement might collapse qubits of the light cone, so it depends on the measured qubits.
+                for (const auto& m : mLayer) {
+                    qubits.insert(m.first);
+                }
             }
             c.push_back(circuit[j]->PastLightCone(qubits));
         }
-- 
2.43.0


From ee812fd29fc7924a61f9b68e38ee4c6c88797cc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:08 +0000
Subject: [PATCH 024/104] fix: QInterface::VarianceFloatsFactorized() is the
 variance of the weights' sum

---
 src/qinterface/qinterface.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/qinterface/qinterface.cpp b/src/qinterface/qinterface.cpp
index 6006a8a..c7b03ab 100644
--- a/src/qinterface/qinterface.cpp
+++ b/src/qinterface/qinterface.cpp
@@ -664,11 +664,12 @@ real1_f QInterface::VarianceFloatsFactorized(const std::vector<bitLenInt>& bits,
 
     real1_f expectation = ZERO_R1_F;
     for (bitCapInt lcv = ZERO_BCI; bi_compare(lcv, maxQPower) < 0; bi_increment(&lcv, 1U)) {
-        real1_f weight = ONE_R1_F;
+        real1_f weight = ZERO_R1_F;
         for (size_t p = 0U; p < bits.size(); ++p) {
-            weight *= (bi_compare_0(lcv & bitPowers[p]) == 0) ? weights[p << 1U] : weights[(p << 1U) | 1U];
+            weight += (bi_compare_0(lcv & bitPowers[p]) != 0) ? weights[(p << 1U) | 1U] : weights[p << 1U];
         }
-        expectation += weight * ProbAll(lcv);
+        const real1_f diff = weight - mean;
+        expectation += diff * diff * ProbAll(lcv);
     }
 
     return expectation;
-- 
2.43.0


From 51142f440ee19b6c71246d13bd833f00de56c159 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:08 +0000
Subject: [PATCH 025/104] fix: Pauli expectation and variance drop every PauliI

---
 src/qinterface/qinterface.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/qinterface/qinterface.cpp b/src/qinterface/qinterface.cpp
index c7b03ab..80b39f0 100644
--- a/src/qinterface/qinterface.cpp
+++ b/src/qinterface/qinterface.cpp
@@ -677,8 +677,8 @@ real1_f QInterface::VarianceFloatsFactorized(const std::vector<bitLenInt>& bits,
 
 real1_f QInterface::VariancePauliAll(std::vector<bitLenInt> bits, std::vector<Pauli> paulis)
 {
-    for (size_t i = 0U; i < bits.size(); ++i) {
-        const size_t j = bits.size() - (i + 1U);
+    for (size_t i = bits.size(); i > 0U; --i) {
+        const size_t j = i - 1U;
         if (paulis[j] == PauliI) {
             bits.erase(bits.begin() + j);
             paulis.erase(paulis.begin() + j);
@@ -733,8 +733,8 @@ real1_f QInterface::VariancePauliAll(std::vector<bitLenInt> bits, std::vector<Pa
 
 real1_f QInterface::ExpectationPauliAll(std::vector<bitLenInt> bits, std::vector<Pauli> paulis)
 {
-    for (size_t i = 0U; i < bits.size(); ++i) {
-        const size_t j = bits.size() - (i + 1U);
+    for (size_t i = bits.size(); i > 0U; --i) {
+        const size_t j = i - 1U;
         if (paulis[j] == PauliI) {
             bits.erase(bits.begin() + j);
             paulis.erase(paulis.begin() + j);
-- 
2.43.0


From 6e0fbb9d1a8127d3749432c7c16617a48ec00c1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:08 +0000
Subject: [PATCH 026/104] fix: ExpVarUnitaryAll() inverts U(theta, phi, lambda)
 as U(-theta, -lambda, -phi)

---
 src/qinterface/qinterface.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qinterface/qinterface.cpp b/src/qinterface/qinterface.cpp
index 80b39f0..e3ba994 100644
--- a/src/qinterface/qinterface.cpp
+++ b/src/qinterface/qinterface.cpp
@@ -543,7 +543,7 @@ real1_f QInterface::ExpVarUnitaryAll(bool isExp, const std::vector<bitLenInt>& b
 
     for (size_t i = 0U; i < bits.size(); ++i) {
         const size_t i3 = 3U * i;
-        U(bits[i], -basisOps[i3], -basisOps[i3 + 1U], -basisOps[i3 + 2U]);
+        U(bits[i], -basisOps[i3], -basisOps[i3 + 2U], -basisOps[i3 + 1U]);
     }
 
     const real1_f toRet =
-- 
2.43.0


From a7ffb7d344b19746734f52a5f450395ee8670141 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:08 +0000
Subject: [PATCH 027/104] fix: QInterface::ProbReg() places the register at its
 own start

---
 src/qinterface/qinterface.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qinterface/qinterface.cpp b/src/qinterface/qinterface.cpp
index e3ba994..3169e80 100644
--- a/src/qinterface/qinterface.cpp
+++ b/src/qinterface/qinterface.cpp
@@ -287,7 +287,7 @@ real1_f QInterface::ProbReg(bitLenInt start, bitLenInt length, const bitCapInt&
     real1 prob = ZERO_R1;
     for (bitCapIntOcl lcv = 0U; lcv < maxLcv; ++lcv) {
         bitCapIntOcl i = lcv & startMask;
-        i |= ((lcv ^ i) | p) << length;
+        i |= ((lcv ^ i) << length) | (p << start);
         prob += ProbAll(i);
     }
 
-- 
2.43.0


From 822753de96f0d09731c3fc88a0c2c86624fcc102 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:47 +0000
Subject: [PATCH 028/104] fix: CProb() and ACProb() are conditional
 probabilities on every simulator

---
 include/qinterface.hpp        | 19 +++++++++++++++++--
 include/qstabilizerhybrid.hpp |  8 ++++++--
 include/qunit.hpp             |  8 ++++++--
 src/qengine/qengine.cpp       |  4 +++-
 4 files changed, 32 insertions(+), 7 deletions(-)

diff --git a/include/qinterface.hpp b/include/qinterface.hpp
index 1951b8d..112be68 100644
--- a/include/qinterface.hpp
+++ b/include/qinterface.hpp
@@ -166,6 +166,17 @@ protected:
         return toClamp;
     }
 
+    /// Probability of |1> for a target, given that its control condition is met, from the probability of the condition,
+    /// the probability of the target, and the probability of the target after it is flipped where the condition fails.
+    static inline real1_f conditionalProb(real1_f controlProb, real1_f targetProb, real1_f flippedProb)
+    {
+        if (controlProb <= FP_NORM_EPSILON) {
+            return ZERO_R1_F;
+        }
+
+        return clampProb((targetProb + flippedProb - (ONE_R1_F - controlProb)) / (2 * controlProb));
+    }
+
     complex GetNonunitaryPhase()
     {
         if (randGlobalPhase) {
@@ -2458,11 +2469,13 @@ public:
      */
     virtual real1_f CProb(bitLenInt control, bitLenInt target)
     {
+        const real1_f controlProb = Prob(control);
+        const real1_f targetProb = Prob(target);
         AntiCNOT(control, target);
         const real1_f prob = Prob(target);
         AntiCNOT(control, target);
 
-        return prob;
+        return conditionalProb(controlProb, targetProb, prob);
     }
     /**
      * Direct measure of bit probability to be in |1> state, if control bit is |0>.
@@ -2471,11 +2484,13 @@ public:
      */
     virtual real1_f ACProb(bitLenInt control, bitLenInt target)
     {
+        const real1_f controlProb = ONE_R1_F - Prob(control);
+        const real1_f targetProb = Prob(target);
         CNOT(control, target);
         const real1_f prob = Prob(target);
         CNOT(control, target);
 
-        return prob;
+        return conditionalProb(controlProb, targetProb, prob);
     }
 
     /**
diff --git a/include/qstabilizerhybrid.hpp b/include/qstabilizerhybrid.hpp
index 06d8c68..e637df7 100644
--- a/include/qstabilizerhybrid.hpp
+++ b/include/qstabilizerhybrid.hpp
@@ -452,20 +452,24 @@ public:
 
     real1_f CProbRdm(bitLenInt control, bitLenInt target)
     {
+        const real1_f controlProb = ProbRdm(control);
+        const real1_f targetProb = ProbRdm(target);
         AntiCNOT(control, target);
         const real1_f prob = ProbRdm(target);
         AntiCNOT(control, target);
 
-        return prob;
+        return conditionalProb(controlProb, targetProb, prob);
     }
 
     real1_f ACProbRdm(bitLenInt control, bitLenInt target)
     {
+        const real1_f controlProb = ONE_R1_F - ProbRdm(control);
+        const real1_f targetProb = ProbRdm(target);
         CNOT(control, target);
         const real1_f prob = ProbRdm(target);
         CNOT(control, target);
 
-        return prob;
+        return conditionalProb(controlProb, targetProb, prob);
     }
 
     /**
diff --git a/include/qunit.hpp b/include/qunit.hpp
index ee3be55..4d28259 100644
--- a/include/qunit.hpp
+++ b/include/qunit.hpp
@@ -149,19 +149,23 @@ public:
     }
     virtual real1_f CProbRdm(bitLenInt control, bitLenInt target)
     {
+        const real1_f controlProb = ProbRdm(control);
+        const real1_f targetProb = ProbRdm(target);
         AntiCNOT(control, target);
         const real1_f prob = ProbRdm(target);
         AntiCNOT(control, target);
 
-        return prob;
+        return conditionalProb(controlProb, targetProb, prob);
     }
     virtual real1_f ACProbRdm(bitLenInt control, bitLenInt target)
     {
+        const real1_f controlProb = ONE_R1_F - ProbRdm(control);
+        const real1_f targetProb = ProbRdm(target);
         CNOT(control, target);
         const real1_f prob = ProbRdm(target);
         CNOT(control, target);
 
-        return prob;
+        return conditionalProb(controlProb, targetProb, prob);
     }
 
     virtual void SetQuantumState(const complex* inputState);
diff --git a/src/qengine/qengine.cpp b/src/qengine/qengine.cpp
index 04ca743..6e09870 100644
--- a/src/qengine/qengine.cpp
+++ b/src/qengine/qengine.cpp
@@ -457,6 +457,8 @@ void QEngine::FSim(real1_f theta, real1_f phi, bitLenInt qubit1, bitLenInt qubit
 
 real1_f QEngine::CtrlOrAntiProb(bool controlState, bitLenInt control, bitLenInt target)
 {
+    const real1_f controlProb = controlState ? Prob(control) : (ONE_R1_F - Prob(control));
+    const real1_f targetProb = Prob(target);
     if (controlState) {
         AntiCNOT(control, target);
     } else {
@@ -468,7 +470,7 @@ real1_f QEngine::CtrlOrAntiProb(bool controlState, bitLenInt control, bitLenInt
     } else {
         CNOT(control, target);
     }
-    return prob;
+    return conditionalProb(controlProb, targetProb, prob);
 }
 
 void QEngine::ProbRegAll(bitLenInt start, bitLenInt length, real1* probsArray)
-- 
2.43.0


From 5c40da9e7c279f4c8230dee0e24f1d5f91aaa7e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:28 +0000
Subject: [PATCH 029/104] fix: QStabilizer variances seed the tableau walk
 after computing the mean

---
 src/qstabilizer.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/qstabilizer.cpp b/src/qstabilizer.cpp
index df74a39..96275a8 100644
--- a/src/qstabilizer.cpp
+++ b/src/qstabilizer.cpp
@@ -715,7 +715,7 @@ real1_f QStabilizer::VarianceBitsFactorized(
     std::vector<bitCapInt> bitPowers(bits.size());
     std::transform(bits.begin(), bits.end(), bitPowers.begin(), pow2);
 
-    Finish();
+    const real1_f mean = ExpectationBitsFactorized(bits, perms, offset);
 
     // log_2 of number of nonzero basis states
     const bitLenInt g = gaussian();
@@ -725,7 +725,6 @@ real1_f QStabilizer::VarianceBitsFactorized(
 
     seed(g);
 
-    const real1_f mean = ExpectationBitsFactorized(bits, perms, offset);
     real1 expectation = (real1)getVariance(mean, nrm, bitPowers, perms, offset);
     for (bitCapInt t = ZERO_BCI; bi_compare(t, permCountMinus1) < 0; bi_increment(&t, 1U)) {
         const bitCapInt t2 = t ^ (t + ONE_BCI);
@@ -754,7 +753,7 @@ real1_f QStabilizer::VarianceFloatsFactorized(const std::vector<bitLenInt>& bits
     std::vector<bitCapInt> bitPowers(bits.size());
     std::transform(bits.begin(), bits.end(), bitPowers.begin(), pow2);
 
-    Finish();
+    const real1_f mean = ExpectationFloatsFactorized(bits, weights);
 
     // log_2 of number of nonzero basis states
     const bitLenInt g = gaussian();
@@ -764,7 +763,6 @@ real1_f QStabilizer::VarianceFloatsFactorized(const std::vector<bitLenInt>& bits
 
     seed(g);
 
-    const real1_f mean = ExpectationFloatsFactorized(bits, weights);
     real1_f expectation = getVariance(mean, nrm, bitPowers, weights);
     for (bitCapInt t = ZERO_BCI; bi_compare(t, permCountMinus1) < 0; bi_increment(&t, 1U)) {
         const bitCapInt t2 = t ^ (t + ONE_BCI);
-- 
2.43.0


From 04ab73612cf19ecf8d6171c31e3667b8d141de42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:42 +0000
Subject: [PATCH 030/104] fix: QUnit::ProbRdm() asks the shard's own unit for
 the mapped qubit

---
 include/qunit.hpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/qunit.hpp b/include/qunit.hpp
index 4d28259..0872a3f 100644
--- a/include/qunit.hpp
+++ b/include/qunit.hpp
@@ -140,12 +140,18 @@ public:
 
     virtual real1_f ProbRdm(bitLenInt qubit)
     {
+        if (qubit >= qubitCount) {
+            throw std::invalid_argument("QUnit::ProbRdm qubit index parameter must be within allocated qubit bounds!");
+        }
+
+        ToPermBasisProb(qubit);
+
         const QEngineShard& shard = shards[qubit];
         if (!shard.unit) {
-            return Prob(qubit);
+            return ProbBase(qubit);
         }
 
-        return shard.unit->ProbRdm(qubit);
+        return shard.unit->ProbRdm(shard.mapped);
     }
     virtual real1_f CProbRdm(bitLenInt control, bitLenInt target)
     {
-- 
2.43.0


From fa3c9c1cabc962af12c16c76f5e34bdc2c32d2e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:12 +0000
Subject: [PATCH 031/104] fix: QUnit::GetProbs() does not reorder qubits in a
 state vector it shares

---
 src/qunit.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/qunit.cpp b/src/qunit.cpp
index 3e9f8c6..6fcf733 100644
--- a/src/qunit.cpp
+++ b/src/qunit.cpp
@@ -221,7 +221,8 @@ void QUnit::GetQuantumStateOrProbs(complex* outputState, real1* outputProbs)
         OrderContiguous(shards[0U].unit);
         thisCopy = this;
     } else {
-        thisCopyShared = std::dynamic_pointer_cast<QUnit>(Copy());
+        // (This must not be a shallow Copy(), as reordering qubits acts on the state vector in-place.)
+        thisCopyShared = std::dynamic_pointer_cast<QUnit>(Clone());
         thisCopy = thisCopyShared.get();
         thisCopy->EntangleAll();
     }
-- 
2.43.0


From 90ce07502ad220138d942f3685bba6d6b1b4142a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:52 +0000
Subject: [PATCH 032/104] fix: QUnitClifford::ProbMask() multiplies the
 probabilities of its units

---
 src/qunitclifford.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/qunitclifford.cpp b/src/qunitclifford.cpp
index 3cc79bd..059f4f4 100644
--- a/src/qunitclifford.cpp
+++ b/src/qunitclifford.cpp
@@ -170,12 +170,12 @@ real1_f QUnitClifford::ProbMask(const bitCapInt& mask, const bitCapInt& perm)
         }
     }
 
-    real1 expectation = ZERO_R1;
+    real1 prob = ONE_R1;
     for (const auto& p : maskMap) {
-        expectation += (real1)p.first->ProbMask(p.second, permMap[p.first]);
+        prob *= (real1)p.first->ProbMask(p.second, permMap[p.first]);
     }
 
-    return (real1_f)expectation;
+    return (real1_f)prob;
 }
 
 void QUnitClifford::SetPermutation(const bitCapInt& perm, const complex& phaseFac)
-- 
2.43.0


From 55fd754a115b36c6d12c77726f7686ef5a88166d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:52 +0000
Subject: [PATCH 033/104] fix: QUnitClifford expectation values add the offset
 once

---
 src/qunitclifford.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/qunitclifford.cpp b/src/qunitclifford.cpp
index 059f4f4..03691cb 100644
--- a/src/qunitclifford.cpp
+++ b/src/qunitclifford.cpp
@@ -63,14 +63,15 @@ real1_f QUnitClifford::ExpVarBitsFactorized(
         permMap[shard.unit].push_back(perms[(i << 1U) | 1U]);
     }
 
-    real1_f expectation = ZERO_R1;
+    // The offset applies once, no matter how many units there are. (It has no effect on variance.)
+    real1_f expectation = isExp ? (real1_f)bi_to_double(offset) : ZERO_R1_F;
     if (isExp) {
         for (const auto& p : qubitMap) {
-            expectation += p.first->ExpectationBitsFactorized(p.second, permMap[p.first], offset);
+            expectation += p.first->ExpectationBitsFactorized(p.second, permMap[p.first], ZERO_BCI);
         }
     } else {
         for (const auto& p : qubitMap) {
-            expectation += p.first->VarianceBitsFactorized(p.second, permMap[p.first], offset);
+            expectation += p.first->VarianceBitsFactorized(p.second, permMap[p.first], ZERO_BCI);
         }
     }
 
-- 
2.43.0


From d1fb489596c104d34f6889cb0f52f262e5332136 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:52 +0000
Subject: [PATCH 034/104] fix: QStabilizerHybrid variances over reduced density
 matrices are variances

---
 include/qstabilizerhybrid.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/qstabilizerhybrid.hpp b/include/qstabilizerhybrid.hpp
index e637df7..cc7ff47 100644
--- a/include/qstabilizerhybrid.hpp
+++ b/include/qstabilizerhybrid.hpp
@@ -883,7 +883,7 @@ public:
     real1_f VarianceBitsFactorizedRdm(bool roundRz, const std::vector<bitLenInt>& bits,
         const std::vector<bitCapInt>& perms, const bitCapInt& offset = ZERO_BCI)
     {
-        return ExpVarFactorized(true, false, bits, perms, std::vector<real1_f>(), offset, roundRz);
+        return ExpVarFactorized(false, false, bits, perms, std::vector<real1_f>(), offset, roundRz);
     }
     real1_f VarianceFloatsFactorized(const std::vector<bitLenInt>& bits, const std::vector<real1_f>& weights)
     {
@@ -896,7 +896,7 @@ public:
     real1_f VarianceFloatsFactorizedRdm(
         bool roundRz, const std::vector<bitLenInt>& bits, const std::vector<real1_f>& weights)
     {
-        return ExpVarFactorized(true, true, bits, std::vector<bitCapInt>(), weights, ZERO_BCI, roundRz);
+        return ExpVarFactorized(false, true, bits, std::vector<bitCapInt>(), weights, ZERO_BCI, roundRz);
     }
 
     bool TrySeparate(bitLenInt qubit);
-- 
2.43.0


From 801c951eee3fb33d1b4fcef2c1e05b316aa79c38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:05 +0000
Subject: [PATCH 035/104] fix: QStabilizerHybrid expectation values over
 reduced density matrices include buffered gates

---
 include/qstabilizerhybrid.hpp | 34 ++++++++++++++++++++++++++++++++++
 1 file changed, 34 insertions(+)

diff --git a/include/qstabilizerhybrid.hpp b/include/qstabilizerhybrid.hpp
index cc7ff47..2f02625 100644
--- a/include/qstabilizerhybrid.hpp
+++ b/include/qstabilizerhybrid.hpp
@@ -299,6 +299,25 @@ protected:
     }
     void RdmCloneFlush(real1_f threshold = FP_NORM_EPSILON);
 
+    /// Without ancillae there is nothing to trace out, but the tableau alone does not have gates buffered on these qubits.
+    bool IsRdmExact(const std::vector<bitLenInt>& bits)
+    {
+        ThrowIfQbIdArrayIsBad(bits, qubitCount,
+            "QStabilizerHybrid expectation value qubits vector values must be within allocated qubit bounds!");
+
+        if (ancillaCount) {
+            return false;
+        }
+
+        for (const bitLenInt& bit : bits) {
+            if (shards[bit] && !shards[bit]->IsPhase()) {
+                return true;
+            }
+        }
+
+        return false;
+    }
+
     real1_f ExpVarFactorized(bool isExp, bool isFloat, const std::vector<bitLenInt>& bits,
         const std::vector<bitCapInt>& perms, const std::vector<real1_f>& weights, const bitCapInt& offset, bool roundRz)
     {
@@ -309,6 +328,13 @@ protected:
                           : engine->VarianceBitsFactorizedRdm(roundRz, bits, perms, offset);
         }
 
+        if (IsRdmExact(bits)) {
+            return isExp  ? isFloat ? ExpectationFloatsFactorized(bits, weights)
+                                    : ExpectationBitsFactorized(bits, perms, offset)
+                 : isFloat ? VarianceFloatsFactorized(bits, weights)
+                          : VarianceBitsFactorized(bits, perms, offset);
+        }
+
         if (!roundRz) {
             return isExp  ? isFloat ? stabilizer->ExpectationFloatsFactorizedRdm(roundRz, bits, weights)
                                     : stabilizer->ExpectationBitsFactorizedRdm(roundRz, bits, perms, offset)
@@ -818,6 +844,10 @@ public:
             return engine->ExpectationBitsAllRdm(roundRz, bits, offset);
         }
 
+        if (IsRdmExact(bits)) {
+            return ExpectationBitsAll(bits, offset);
+        }
+
         if (!roundRz) {
             return stabilizer->ExpectationBitsAll(bits, offset);
         }
@@ -865,6 +895,10 @@ public:
             return engine->VarianceBitsAllRdm(roundRz, bits, offset);
         }
 
+        if (IsRdmExact(bits)) {
+            return VarianceBitsAll(bits, offset);
+        }
+
         if (!roundRz) {
             return stabilizer->VarianceBitsAll(bits, offset);
         }
-- 
2.43.0


From fe0322c689a82d345a039e63926670bde990330b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:05 +0000
Subject: [PATCH 036/104] fix: QPager::ExpectationBitsAll() and
 VarianceBitsAll() work across pages

---
 src/qpager.cpp | 42 +++---------------------------------------
 1 file changed, 3 insertions(+), 39 deletions(-)

diff --git a/src/qpager.cpp b/src/qpager.cpp
index 91b1c7f..fadced0 100644
--- a/src/qpager.cpp
+++ b/src/qpager.cpp
@@ -1521,48 +1521,12 @@ real1_f QPager::ProbMask(const bitCapInt& mask, const bitCapInt& permutation)
 
 real1_f QPager::ExpVarBitsAll(bool isExp, const std::vector<bitLenInt>& bits, const bitCapInt& offset)
 {
-    if (bits.size() != qubitCount) {
+    if (qPages.size() > 1U) {
+        // The bits span all pages, and variance is about the mean over all pages.
         return QInterface::ExpVarBitsAll(isExp, bits, offset);
     }
 
-    for (bitCapIntOcl i = 0U; i < bits.size(); ++i) {
-        if (bits[i] != i) {
-            return QInterface::ExpVarBitsAll(isExp, bits, offset);
-        }
-    }
-
-    const bitCapIntOcl pagePower = (bitCapIntOcl)pageMaxQPower();
-    real1_f expectation = ZERO_R1_F;
-    bitCapIntOcl pagePerm = 0U;
-#if ENABLE_PTHREAD
-    const unsigned numCores = GetConcurrencyLevel();
-    const bitCapIntOcl fCount = (qPages.size() < numCores) ? qPages.size() : numCores;
-    std::vector<std::future<real1_f>> futures(fCount);
-#endif
-    for (bitCapIntOcl i = 0U; i < qPages.size(); ++i) {
-        QEnginePtr engine = qPages[i];
-#if ENABLE_PTHREAD
-        const bitCapIntOcl iF = i % fCount;
-        if (i != iF) {
-            expectation += futures[iF].get();
-        }
-        futures[iF] = std::async(std::launch::async, [engine, isExp, bits, pagePerm, offset]() {
-            return isExp ? engine->ExpectationBitsAll(bits, pagePerm + (bitCapIntOcl)offset)
-                         : engine->VarianceBitsAll(bits, pagePerm + (bitCapIntOcl)offset);
-        });
-#else
-        expectation += isExp ? engine->ExpectationBitsAll(bits, pagePerm + offset)
-                             : engine->VarianceBitsAll(bits, pagePerm + offset);
-#endif
-        pagePerm += pagePower;
-    }
-#if ENABLE_PTHREAD
-    for (std::future<real1_f>& future : futures) {
-        expectation += future.get();
-    }
-#endif
-
-    return expectation;
+    return isExp ? qPages[0U]->ExpectationBitsAll(bits, offset) : qPages[0U]->VarianceBitsAll(bits, offset);
 }
 
 void QPager::UpdateRunningNorm(real1_f norm_thresh)
-- 
2.43.0


From 517a06029c0291e07266721690f8299011953490 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:05 +0000
Subject: [PATCH 037/104] fix: QPager::SumSqrDiff() compares whole registers,
 not page by page

---
 src/qpager.cpp | 37 ++++++++++++++++---------------------
 1 file changed, 16 insertions(+), 21 deletions(-)

diff --git a/src/qpager.cpp b/src/qpager.cpp
index fadced0..6d29a9d 100644
--- a/src/qpager.cpp
+++ b/src/qpager.cpp
@@ -1606,33 +1606,28 @@ real1_f QPager::SumSqrDiff(QPagerPtr toCompare)
     CombineEngines(toCompare->qubitsPerPage());
     toCompare->CombineEngines(qubitsPerPage());
 
-    real1_f toRet = ZERO_R1_F;
-#if ENABLE_PTHREAD
-    const unsigned numCores = GetConcurrencyLevel();
-    const bitCapIntOcl fCount = (qPages.size() < numCores) ? qPages.size() : numCores;
-    std::vector<std::future<real1_f>> futures(fCount);
-#endif
+    // Pages are not normalized on their own: only the inner product over all pages has meaning.
+    const bitCapIntOcl pagePower = (bitCapIntOcl)pageMaxQPower();
+    std::unique_ptr<complex[]> lAmps(new complex[pagePower]);
+    std::unique_ptr<complex[]> rAmps(new complex[pagePower]);
+    complex inner = ZERO_CMPLX;
+    real1 lNorm = ZERO_R1;
+    real1 rNorm = ZERO_R1;
     for (bitCapIntOcl i = 0U; i < qPages.size(); ++i) {
-        QEnginePtr lEngine = qPages[i];
-        QEnginePtr rEngine = toCompare->qPages[i];
-#if ENABLE_PTHREAD
-        const bitCapIntOcl iF = i % fCount;
-        if (i != iF) {
-            toRet += futures[iF].get();
+        qPages[i]->GetAmplitudePage(lAmps.get(), 0U, pagePower);
+        toCompare->qPages[i]->GetAmplitudePage(rAmps.get(), 0U, pagePower);
+        for (bitCapIntOcl j = 0U; j < pagePower; ++j) {
+            inner += conj(lAmps[j]) * rAmps[j];
+            lNorm += norm(lAmps[j]);
+            rNorm += norm(rAmps[j]);
         }
-        futures[iF] = std::async(std::launch::async, [lEngine, rEngine]() { return lEngine->SumSqrDiff(rEngine); });
-#else
-        toRet += lEngine->SumSqrDiff(rEngine);
-#endif
     }
 
-#if ENABLE_PTHREAD
-    for (std::future<real1_f>& future : futures) {
-        toRet += future.get();
+    if ((lNorm <= FP_NORM_EPSILON) || (rNorm <= FP_NORM_EPSILON)) {
+        return (real1_f)(lNorm + rNorm);
     }
-#endif
 
-    return toRet;
+    return ONE_R1_F - clampProb((real1_f)(norm(inner) / (lNorm * rNorm)));
 }
 
 } // namespace Qrack
-- 
2.43.0


From e48b691ca60c4264f5b0ce2e75a301d2796ec726 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:51 +0000
Subject: [PATCH 038/104] fix: QUnit expectation values flush buffered bases

---
 include/qunit.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/qunit.hpp b/include/qunit.hpp
index 0872a3f..b161491 100644
--- a/include/qunit.hpp
+++ b/include/qunit.hpp
@@ -660,6 +660,8 @@ protected:
         ThrowIfQbIdArrayIsBad(bits, qubitCount,
             "QUnit::ExpectationFactorized parameter qubits vector values must be within allocated qubit bounds!");
 
+        ToPermBasisProb();
+
         if (shards[0U].unit && (shards[0U].unit->GetQubitCount() == qubitCount)) {
             OrderContiguous(shards[0U].unit);
             return isExp  ? isFloat
-- 
2.43.0


From 7209c199335aed9748cc0f01742d8350a1d1571d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:14 +0000
Subject: [PATCH 039/104] fix: QStabilizerHybrid amplitudes account for all
 combinations of buffered gates

---
 src/qstabilizerhybrid.cpp | 121 ++++++++++++--------------------------
 1 file changed, 36 insertions(+), 85 deletions(-)

diff --git a/src/qstabilizerhybrid.cpp b/src/qstabilizerhybrid.cpp
index fb66b53..8c92741 100644
--- a/src/qstabilizerhybrid.cpp
+++ b/src/qstabilizerhybrid.cpp
@@ -733,59 +733,41 @@ complex QStabilizerHybrid::GetAmplitudeOrProb(const bitCapInt& perm, bool isProb
         return toRet;
     }
 
-    std::vector<bitLenInt> indices;
+    // Every buffered gate that mixes |0> and |1> doubles the number of tableau amplitudes that contribute.
     std::vector<bitCapInt> perms{ perm };
+    std::vector<complex> weights{ ONE_CMPLX };
     for (bitLenInt i = 0U; i < qubitCount; ++i) {
         if (!shards[i]) {
             continue;
         }
-        indices.push_back(i);
-        perms.push_back(perm ^ pow2(i));
-    }
-
-    if (!ancillaCount) {
-        std::vector<complex> amps;
-        amps.reserve(perms.size());
-        if (stateMapCache) {
-            for (size_t i = 0U; i < perms.size(); ++i) {
-                amps.push_back(stateMapCache->get(perms[i]));
-            }
-        } else {
-            amps = stabilizer->GetAmplitudes(perms);
-        }
-        complex amp = amps[0U];
-        for (size_t i = 1U; i < amps.size(); ++i) {
-            const bitLenInt j = indices[i - 1U];
-            const complex* mtrx = shards[j]->gate;
-            if (bi_and_1(perm >> j)) {
-                amp = mtrx[2U] * amps[i] + mtrx[3U] * amp;
-            } else {
-                amp = mtrx[0U] * amp + mtrx[1U] * amps[i];
+        const complex* mtrx = shards[i]->gate;
+        const bool bit = bi_and_1(perm >> i);
+        const complex same = bit ? mtrx[3U] : mtrx[0U];
+        const complex other = bit ? mtrx[2U] : mtrx[1U];
+        const size_t count = perms.size();
+        if (norm(other) > ZERO_R1) {
+            for (size_t j = 0U; j < count; ++j) {
+                perms.push_back(perms[j] ^ pow2(i));
+                weights.push_back(other * weights[j]);
             }
         }
-
-        if (isRounded) {
-            stabilizer = origStabilizer;
-            ancillaCount = origAncillaCount;
-            deadAncillaCount = origDeadAncillaCount;
-            shards = origShards;
+        for (size_t j = 0U; j < count; ++j) {
+            weights[j] *= same;
         }
-
-        return amp;
     }
+    const size_t aStride = perms.size();
 
-    const bitLenInt aStride = indices.size() + 1U;
     const bitCapIntOcl ancillaPow = pow2Ocl(ancillaCount);
     for (bitCapIntOcl i = 1U; i < ancillaPow; ++i) {
-        const bitCapInt ancillaPerm = i << qubitCount;
+        const bitCapInt ancillaPerm = ((bitCapInt)i) << qubitCount;
         for (size_t j = 0U; j < aStride; ++j) {
             perms.push_back(perms[j] | ancillaPerm);
         }
     }
 
     std::vector<complex> amps;
-    amps.reserve(perms.size());
     if (stateMapCache) {
+        amps.reserve(perms.size());
         for (size_t i = 0U; i < perms.size(); ++i) {
             amps.push_back(stateMapCache->get(perms[i]));
         }
@@ -793,6 +775,22 @@ complex QStabilizerHybrid::GetAmplitudeOrProb(const bitCapInt& perm, bool isProb
         amps = stabilizer->GetAmplitudes(perms);
     }
 
+    if (!ancillaCount) {
+        complex amp = ZERO_CMPLX;
+        for (size_t i = 0U; i < aStride; ++i) {
+            amp += weights[i] * amps[i];
+        }
+
+        if (isRounded) {
+            stabilizer = origStabilizer;
+            ancillaCount = origAncillaCount;
+            deadAncillaCount = origDeadAncillaCount;
+            shards = origShards;
+        }
+
+        return amp;
+    }
+
     std::vector<QInterfaceEngine> et = engineTypes;
     for (size_t i = 0U; i < et.size(); ++i) {
         const size_t j = et.size() - (i + 1U);
@@ -807,61 +805,14 @@ complex QStabilizerHybrid::GetAmplitudeOrProb(const bitCapInt& perm, bool isProb
         CreateQuantumInterface(et, ancillaCount, ZERO_BCI, rand_generator, ONE_CMPLX, false, false, useHostRam, devID,
             useRDRAND, false, (real1_f)amplitudeFloor, deviceIDs, thresholdQubits, separabilityThreshold));
 
-#if ENABLE_COMPLEX_X2
-    std::vector<complex2> top;
-    std::vector<complex2> bottom;
-    // For variable scoping, only:
-    if (true) {
-        complex amp = amps[0U];
-        for (bitLenInt i = 1U; i < aStride; ++i) {
-            const bitLenInt j = indices[i - 1U];
-            const complex* mtrx = shards[j]->gate;
-            top.emplace_back(mtrx[0U], mtrx[1U]);
-            bottom.emplace_back(mtrx[3U], mtrx[2U]);
-            complex2 amp2(amp, amps[i]);
-            if (bi_and_1(perm >> j)) {
-                amp2 = amp2 * bottom.back();
-            } else {
-                amp2 = amp2 * top.back();
-            }
-            amp = amp2.c(0U) + amp2.c(1U);
-        }
-        aEngine->SetAmplitude(0U, amp);
-    }
-    for (bitCapIntOcl a = 1U; a < ancillaPow; ++a) {
-        const bitCapIntOcl offset = a * aStride;
-        complex amp = amps[offset];
-        for (bitLenInt i = 1U; i < aStride; ++i) {
-            const bitLenInt j = indices[i - 1U];
-            complex2 amp2(amp, amps[i]);
-            if (bi_and_1(perm >> j)) {
-                amp2 = amp2 * bottom[j];
-            } else {
-                amp2 = amp2 * top[j];
-            }
-            amp = amp2.c(0U) + amp2.c(1U);
-        }
-        aEngine->SetAmplitude(a, amp);
-    }
-    top.clear();
-    bottom.clear();
-#else
     for (bitCapIntOcl a = 0U; a < ancillaPow; ++a) {
-        const bitCapIntOcl offset = a * aStride;
-        complex amp = amps[offset];
-        for (bitLenInt i = 1U; i < aStride; ++i) {
-            const bitLenInt j = indices[i - 1U];
-            const complex* mtrx = shards[j]->gate;
-            const complex oAmp = amps[i + offset];
-            if (bi_and_1(perm >> j)) {
-                amp = mtrx[3U] * amp + mtrx[2U] * oAmp;
-            } else {
-                amp = mtrx[0U] * amp + mtrx[1U] * oAmp;
-            }
+        const size_t offset = a * aStride;
+        complex amp = ZERO_CMPLX;
+        for (size_t i = 0U; i < aStride; ++i) {
+            amp += weights[i] * amps[i + offset];
         }
         aEngine->SetAmplitude(a, amp);
     }
-#endif
     amps.clear();
 
     for (bitLenInt i = 0U; i < ancillaCount; ++i) {
-- 
2.43.0


From 4d2fb8fa939a12afaa81f65ac59f5f3f9bef0139 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:14 +0000
Subject: [PATCH 040/104] fix: QUnit::ProbAllRdm() flushes buffered bases

---
 include/qunit.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/qunit.hpp b/include/qunit.hpp
index b161491..0ea0310 100644
--- a/include/qunit.hpp
+++ b/include/qunit.hpp
@@ -463,6 +463,8 @@ public:
     virtual real1_f ProbAll(const bitCapInt& perm) { return clampProb((real1_f)norm(GetAmplitudeOrProb(perm, true))); }
     virtual real1_f ProbAllRdm(bool roundRz, const bitCapInt& perm)
     {
+        ToPermBasisProb();
+
         if (shards[0U].unit && (shards[0U].unit->GetQubitCount() == qubitCount)) {
             OrderContiguous(shards[0U].unit);
             return shards[0U].unit->ProbAllRdm(roundRz, perm);
-- 
2.43.0


From fec9eba55423fb924c2f9c1cb6f9c21e6b9c8ec3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:52 +0000
Subject: [PATCH 041/104] fix: QEngineCPU::DecomposeDispose() does not average
 angles

---
 src/qengine/state.cpp | 102 ++++++++++++++++--------------------------
 1 file changed, 38 insertions(+), 64 deletions(-)

diff --git a/src/qengine/state.cpp b/src/qengine/state.cpp
index 920ba7f..c1fd129 100644
--- a/src/qengine/state.cpp
+++ b/src/qengine/state.cpp
@@ -12,6 +12,7 @@
 
 #include "qengine_cpu.hpp"
 
+#include <algorithm>
 #include <chrono>
 #include <thread>
 
@@ -1173,76 +1174,49 @@ void QEngineCPU::DecomposeDispose(bitLenInt start, bitLenInt length, QEngineCPUP
     }
     Finish();
 
-    if (destination) {
-        par_for(0U, remainderPower, [&](const bitCapIntOcl& lcv, const unsigned& cpu) {
-            bitCapIntOcl j = lcv & pow2MaskOcl(start);
-            j |= (lcv ^ j) << length;
-
-            for (bitCapIntOcl k = 0U; k < partPower; ++k) {
-                const complex amp = stateVec->read(j | (k << start));
-                const real1 nrm = norm(amp);
-                remainderStateProb[lcv] += nrm;
-                if (nrm > amplitudeFloor) {
-                    partStateAngle[k] += arg(amp) * nrm;
-                }
-            }
-        });
-        par_for(0U, partPower, [&](const bitCapIntOcl& lcv, const unsigned& cpu) {
-            const bitCapIntOcl startMask = pow2MaskOcl(start);
-            const bitCapIntOcl j = lcv << start;
+    const bitCapIntOcl startMask = pow2MaskOcl(start);
+    // Amplitude index, from the indices in the remainder and in the part:
+    const auto fullIndex = [&](const bitCapIntOcl& r, const bitCapIntOcl& p) {
+        const bitCapIntOcl l = r & startMask;
+        return l | (p << start) | ((r ^ l) << length);
+    };
 
-            for (bitCapIntOcl k = 0U; k < remainderPower; ++k) {
-                bitCapIntOcl l = k & startMask;
-                l |= j | ((k ^ l) << length);
-
-                const complex amp = stateVec->read(l);
-                const real1 nrm = norm(amp);
-                partStateProb[lcv] += nrm;
-                if (nrm > amplitudeFloor) {
-                    remainderStateAngle[k] += arg(amp) * nrm;
-                }
-            }
+    if (!destination) {
+        partStateProb = std::unique_ptr<real1[]>(new real1[partPower]());
+    }
+    par_for(0U, remainderPower, [&](const bitCapIntOcl& lcv, const unsigned& cpu) {
+        for (bitCapIntOcl k = 0U; k < partPower; ++k) {
+            remainderStateProb[lcv] += norm(stateVec->read(fullIndex(lcv, k)));
+        }
+    });
+    par_for(0U, partPower, [&](const bitCapIntOcl& lcv, const unsigned& cpu) {
+        for (bitCapIntOcl k = 0U; k < remainderPower; ++k) {
+            partStateProb[lcv] += norm(stateVec->read(fullIndex(k, lcv)));
+        }
+    });
 
-            const real1 prob = partStateProb[lcv];
-            if (prob > amplitudeFloor) {
-                partStateAngle[lcv] /= prob;
-            }
-        });
-        par_for(0U, remainderPower, [&](const bitCapIntOcl& lcv, const unsigned& cpu) {
-            const real1 prob = remainderStateProb[lcv];
-            if (prob > amplitudeFloor) {
-                remainderStateAngle[lcv] /= prob;
-            }
-        });
-    } else {
-        par_for(0U, remainderPower, [&](const bitCapIntOcl& lcv, const unsigned& cpu) {
-            bitCapIntOcl j = lcv & pow2MaskOcl(start);
-            j |= (lcv ^ j) << length;
+    // The phases of each subsystem are relative to its most probable permutation. (Averages of angles are not well
+    // defined, since angles are only defined up to multiples of 2 * PI.)
+    const bitCapIntOcl remainderRef = (bitCapIntOcl)std::distance(remainderStateProb.get(),
+        std::max_element(remainderStateProb.get(), remainderStateProb.get() + remainderPower));
+    const bitCapIntOcl partRef = (bitCapIntOcl)std::distance(
+        partStateProb.get(), std::max_element(partStateProb.get(), partStateProb.get() + partPower));
+    const real1 refAngle = (real1)arg(stateVec->read(fullIndex(remainderRef, partRef)));
 
-            for (bitCapIntOcl k = 0U; k < partPower; ++k) {
-                remainderStateProb[lcv] += norm(stateVec->read(j | (k << start)));
-            }
-        });
+    par_for(0U, remainderPower, [&](const bitCapIntOcl& lcv, const unsigned& cpu) {
+        complex overlap = ZERO_CMPLX;
+        for (bitCapIntOcl k = 0U; k < partPower; ++k) {
+            overlap += stateVec->read(fullIndex(lcv, k)) * conj(stateVec->read(fullIndex(remainderRef, k)));
+        }
+        remainderStateAngle[lcv] = refAngle + (real1)arg(overlap);
+    });
+    if (destination) {
         par_for(0U, partPower, [&](const bitCapIntOcl& lcv, const unsigned& cpu) {
-            const bitCapIntOcl startMask = pow2MaskOcl(start);
-            const bitCapIntOcl j = lcv << start;
-
+            complex overlap = ZERO_CMPLX;
             for (bitCapIntOcl k = 0U; k < remainderPower; ++k) {
-                bitCapIntOcl l = k & startMask;
-                l |= j | ((k ^ l) << length);
-
-                const complex amp = stateVec->read(l);
-                const real1 nrm = norm(amp);
-                if (nrm > amplitudeFloor) {
-                    remainderStateAngle[k] += arg(amp) * nrm;
-                }
-            }
-        });
-        par_for(0U, remainderPower, [&](const bitCapIntOcl& lcv, const unsigned& cpu) {
-            const real1 prob = remainderStateProb[lcv];
-            if (prob > amplitudeFloor) {
-                remainderStateAngle[lcv] /= prob;
+                overlap += stateVec->read(fullIndex(k, lcv)) * conj(stateVec->read(fullIndex(k, partRef)));
             }
+            partStateAngle[lcv] = (real1)arg(overlap);
         });
     }
 
-- 
2.43.0


From 1da8aaef6adacb6c51edd8e5f45e92423e334fbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:48 +0000
Subject: [PATCH 042/104] fix: QUnit::ProbBase() keeps the basis of
 single-qubit units

---
 include/qunit.hpp |  4 +++-
 src/qunit.cpp     | 20 +++++++++++++++-----
 2 files changed, 18 insertions(+), 6 deletions(-)

diff --git a/include/qunit.hpp b/include/qunit.hpp
index 0ea0310..5df662a 100644
--- a/include/qunit.hpp
+++ b/include/qunit.hpp
@@ -616,7 +616,9 @@ protected:
 
         shard.amp1 = -shard.amp1;
     }
-    virtual real1_f ProbBase(bitLenInt qubit);
+    /// Probability of |1>, in the current 1-qubit basis of the shard. (If a separated qubit might be left in another basis,
+    /// then "keepBasis" should be false.)
+    virtual real1_f ProbBase(bitLenInt qubit, bool keepBasis = true);
 
     virtual bool TrySeparateClifford(bitLenInt qubit);
 
diff --git a/src/qunit.cpp b/src/qunit.cpp
index 6fcf733..f526970 100644
--- a/src/qunit.cpp
+++ b/src/qunit.cpp
@@ -660,9 +660,9 @@ bool QUnit::TrySeparateClifford(bitLenInt qubit)
     shard.mapped = 0U;
     shard.unit = sepUnit;
 
-    ProbBase(qubit);
+    ProbBase(qubit, false);
     if (isPair) {
-        ProbBase(oQubit);
+        ProbBase(oQubit, false);
     }
 
     return true;
@@ -678,7 +678,7 @@ bool QUnit::TrySeparate(bitLenInt qubit)
 
     if (shard.GetQubitCount() == 1U) {
         if (shard.unit) {
-            ProbBase(qubit);
+            ProbBase(qubit, false);
         }
         return true;
     }
@@ -948,11 +948,12 @@ bool QUnit::CheckBitsPlus(bitLenInt qubitIndex, bitLenInt length)
     return isHBasis;
 }
 
-real1_f QUnit::ProbBase(bitLenInt qubit)
+real1_f QUnit::ProbBase(bitLenInt qubit, bool keepBasis)
 {
     QEngineShard& shard = shards[qubit];
 
     if (shard.unit && (shard.unit->GetQubitCount() == 1U)) {
+        const Pauli basis = shard.pauliBasis;
         RevertBasis1Qb(qubit);
         complex amps[2U];
         shard.unit->GetQuantumState(amps);
@@ -989,6 +990,15 @@ real1_f QUnit::ProbBase(bitLenInt qubit)
         shard.mapped = 0U;
         shard.ClampAmps();
 
+        if (keepBasis && (basis != shard.pauliBasis)) {
+            RevertBasis1Qb(qubit);
+            if (basis == PauliX) {
+                ConvertZToX(qubit);
+            } else if (basis == PauliY) {
+                ConvertZToY(qubit);
+            }
+        }
+
         return norm(shard.amp1);
     }
 
@@ -1368,7 +1378,7 @@ bool QUnit::SeparateBit(bool value, bitLenInt qubit)
     for (bitLenInt partnerIndex = 0U; partnerIndex < qubitCount; ++partnerIndex) {
         QEngineShard& partnerShard = shards[partnerIndex];
         if (unit == partnerShard.unit) {
-            ProbBase(partnerIndex);
+            ProbBase(partnerIndex, false);
             break;
         }
     }
-- 
2.43.0


From eebf554d2f8634f0a8495b2769200a76a47b093e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:04 +0000
Subject: [PATCH 043/104] fix: QUnit::Detach() keeps track of mapped indices,
 and flushes 2-qubit buffers before moving shards

---
 include/qunit.hpp |   1 +
 src/qunit.cpp     | 149 ++++++++++++++++++++++------------------------
 2 files changed, 72 insertions(+), 78 deletions(-)

diff --git a/include/qunit.hpp b/include/qunit.hpp
index 5df662a..4d4617d 100644
--- a/include/qunit.hpp
+++ b/include/qunit.hpp
@@ -724,6 +724,7 @@ protected:
 
     void OrderContiguous(QInterfacePtr unit);
 
+    void DetachShard(QEngineShard& shard);
     virtual bool Detach(
         bitLenInt start, bitLenInt length, QUnitPtr dest, bool isTry = false, real1_f tol = TRYDECOMPOSE_EPSILON);
 
diff --git a/src/qunit.cpp b/src/qunit.cpp
index f526970..694c8d5 100644
--- a/src/qunit.cpp
+++ b/src/qunit.cpp
@@ -278,25 +278,37 @@ complex QUnit::GetAmplitudeOrProb(const bitCapInt& perm, bool isProb)
     return result;
 }
 
+/// Cache the state of a single-qubit unit directly in its shard, and drop the unit.
+void QUnit::DetachShard(QEngineShard& shard)
+{
+    complex amps[2U];
+    shard.unit->GetQuantumState(amps);
+    shard.amp0 = amps[0U];
+    shard.amp1 = amps[1U];
+    shard.isProbDirty = false;
+    shard.isPhaseDirty = false;
+    shard.unit = nullptr;
+    shard.mapped = 0U;
+    shard.ClampAmps();
+}
+
 bool QUnit::Detach(bitLenInt start, bitLenInt length, QUnitPtr dest, bool isTry, real1_f tol)
 {
     if (isBadBitRange(start, length, qubitCount)) {
         throw std::invalid_argument("QUnit::Detach range is out-of-bounds!");
     }
 
-    for (bitLenInt i = 0U; i < length; ++i) {
-        RevertBasis2Qb(start + i);
+    // (2-qubit buffers refer to shards by address, and all addresses might change, below.)
+    for (bitLenInt i = 0U; i < qubitCount; ++i) {
+        RevertBasis2Qb(i);
     }
 
-    // Move "emulated" bits immediately into the destination, which is initialized.
     // Find a set of shard "units" to order contiguously. Also count how many bits to decompose are in each subunit.
     std::map<QInterfacePtr, bitLenInt> subunits;
     for (bitLenInt i = 0U; i < length; ++i) {
-        QEngineShard& shard = shards[start + i];
+        const QEngineShard& shard = shards[start + i];
         if (shard.unit) {
             ++(subunits[shard.unit]);
-        } else if (dest) {
-            dest->shards[i] = shard;
         }
     }
 
@@ -308,102 +320,83 @@ bool QUnit::Detach(bitLenInt start, bitLenInt length, QUnitPtr dest, bool isTry,
         }
     }
 
-    const QUnitPtr copy{ isTry ? std::dynamic_pointer_cast<QUnit>(Copy()) : nullptr };
+    // If a subunit fails to separate after another already has, we must restore the original state.
+    const QUnitPtr backup{ (isTry && (subunits.size() > 1U)) ? std::dynamic_pointer_cast<QUnit>(Clone()) : nullptr };
 
     // After ordering all subunits contiguously, since the top level mapping is a contiguous array, all subunit sets are
     // also contiguous. From the lowest index bits, they are mapped simply for the length count of bits involved in the
     // entire subunit.
-    std::map<QInterfacePtr, bitLenInt> decomposedUnits;
+    std::map<QInterfacePtr, std::pair<QInterfacePtr, bitLenInt>> decomposedUnits;
     for (bitLenInt i = 0U; i < length; ++i) {
-        QEngineShard& shard = shards[start + i];
-        QInterfacePtr unit = shard.unit;
+        const QInterfacePtr unit = shards[start + i].unit;
 
-        if (!unit) {
+        if (!unit || (decomposedUnits.find(unit) != decomposedUnits.end())) {
             continue;
         }
 
-        if (decomposedUnits.find(unit) == decomposedUnits.end()) {
-            decomposedUnits[unit] = start + i;
-            const bitLenInt subLen = subunits[unit];
-            const bitLenInt origLen = unit->GetQubitCount();
-            if (subLen != origLen) {
-                if (dest || isTry) {
-                    QInterfacePtr nUnit = MakeEngine(subLen, ZERO_BCI);
-                    if (isTry) {
-                        if (!shard.unit->TryDecompose(shard.mapped, nUnit, tol)) {
-                            Copy(copy);
-                            return false;
-                        }
-                    } else {
-                        shard.unit->Decompose(shard.mapped, nUnit);
-                    }
-                    shard.unit = nUnit;
-                } else {
-                    shard.unit->Dispose(shard.mapped, subLen);
-                }
-
-                if ((subLen == 1U) && dest) {
-                    complex amps[2U];
-                    shard.unit->GetQuantumState(amps);
-                    shard.amp0 = amps[0U];
-                    shard.amp1 = amps[1U];
-                    shard.isProbDirty = false;
-                    shard.isPhaseDirty = false;
-                    shard.unit = nullptr;
-                    shard.mapped = 0U;
-                    shard.ClampAmps();
-                }
+        const bitLenInt lowest = shards[start + i].mapped;
+        const bitLenInt subLen = subunits[unit];
+        const bitLenInt origLen = unit->GetQubitCount();
 
-                if (subLen == (origLen - 1U)) {
-                    bitLenInt mapped = shards[decomposedUnits[unit]].mapped;
-                    if (!mapped) {
-                        mapped += subLen;
-                    } else {
-                        mapped = 0U;
-                    }
-                    for (QEngineShard& shard : shards) {
-                        if (!((shard.unit == unit) && (shard.mapped == mapped))) {
-                            continue;
-                        }
-
-                        complex amps[2U];
-                        shard.unit->GetQuantumState(amps);
-                        shard.amp0 = amps[0U];
-                        shard.amp1 = amps[1U];
-                        shard.isProbDirty = false;
-                        shard.isPhaseDirty = false;
-                        shard.unit = nullptr;
-                        shard.mapped = 0U;
-                        shard.ClampAmps();
+        if (subLen == origLen) {
+            decomposedUnits[unit] = std::make_pair(unit, 0U);
+            continue;
+        }
 
-                        break;
-                    }
+        QInterfacePtr nUnit = nullptr;
+        if (isTry) {
+            nUnit = MakeEngine(subLen, ZERO_BCI);
+            if (!unit->TryDecompose(lowest, nUnit, tol)) {
+                if (backup) {
+                    Copy(backup);
                 }
+                return false;
             }
+        } else if (dest) {
+            nUnit = MakeEngine(subLen, ZERO_BCI);
+            unit->Decompose(lowest, nUnit);
         } else {
-            shard.unit = shards[decomposedUnits[unit]].unit;
+            unit->Dispose(lowest, subLen);
         }
+        decomposedUnits[unit] = std::make_pair(nUnit, lowest);
+
+        // Remap the rest of the qubits of the unit.
+        for (bitLenInt j = 0U; j < qubitCount; ++j) {
+            QEngineShard& shard = shards[j];
+            if (((j >= start) && (j < (start + length))) || (shard.unit != unit)) {
+                continue;
+            }
+
+            if (shard.mapped > lowest) {
+                shard.mapped -= subLen;
+            }
 
-        if (dest) {
-            dest->shards[i] = shard;
+            if (subLen == (origLen - 1U)) {
+                DetachShard(shard);
+            }
         }
     }
 
-    // Find the rest of the qubits.
-    for (auto&& shard : shards) {
-        const auto subunit = subunits.find(shard.unit);
-        if (subunit != subunits.end() &&
-            shard.mapped >= (shards[decomposedUnits[shard.unit]].mapped + subunit->second)) {
-            shard.mapped -= subunit->second;
+    if (dest) {
+        dest->Dump();
+        dest->shards = QEngineShardMap(length);
+        for (bitLenInt i = 0U; i < length; ++i) {
+            QEngineShard& shard = dest->shards[i];
+            shard = shards[start + i];
+            if (!shard.unit) {
+                continue;
+            }
+            const auto& nUnit = decomposedUnits[shard.unit];
+            shard.unit = nUnit.first;
+            shard.mapped -= nUnit.second;
+            if (shard.unit->GetQubitCount() == 1U) {
+                DetachShard(shard);
+            }
         }
     }
 
     shards.erase(start, start + length);
 
-    if (dest) {
-        dest->shards.reindex();
-    }
-
     SetQubitCount(qubitCount - length);
 
     return true;
-- 
2.43.0


From a190b0fc6d2b5c21ced52196c1477b32633edfef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:11 +0000
Subject: [PATCH 044/104] fix: QInterfaceNoisy counts qubits once when
 composing, and returns a register of the right size from Decompose()

---
 include/qinterface_noisy.hpp | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/include/qinterface_noisy.hpp b/include/qinterface_noisy.hpp
index c5b4496..87569d0 100644
--- a/include/qinterface_noisy.hpp
+++ b/include/qinterface_noisy.hpp
@@ -116,20 +116,25 @@ public:
 
     bitLenInt Allocate(bitLenInt start, bitLenInt length)
     {
+        const bitLenInt result = engine->Allocate(start, length);
         SetQubitCount(qubitCount + length);
-        return engine->Allocate(start, length);
+        return result;
     }
     using QInterface::Compose;
     bitLenInt Compose(QInterfaceNoisyPtr toCopy)
     {
-        SetQubitCount(qubitCount + toCopy->qubitCount);
-        return engine->Compose(toCopy->engine);
+        const bitLenInt nQubitCount = qubitCount + toCopy->qubitCount;
+        const bitLenInt result = engine->Compose(toCopy->engine);
+        SetQubitCount(nQubitCount);
+        return result;
     }
     bitLenInt Compose(QInterfacePtr toCopy) { return Compose(std::dynamic_pointer_cast<QInterfaceNoisy>(toCopy)); }
     bitLenInt Compose(QInterfaceNoisyPtr toCopy, bitLenInt start)
     {
-        SetQubitCount(qubitCount + toCopy->qubitCount);
-        return engine->Compose(toCopy->engine, start);
+        const bitLenInt nQubitCount = qubitCount + toCopy->qubitCount;
+        const bitLenInt result = engine->Compose(toCopy->engine, start);
+        SetQubitCount(nQubitCount);
+        return result;
     }
     bitLenInt Compose(QInterfacePtr toCopy, bitLenInt start)
     {
@@ -137,8 +142,10 @@ public:
     }
     bitLenInt ComposeNoClone(QInterfaceNoisyPtr toCopy)
     {
-        SetQubitCount(qubitCount + toCopy->qubitCount);
-        return engine->ComposeNoClone(toCopy->engine);
+        const bitLenInt nQubitCount = qubitCount + toCopy->qubitCount;
+        const bitLenInt result = engine->ComposeNoClone(toCopy->engine);
+        SetQubitCount(nQubitCount);
+        return result;
     }
     bitLenInt ComposeNoClone(QInterfacePtr toCopy)
     {
@@ -152,7 +159,9 @@ public:
     QInterfacePtr Decompose(bitLenInt start, bitLenInt length)
     {
         QInterfaceNoisyPtr dest = std::make_shared<QInterfaceNoisy>(this);
-        engine->Decompose(start, dest->engine);
+        dest->engine = engine->Decompose(start, length);
+        dest->SetQubitCount(length);
+        SetQubitCount(qubitCount - length);
 
         return dest;
     }
-- 
2.43.0


From 6ed2637d8071046a98ff5e005f0a022b8239643e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:44 +0000
Subject: [PATCH 045/104] fix: QPager::SetQubitCount() keeps maxQPowerOcl up to
 date

---
 include/qpager.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/qpager.hpp b/include/qpager.hpp
index 7a73271..3977c16 100644
--- a/include/qpager.hpp
+++ b/include/qpager.hpp
@@ -51,7 +51,7 @@ protected:
 
     void SetQubitCount(bitLenInt qb)
     {
-        QInterface::SetQubitCount(qb);
+        QEngine::SetQubitCount(qb);
         baseQubitsPerPage = (qubitCount < thresholdQubitsPerPage) ? qubitCount : thresholdQubitsPerPage;
         basePageCount = pow2Ocl(qubitCount - baseQubitsPerPage);
         basePageMaxQPower = pow2Ocl(baseQubitsPerPage);
-- 
2.43.0


From 8ad4d2fb8348832c3a920b93582d947cbfff757e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:44 +0000
Subject: [PATCH 046/104] fix: QInterface::Compose() returns the start position

---
 src/qinterface/qinterface.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/qinterface/qinterface.cpp b/src/qinterface/qinterface.cpp
index 3169e80..80988fe 100644
--- a/src/qinterface/qinterface.cpp
+++ b/src/qinterface/qinterface.cpp
@@ -423,10 +423,10 @@ bitLenInt QInterface::Compose(QInterfacePtr toCopy, bitLenInt start)
 
     const bitLenInt origSize = qubitCount;
     ROL(origSize - start, 0, qubitCount);
-    const bitLenInt result = Compose(toCopy);
+    Compose(toCopy);
     ROR(origSize - start, 0, qubitCount);
 
-    return result;
+    return start;
 }
 
 std::map<QInterfacePtr, bitLenInt> QInterface::Compose(std::vector<QInterfacePtr> toCopy)
@@ -856,9 +856,10 @@ bool QInterface::TryDecompose(bitLenInt start, QInterfacePtr dest, real1_f error
 {
     Finish();
 
-    QInterfacePtr orig = Copy();
+    // (Shallow copies share state, which is possibly modified in place, to decompose and compose.)
+    QInterfacePtr orig = Clone();
     orig->Decompose(start, dest);
-    QInterfacePtr output = orig->Copy();
+    QInterfacePtr output = orig->Clone();
     orig->Compose(dest, start);
 
     const bool didSeparate = ApproxCompare(orig, error_tol);
-- 
2.43.0


From cf8f7210be30409f23888e72852088330320badd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:44 +0000
Subject: [PATCH 047/104] fix: QPager::Decompose() keeps relative weights and
 phases of pages

---
 src/qpager.cpp | 61 +++++++++++++++++++++++++++++---------------------
 1 file changed, 35 insertions(+), 26 deletions(-)

diff --git a/src/qpager.cpp b/src/qpager.cpp
index 6d29a9d..421afc0 100644
--- a/src/qpager.cpp
+++ b/src/qpager.cpp
@@ -703,8 +703,9 @@ bitLenInt QPager::ComposeEither(QPagerPtr toCopy, bool willDestroy)
 
 QInterfacePtr QPager::Decompose(bitLenInt start, bitLenInt length)
 {
-    QPagerPtr dest = std::make_shared<QPager>(engines, qubitCount, ZERO_BCI, rand_generator, ONE_CMPLX, doNormalize,
-        randGlobalPhase, false, 0, !hardware_rand_generator ? false : true, isSparse, (real1_f)amplitudeFloor);
+    QPagerPtr dest = std::make_shared<QPager>(engines, length, ZERO_BCI, rand_generator, ONE_CMPLX, doNormalize,
+        randGlobalPhase, false, 0, !hardware_rand_generator ? false : true, isSparse, (real1_f)amplitudeFloor,
+        deviceIDs, thresholdQubitsPerPage);
 
     Decompose(start, dest);
 
@@ -725,15 +726,35 @@ void QPager::Decompose(bitLenInt start, QPagerPtr dest)
 
     dest->CombineEngines();
 
-    bool isDecomposed = false;
-    for (QEnginePtr& qPage : qPages) {
-        if (!isDecomposed && !qPage->IsZeroAmplitude()) {
-            qPage->Decompose(start, dest->qPages[0U]);
-            dest->qPages[0U]->UpdateRunningNorm();
-            dest->qPages[0U]->NormalizeState();
-            isDecomposed = true;
-        } else {
-            qPage->Dispose(start, length);
+    // Every page is proportional to the same state of the decomposed qubits. Take it from the page of greatest weight.
+    size_t heaviest = 0U;
+    real1_f heaviestNorm = -ONE_R1_F;
+    for (size_t i = 0U; i < qPages.size(); ++i) {
+        if (qPages[i]->IsZeroAmplitude()) {
+            continue;
+        }
+        qPages[i]->UpdateRunningNorm();
+        const real1_f pageNorm = (real1_f)qPages[i]->GetRunningNorm();
+        if (pageNorm > heaviestNorm) {
+            heaviest = i;
+            heaviestNorm = pageNorm;
+        }
+    }
+    const QEnginePtr destPage = dest->qPages[0U];
+    std::dynamic_pointer_cast<QEngine>(qPages[heaviest]->Clone())->Decompose(start, destPage);
+    destPage->UpdateRunningNorm();
+    destPage->NormalizeState();
+
+    // The pages must keep their relative weights and phases, so condition all of them on the same permutation.
+    std::unique_ptr<real1[]> destProbs(new real1[(size_t)dest->maxQPowerOcl]);
+    destPage->GetProbs(destProbs.get());
+    const bitCapIntOcl perm = (bitCapIntOcl)std::distance(
+        destProbs.get(), std::max_element(destProbs.get(), destProbs.get() + (size_t)dest->maxQPowerOcl));
+    const complex nrm = complex((real1)(ONE_R1 / sqrt(destProbs[perm])), ZERO_R1);
+    for (const QEnginePtr& qPage : qPages) {
+        qPage->Dispose(start, length, perm);
+        if (!qPage->IsZeroAmplitude()) {
+            qPage->Phase(nrm, nrm, 0U);
         }
     }
 
@@ -745,23 +766,11 @@ void QPager::Decompose(bitLenInt start, QPagerPtr dest)
 
 void QPager::Dispose(bitLenInt start, bitLenInt length)
 {
-    CombineEngines(length + 1U);
-
-    if ((start + length) > qubitsPerPage()) {
-        ROR(start, 0, qubitCount);
-        Dispose(0, length);
-
-        return ROL(start, 0, qubitCount);
-    }
-
-    for (const QEnginePtr& qPage : qPages) {
-        qPage->Dispose(start, length);
+    if (!length) {
+        return;
     }
 
-    SetQubitCount(qubitCount - length);
-
-    CombineEngines(thresholdQubitsPerPage);
-    SeparateEngines();
+    Decompose(start, length);
 }
 
 void QPager::Dispose(bitLenInt start, bitLenInt length, const bitCapInt& disposedPerm)
-- 
2.43.0


From c9be43f01c0a8f45182303f99dae4ef5b96e2210 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:55 +0000
Subject: [PATCH 048/104] fix: QBdt::Compose() at any start index does not
 modify shared nodes

---
 src/qbdt/tree.cpp | 66 ++++++++++++++++++++++++++++++++++++++++-------
 1 file changed, 57 insertions(+), 9 deletions(-)

diff --git a/src/qbdt/tree.cpp b/src/qbdt/tree.cpp
index bba2828..f424260 100644
--- a/src/qbdt/tree.cpp
+++ b/src/qbdt/tree.cpp
@@ -209,6 +209,58 @@ complex QBdt::GetAmplitude(const bitCapInt& perm)
     return scale;
 }
 
+// Copy "size" levels of the tree under "b," with the branches of "under" below.
+static QBdtNodeInterfacePtr AppendTree(const QBdtNodeInterfacePtr& b, const QBdtNodeInterfacePtr& under, bitLenInt size,
+    std::map<QBdtNodeInterface*, QBdtNodeInterfacePtr>& appended)
+{
+    if (IS_NODE_0(b->scale)) {
+        return b->ShallowClone();
+    }
+
+    const auto it = appended.find(b.get());
+    if (it != appended.end()) {
+        return it->second;
+    }
+
+    QBdtNodeInterfacePtr n;
+    if (!size) {
+        n = std::make_shared<QBdtNode>(b->scale, under->branches);
+    } else {
+        n = std::make_shared<QBdtNode>(b->scale);
+        n->branches[0U] = AppendTree(b->branches[0U], under, size - 1U, appended);
+        n->branches[1U] = AppendTree(b->branches[1U], under, size - 1U, appended);
+    }
+
+    return appended[b.get()] = n;
+}
+
+// Copy "depth" levels of the tree under "node," then "size" levels of the tree under "b," then the rest of "node."
+static QBdtNodeInterfacePtr InsertTree(const QBdtNodeInterfacePtr& node, const QBdtNodeInterfacePtr& b, bitLenInt depth,
+    bitLenInt size, std::map<QBdtNodeInterface*, QBdtNodeInterfacePtr>& inserted)
+{
+    if (IS_NODE_0(node->scale)) {
+        return node->ShallowClone();
+    }
+
+    const auto it = inserted.find(node.get());
+    if (it != inserted.end()) {
+        return it->second;
+    }
+
+    QBdtNodeInterfacePtr n;
+    if (!depth) {
+        std::map<QBdtNodeInterface*, QBdtNodeInterfacePtr> appended;
+        n = AppendTree(b, node, size, appended);
+        n->scale = node->scale;
+    } else {
+        n = std::make_shared<QBdtNode>(node->scale);
+        n->branches[0U] = InsertTree(node->branches[0U], b, depth - 1U, size, inserted);
+        n->branches[1U] = InsertTree(node->branches[1U], b, depth - 1U, size, inserted);
+    }
+
+    return inserted[node.get()] = n;
+}
+
 bitLenInt QBdt::Compose(QBdtPtr toCopy, bitLenInt start)
 {
     if (start > qubitCount) {
@@ -219,15 +271,11 @@ bitLenInt QBdt::Compose(QBdtPtr toCopy, bitLenInt start)
         return start;
     }
 
-#if ENABLE_QBDT_CPU_PARALLEL && ENABLE_PTHREAD
-    if (true) {
-        QBdtNodeInterfacePtr _root = root;
-        std::lock_guard<std::mutex> lock(_root->mtx);
-        root->InsertAtDepth(toCopy->root->ShallowClone(), start, toCopy->qubitCount);
-    }
-#else
-    root->InsertAtDepth(toCopy->root->ShallowClone(), start, toCopy->qubitCount);
-#endif
+    // Nodes might be shared between branches and with clones, so build new nodes instead of modifying them in-place.
+    std::map<QBdtNodeInterface*, QBdtNodeInterfacePtr> inserted;
+    const complex toCopyScale = toCopy->root->scale;
+    root = InsertTree(root, toCopy->root, start, toCopy->qubitCount, inserted);
+    root->scale *= toCopyScale;
 
     SetQubitCount(qubitCount + toCopy->qubitCount);
 
-- 
2.43.0


From 33236c0d9feb6f6cdfaa6af81847868f6e45071d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:53 +0000
Subject: [PATCH 049/104] fix: QBdtHybrid can switch to a CPU engine, and
 Decompose() returns a register of the right size

---
 include/qbdthybrid.hpp | 2 +-
 src/qbdthybrid.cpp     | 4 ++++
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/qbdthybrid.hpp b/include/qbdthybrid.hpp
index 2f95390..b1587e7 100644
--- a/include/qbdthybrid.hpp
+++ b/include/qbdthybrid.hpp
@@ -209,7 +209,7 @@ public:
         } else {
             e = std::dynamic_pointer_cast<QEngine>(engine->Decompose(start, length));
         }
-        return std::make_shared<QBdtHybrid>(q, e, engines, qubitCount, ZERO_BCI, rand_generator, phaseFactor,
+        return std::make_shared<QBdtHybrid>(q, e, engines, length, ZERO_BCI, rand_generator, phaseFactor,
             doNormalize, randGlobalPhase, useHostRam, devID, useRDRAND, isSparse, (real1_f)amplitudeFloor, deviceIDs,
             thresholdQubits, separabilityThreshold);
     }
diff --git a/src/qbdthybrid.cpp b/src/qbdthybrid.cpp
index 0c5df16..7557569 100644
--- a/src/qbdthybrid.cpp
+++ b/src/qbdthybrid.cpp
@@ -59,7 +59,11 @@ QBdtHybrid::QBdtHybrid(QBdtPtr q, QEnginePtr e, std::vector<QInterfaceEngine> en
 QInterfacePtr QBdtHybrid::MakeSimulator(bool isBdt, const bitCapInt& perm, const complex& phaseFac)
 {
     std::vector<QInterfaceEngine> e(engines);
+#if ENABLE_OPENCL || ENABLE_CUDA
     e.insert(e.begin(), isBdt ? QINTERFACE_BDT : QINTERFACE_HYBRID);
+#else
+    e.insert(e.begin(), isBdt ? QINTERFACE_BDT : QINTERFACE_CPU);
+#endif
     QInterfacePtr toRet =
         CreateQuantumInterface(e, 0U, perm, rand_generator, phaseFac, doNormalize, randGlobalPhase, useHostRam, devID,
             useRDRAND, isSparse, (real1_f)amplitudeFloor, deviceIDs, thresholdQubits, separabilityThreshold);
-- 
2.43.0


From 51fdafed33da0d083cde7370cbb861a2a014a903 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:16 +0000
Subject: [PATCH 050/104] fix: QStabilizer separates generators before
 splitting off qubits

---
 include/qstabilizer.hpp |   2 +
 src/qstabilizer.cpp     | 125 ++++++++++++++++++++++------------------
 2 files changed, 72 insertions(+), 55 deletions(-)

diff --git a/include/qstabilizer.hpp b/include/qstabilizer.hpp
index 7164e8c..133f807 100644
--- a/include/qstabilizer.hpp
+++ b/include/qstabilizer.hpp
@@ -381,6 +381,8 @@ public:
     {
         DecomposeDispose(start, length, (QStabilizerPtr) nullptr);
     }
+    bool SeparateGenerators(const bitLenInt start, const bitLenInt length);
+
     bool CanDecomposeDispose(const bitLenInt start, const bitLenInt length);
     using QInterface::Allocate;
     bitLenInt Allocate(bitLenInt start, bitLenInt length)
diff --git a/src/qstabilizer.cpp b/src/qstabilizer.cpp
index 96275a8..99540b9 100644
--- a/src/qstabilizer.cpp
+++ b/src/qstabilizer.cpp
@@ -1613,70 +1613,88 @@ QInterfacePtr QStabilizer::Decompose(bitLenInt start, bitLenInt length)
     return dest;
 }
 
-bool QStabilizer::CanDecomposeDispose(const bitLenInt start, const bitLenInt length)
+/// Choose generators such that the ones with row indices in the range act only on the range, and all others act only
+/// outside of the range. (Return "false" if the range is entangled with the rest.)
+bool QStabilizer::SeparateGenerators(const bitLenInt start, const bitLenInt length)
 {
-    if (isBadBitRange(start, length, qubitCount)) {
-        throw std::invalid_argument("QStabilizer::CanDecomposeDispose range is out-of-bounds!");
-    }
-
-    if (qubitCount == 1U) {
-        return true;
-    }
-
-    Finish();
-
-    // We want to have the maximum number of 0 cross terms possible.
-    gaussian();
-
+    // For brevity:
+    const bitLenInt n = qubitCount;
+    const bitLenInt maxLcv = n << 1U;
     const bitLenInt end = start + length;
+    bitLenInt i = n;
 
-    for (bitLenInt i = 0U; i < start; ++i) {
-        const bitLenInt i2 = i + qubitCount;
-        const BoolVector& xi = x[i];
-        const BoolVector& zi = z[i];
-        const BoolVector& xi2 = x[i2];
-        const BoolVector& zi2 = z[i2];
-        for (bitLenInt j = start; j < end; ++j) {
-            if (xi[j] || zi[j] || xi2[j] || zi2[j]) {
-                return false;
+    // Gaussian elimination on one column, in the X or the Z terms
+    const auto eliminate = [&](std::vector<BoolVector>& terms, const bitLenInt& j) {
+        for (bitLenInt k = i; k < maxLcv; ++k) {
+            if (!terms[k][j]) {
+                continue;
             }
-        }
-    }
 
-    for (bitLenInt i = end; i < qubitCount; ++i) {
-        const bitLenInt i2 = i + qubitCount;
-        const BoolVector& xi = x[i];
-        const BoolVector& zi = z[i];
-        const BoolVector& xi2 = x[i2];
-        const BoolVector& zi2 = z[i2];
-        for (bitLenInt j = start; j < end; ++j) {
-            if (xi[j] || zi[j] || xi2[j] || zi2[j]) {
-                return false;
+            rowswap(i, k);
+            rowswap(i - n, k - n);
+            for (bitLenInt k2 = n; k2 < maxLcv; ++k2) {
+                if ((k2 != i) && terms[k2][j]) {
+                    rowmult(k2, i);
+                    rowmult(i - n, k2 - n);
+                }
             }
+            ++i;
+
+            return;
         }
-    }
+    };
 
-    for (bitLenInt i = start; i < end; ++i) {
-        const bitLenInt i2 = i + qubitCount;
-        const BoolVector& xi = x[i];
-        const BoolVector& zi = z[i];
-        const BoolVector& xi2 = x[i2];
-        const BoolVector& zi2 = z[i2];
-        for (bitLenInt j = 0U; j < start; ++j) {
-            if (xi[j] || zi[j] || xi2[j] || zi2[j]) {
-                return false;
-            }
+    // After this elimination outside of the range, all remaining generators act only on the range.
+    for (bitLenInt j = 0U; j < n; ++j) {
+        if ((j < start) || (j >= end)) {
+            eliminate(x, j);
         }
-        for (bitLenInt j = end; j < qubitCount; ++j) {
-            if (xi[j] || zi[j] || xi2[j] || zi2[j]) {
-                return false;
-            }
+    }
+    for (bitLenInt j = 0U; j < n; ++j) {
+        if ((j < start) || (j >= end)) {
+            eliminate(z, j);
         }
     }
 
+    const bool isSeparable = ((i - n) == (n - length));
+
+    // If the range is separable, then this removes it from all other generators.
+    for (bitLenInt j = start; j < end; ++j) {
+        eliminate(x, j);
+    }
+    for (bitLenInt j = start; j < end; ++j) {
+        eliminate(z, j);
+    }
+
+    if (!isSeparable) {
+        return false;
+    }
+
+    // The generators of the range are last, so bring them to its row indices.
+    for (bitLenInt offset = 0U; offset <= n; offset += n) {
+        std::rotate(x.begin() + offset + start, x.begin() + offset + n - length, x.begin() + offset + n);
+        std::rotate(z.begin() + offset + start, z.begin() + offset + n - length, z.begin() + offset + n);
+        std::rotate(r.begin() + offset + start, r.begin() + offset + n - length, r.begin() + offset + n);
+    }
+
     return true;
 }
 
+bool QStabilizer::CanDecomposeDispose(const bitLenInt start, const bitLenInt length)
+{
+    if (isBadBitRange(start, length, qubitCount)) {
+        throw std::invalid_argument("QStabilizer::CanDecomposeDispose range is out-of-bounds!");
+    }
+
+    if (qubitCount == 1U) {
+        return true;
+    }
+
+    Finish();
+
+    return SeparateGenerators(start, length);
+}
+
 void QStabilizer::DecomposeDispose(const bitLenInt start, const bitLenInt length, QStabilizerPtr dest)
 {
     if (isBadBitRange(start, length, qubitCount)) {
@@ -1694,12 +1712,9 @@ void QStabilizer::DecomposeDispose(const bitLenInt start, const bitLenInt length
 
     const AmplitudeEntry ampEntry = (randGlobalPhase || dest) ? AmplitudeEntry(ZERO_BCI, ONE_CMPLX) : GetAnyAmplitude();
 
-    // We want to have the maximum number of 0 cross terms possible.
-    gaussian();
-
-    // We assume that the bits to "decompose" the representation of already have 0 cross-terms in their generators
-    // outside inter- "dest" cross terms. (Usually, we're "decomposing" the representation of a just-measured single
-    // qubit.)
+    // We assume that the bits to "decompose" are separable. (Usually, we're "decomposing" the representation of a
+    // just-measured single qubit.)
+    SeparateGenerators(start, length);
 
     const bitCapInt oMaxQMask = pow2Mask(qubitCount);
     const bitLenInt end = start + length;
-- 
2.43.0


From 12be1897cf4555a7b88f1d8b3a1e00e8693aaec1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:57 +0000
Subject: [PATCH 051/104] fix: QUnitClifford::Detach() remaps the indices of
 detached units

---
 src/qunitclifford.cpp | 67 +++++++++++++++++++++++++------------------
 1 file changed, 39 insertions(+), 28 deletions(-)

diff --git a/src/qunitclifford.cpp b/src/qunitclifford.cpp
index 03691cb..124b46d 100644
--- a/src/qunitclifford.cpp
+++ b/src/qunitclifford.cpp
@@ -222,43 +222,54 @@ void QUnitClifford::Detach(bitLenInt start, bitLenInt length, QUnitCliffordPtr d
 
     // After ordering all subunits contiguously, since the top level mapping is a contiguous array, all subunit sets are
     // also contiguous. From the lowest index bits, they are mapped simply for the length count of bits involved in the
-    // entire subunit.
-    std::map<QStabilizerPtr, bitLenInt> decomposedUnits;
+    // entire subunit. For each original unit, keep the detached unit and the (original) mapped start of its range.
+    std::map<QStabilizerPtr, std::pair<QStabilizerPtr, bitLenInt>> decomposedUnits;
     for (bitLenInt i = 0U; i < length; ++i) {
-        CliffordShard& shard = shards[start + i];
-        QStabilizerPtr unit = shard.unit;
-
-        if (decomposedUnits.find(unit) == decomposedUnits.end()) {
-            decomposedUnits[unit] = start + i;
-            bitLenInt subLen = subunits[unit];
-            bitLenInt origLen = unit->GetQubitCount();
-            if (subLen != origLen) {
-                if (dest) {
-                    QStabilizerPtr nUnit = MakeStabilizer(subLen, ZERO_BCI);
-                    shard.unit->Decompose(shard.mapped, nUnit);
-                    shard.unit = nUnit;
-                } else {
-                    shard.unit->Dispose(shard.mapped, subLen);
-                    if (!randGlobalPhase) {
-                        phaseOffset *= shard.unit->GetPhaseOffset();
-                        shard.unit->ResetPhaseOffset();
-                    }
-                }
-            }
-        } else {
-            shard.unit = shards[decomposedUnits[unit]].unit;
+        const CliffordShard& shard = shards[start + i];
+        const QStabilizerPtr unit = shard.unit;
+
+        if (decomposedUnits.find(unit) != decomposedUnits.end()) {
+            continue;
+        }
+
+        const bitLenInt subLen = subunits[unit];
+        if (subLen == unit->GetQubitCount()) {
+            decomposedUnits[unit] = std::make_pair(unit, 0U);
+            continue;
         }
 
+        QStabilizerPtr nUnit = nullptr;
         if (dest) {
-            dest->shards[i] = shard;
+            nUnit = MakeStabilizer(subLen, ZERO_BCI);
+            unit->Decompose(shard.mapped, nUnit);
+        } else {
+            unit->Dispose(shard.mapped, subLen);
+            if (!randGlobalPhase) {
+                phaseOffset *= unit->GetPhaseOffset();
+                unit->ResetPhaseOffset();
+            }
+        }
+        decomposedUnits[unit] = std::make_pair(nUnit, shard.mapped);
+    }
+
+    if (dest) {
+        dest->Dump();
+        for (bitLenInt i = 0U; i < length; ++i) {
+            const CliffordShard& shard = shards[start + i];
+            const auto& nUnit = decomposedUnits[shard.unit];
+            dest->shards[i] = CliffordShard(shard.mapped - nUnit.second, nUnit.first);
         }
     }
 
     /* Find the rest of the qubits. */
-    for (auto&& shard : shards) {
+    for (bitLenInt i = 0U; i < qubitCount; ++i) {
+        if ((i >= start) && (i < (start + length))) {
+            continue;
+        }
+        CliffordShard& shard = shards[i];
         const auto subunit = subunits.find(shard.unit);
-        if (subunit != subunits.end() &&
-            shard.mapped >= (shards[decomposedUnits[shard.unit]].mapped + subunit->second)) {
+        if ((subunit != subunits.end()) &&
+            (shard.mapped >= (decomposedUnits[shard.unit].second + subunit->second))) {
             shard.mapped -= subunit->second;
         }
     }
-- 
2.43.0


From 8b9536f1deed9a763eafa1f4860af83002a6e6db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:57 +0000
Subject: [PATCH 052/104] fix: QStabilizerHybrid splits and merges registers
 that hold ancillae

---
 include/qstabilizerhybrid.hpp |  2 ++
 src/qstabilizerhybrid.cpp     | 50 ++++++++++++++++++++++++-----------
 2 files changed, 37 insertions(+), 15 deletions(-)

diff --git a/include/qstabilizerhybrid.hpp b/include/qstabilizerhybrid.hpp
index 2f02625..95bb01a 100644
--- a/include/qstabilizerhybrid.hpp
+++ b/include/qstabilizerhybrid.hpp
@@ -88,6 +88,8 @@ protected:
     bool TrimControls(const std::vector<bitLenInt>& lControls, std::vector<bitLenInt>& output, bool anti = false);
     void CacheEigenstate(bitLenInt target);
     void FlushBuffers();
+    void SwitchToEngineIfNotSeparable(bitLenInt start, bitLenInt length);
+
     void DumpBuffers()
     {
         rdmClone = nullptr;
diff --git a/src/qstabilizerhybrid.cpp b/src/qstabilizerhybrid.cpp
index 8c92741..f74fa77 100644
--- a/src/qstabilizerhybrid.cpp
+++ b/src/qstabilizerhybrid.cpp
@@ -280,6 +280,15 @@ void QStabilizerHybrid::FlushBuffers()
     }
 }
 
+void QStabilizerHybrid::SwitchToEngineIfNotSeparable(bitLenInt start, bitLenInt length)
+{
+    // Logical qubits can be separable from each other while they are both entangled with the same (reverse T-gadget)
+    // ancillae, before post-selection.
+    if (!engine && ancillaCount && !stabilizer->CanDecomposeDispose(start, length)) {
+        SwitchToEngine();
+    }
+}
+
 bool QStabilizerHybrid::TrimControls(const std::vector<bitLenInt>& lControls, std::vector<bitLenInt>& output, bool anti)
 {
     if (engine) {
@@ -520,8 +529,9 @@ bitLenInt QStabilizerHybrid::ComposeEither(QStabilizerHybridPtr toCopy, bool wil
         toRet = willDestroy ? engine->ComposeNoClone(toCopy->engine) : engine->Compose(toCopy->engine);
     } else {
         toRet = stabilizer->Compose(toCopy->stabilizer, qubitCount);
-        stabilizer->ROR(deadAncillaCount, qubitCount + ancillaCount,
-            deadAncillaCount + toCopy->ancillaCount + toCopy->deadAncillaCount);
+        // The inserted dead ancillae come last, after all live ancillae.
+        stabilizer->ROR(toCopy->deadAncillaCount, nQubits + toCopy->ancillaCount,
+            toCopy->deadAncillaCount + ancillaCount + deadAncillaCount);
         ancillaCount += toCopy->ancillaCount;
         deadAncillaCount += toCopy->deadAncillaCount;
     }
@@ -547,16 +557,16 @@ bitLenInt QStabilizerHybrid::Compose(QStabilizerHybridPtr toCopy, bitLenInt star
     }
 
     if (!toCopy->qubitCount) {
-        return qubitCount;
+        return start;
     }
 
     if (toCopy->ancillaCount || toCopy->deadAncillaCount) {
         const bitLenInt origSize = qubitCount;
         ROL(origSize - start, 0, qubitCount);
-        const bitLenInt result = Compose(toCopy);
+        Compose(toCopy);
         ROR(origSize - start, 0, qubitCount);
 
-        return result;
+        return start;
     }
 
     const bitLenInt nQubits = qubitCount + toCopy->qubitCount;
@@ -570,10 +580,6 @@ bitLenInt QStabilizerHybrid::Compose(QStabilizerHybridPtr toCopy, bitLenInt star
         toRet = engine->Compose(toCopy->engine, start);
     } else {
         toRet = stabilizer->Compose(toCopy->stabilizer, start);
-        stabilizer->ROR(deadAncillaCount, qubitCount + ancillaCount,
-            deadAncillaCount + toCopy->ancillaCount + toCopy->deadAncillaCount);
-        ancillaCount += toCopy->ancillaCount;
-        deadAncillaCount += toCopy->deadAncillaCount;
     }
 
     // Resize the shards buffer.
@@ -609,16 +615,17 @@ void QStabilizerHybrid::Decompose(bitLenInt start, QStabilizerHybridPtr dest)
 
     const bitLenInt nQubits = qubitCount - length;
 
+    // (The previous state of the destination is overwritten.)
+    dest->SetPermutation(ZERO_BCI);
+
+    SwitchToEngineIfNotSeparable(start, length);
+
     if (engine) {
         dest->SwitchToEngine();
         engine->Decompose(start, dest->engine);
+        shards.erase(shards.begin() + start, shards.begin() + start + length);
 
-        return SetQubitCount(qubitCount - length);
-    }
-
-    if (dest->engine) {
-        dest->engine.reset();
-        dest->stabilizer = dest->MakeStabilizer(ZERO_BCI);
+        return SetQubitCount(nQubits);
     }
 
     stabilizer->Decompose(start, dest->stabilizer);
@@ -631,6 +638,8 @@ void QStabilizerHybrid::Dispose(bitLenInt start, bitLenInt length)
 {
     const bitLenInt nQubits = qubitCount - length;
 
+    SwitchToEngineIfNotSeparable(start, length);
+
     if (engine) {
         engine->Dispose(start, length);
     } else {
@@ -645,6 +654,8 @@ void QStabilizerHybrid::Dispose(bitLenInt start, bitLenInt length, const bitCapI
 {
     const bitLenInt nQubits = qubitCount - length;
 
+    SwitchToEngineIfNotSeparable(start, length);
+
     if (engine) {
         engine->Dispose(start, length, disposedPerm);
     } else {
@@ -1970,6 +1981,15 @@ real1_f QStabilizerHybrid::ApproxCompareHelper(QStabilizerHybridPtr toCompare, b
         thatClone->FlushBuffers();
     }
 
+    // (Tableaus with ancillae aren't comparable without post-selection.)
+    if (thisClone && thisClone->stabilizer && (thisClone->ancillaCount || thisClone->deadAncillaCount)) {
+        thisClone->SwitchToEngine();
+    }
+
+    if (thatClone && thatClone->stabilizer && (thatClone->ancillaCount || thatClone->deadAncillaCount)) {
+        thatClone->SwitchToEngine();
+    }
+
     if (thisClone && thisClone->stabilizer && thatClone && thatClone->stabilizer) {
         if (randGlobalPhase) {
             thisClone->stabilizer->ResetPhaseOffset();
-- 
2.43.0


From 6f6393d12ec0b1830f167318f4b9c3bec0a4f1d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:28 +0000
Subject: [PATCH 053/104] fix: QStabilizer keeps its global phase when it
 separates generators

---
 src/qstabilizer.cpp | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/src/qstabilizer.cpp b/src/qstabilizer.cpp
index 99540b9..e6fd87b 100644
--- a/src/qstabilizer.cpp
+++ b/src/qstabilizer.cpp
@@ -1692,7 +1692,16 @@ bool QStabilizer::CanDecomposeDispose(const bitLenInt start, const bitLenInt len
 
     Finish();
 
-    return SeparateGenerators(start, length);
+    if (randGlobalPhase) {
+        return SeparateGenerators(start, length);
+    }
+
+    // The phase convention of the tableau depends on the choice of generators.
+    const AmplitudeEntry ampEntry = GetAnyAmplitude();
+    const bool toRet = SeparateGenerators(start, length);
+    SetPhaseOffset(phaseOffset + std::arg(ampEntry.amplitude) - std::arg(GetAmplitude(ampEntry.permutation)));
+
+    return toRet;
 }
 
 void QStabilizer::DecomposeDispose(const bitLenInt start, const bitLenInt length, QStabilizerPtr dest)
@@ -1710,7 +1719,7 @@ void QStabilizer::DecomposeDispose(const bitLenInt start, const bitLenInt length
     }
     Finish();
 
-    const AmplitudeEntry ampEntry = (randGlobalPhase || dest) ? AmplitudeEntry(ZERO_BCI, ONE_CMPLX) : GetAnyAmplitude();
+    const AmplitudeEntry ampEntry = randGlobalPhase ? AmplitudeEntry(ZERO_BCI, ONE_CMPLX) : GetAnyAmplitude();
 
     // We assume that the bits to "decompose" are separable. (Usually, we're "decomposing" the representation of a
     // just-measured single qubit.)
@@ -1761,7 +1770,7 @@ void QStabilizer::DecomposeDispose(const bitLenInt start, const bitLenInt length
         zi.erase(zi.begin() + start, zi.begin() + end);
     }
 
-    if (randGlobalPhase || dest) {
+    if (randGlobalPhase) {
         return;
     }
 
@@ -1769,7 +1778,11 @@ void QStabilizer::DecomposeDispose(const bitLenInt start, const bitLenInt length
     const bitCapInt endMask = oMaxQMask ^ pow2Mask(start + length);
     const bitCapInt nPerm = (ampEntry.permutation & startMask) | ((ampEntry.permutation & endMask) >> length);
 
-    SetPhaseOffset(phaseOffset + std::arg(ampEntry.amplitude) - std::arg(GetAmplitude(nPerm)));
+    real1 phase = std::arg(ampEntry.amplitude) - std::arg(GetAmplitude(nPerm));
+    if (dest) {
+        phase -= std::arg(dest->GetAmplitude((ampEntry.permutation >> start) & pow2Mask(length)));
+    }
+    SetPhaseOffset(phaseOffset + phase);
 }
 
 real1_f QStabilizer::ApproxCompareHelper(QStabilizerPtr toCompare, real1_f error_tol, bool isDiscrete)
-- 
2.43.0


From 28d12a020c626797b14eca44eb270449bfdf3b7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:41 +0000
Subject: [PATCH 054/104] fix: QTensorNetwork::Allocate() drops the cached
 layer stack

---
 include/qtensornetwork.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/qtensornetwork.hpp b/include/qtensornetwork.hpp
index 61854ce..7bfad44 100644
--- a/include/qtensornetwork.hpp
+++ b/include/qtensornetwork.hpp
@@ -297,6 +297,8 @@ public:
 
         const bitLenInt movedQubits = qubitCount - start;
         SetQubitCount(qubitCount + length);
+        // (Any cached layer stack has the previous width.)
+        layerStack = nullptr;
         if (!movedQubits) {
             return start;
         }
-- 
2.43.0


From d7dcbf6d2f52d708adcc41a839005d0cecb2f352 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:04 +0000
Subject: [PATCH 055/104] fix: QUnitClifford and QUnit keep the global phase of
 separated and measured qubits

---
 src/qunit.cpp         | 12 ++++++++++--
 src/qunitclifford.cpp |  9 +++++----
 2 files changed, 15 insertions(+), 6 deletions(-)

diff --git a/src/qunit.cpp b/src/qunit.cpp
index 694c8d5..97790b9 100644
--- a/src/qunit.cpp
+++ b/src/qunit.cpp
@@ -1413,10 +1413,18 @@ bool QUnit::ForceM(bitLenInt qubit, bool res, bool doForce, bool doApply)
 
     logFidelity = log(GetUnitaryFidelity());
 
+    complex phase = GetNonunitaryPhase();
+    if (!shard.unit) {
+        // The remaining amplitude keeps its phase, like in any other simulator type.
+        const complex& amp = result ? shard.amp1 : shard.amp0;
+        if (abs(amp) > REAL1_EPSILON) {
+            phase *= amp / abs(amp);
+        }
+    }
     shard.isProbDirty = false;
     shard.isPhaseDirty = false;
-    shard.amp0 = result ? ZERO_CMPLX : GetNonunitaryPhase();
-    shard.amp1 = result ? GetNonunitaryPhase() : ZERO_CMPLX;
+    shard.amp0 = result ? ZERO_CMPLX : phase;
+    shard.amp1 = result ? phase : ZERO_CMPLX;
 
     if (shard.GetQubitCount() == 1U) {
         shard.unit = nullptr;
diff --git a/src/qunitclifford.cpp b/src/qunitclifford.cpp
index 124b46d..b0119a1 100644
--- a/src/qunitclifford.cpp
+++ b/src/qunitclifford.cpp
@@ -234,6 +234,9 @@ void QUnitClifford::Detach(bitLenInt start, bitLenInt length, QUnitCliffordPtr d
 
         const bitLenInt subLen = subunits[unit];
         if (subLen == unit->GetQubitCount()) {
+            if (!dest) {
+                CombinePhaseOffsets(unit);
+            }
             decomposedUnits[unit] = std::make_pair(unit, 0U);
             continue;
         }
@@ -244,11 +247,8 @@ void QUnitClifford::Detach(bitLenInt start, bitLenInt length, QUnitCliffordPtr d
             unit->Decompose(shard.mapped, nUnit);
         } else {
             unit->Dispose(shard.mapped, subLen);
-            if (!randGlobalPhase) {
-                phaseOffset *= unit->GetPhaseOffset();
-                unit->ResetPhaseOffset();
-            }
         }
+        CombinePhaseOffsets(unit);
         decomposedUnits[unit] = std::make_pair(nUnit, shard.mapped);
     }
 
@@ -834,6 +834,7 @@ bool QUnitClifford::TrySeparate(bitLenInt qubit)
 
     // If TrySeparate() == true, this bit can be decomposed.
     QStabilizerPtr sepUnit = std::dynamic_pointer_cast<QStabilizer>(shard.unit->Decompose(shard.mapped, 1U));
+    CombinePhaseOffsets(shard.unit);
 
     for (bitLenInt i = 0U; i < qubitCount; ++i) {
         CliffordShard& oShard = shards[i];
-- 
2.43.0


From 038005347b69fbf188e46fa36c28afe36885c695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:35 +0000
Subject: [PATCH 056/104] fix: QBdt anti-controlled gates with non-adjacent
 controls act on all branches

---
 src/qbdt/tree.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/qbdt/tree.cpp b/src/qbdt/tree.cpp
index f424260..658ac9f 100644
--- a/src/qbdt/tree.cpp
+++ b/src/qbdt/tree.cpp
@@ -658,6 +658,8 @@ void QBdt::ApplyControlledSingle(const complex* mtrx, std::vector<bitLenInt> con
         bi_or_ip(&controlMask, pow2(target - (control + 1U)));
     }
     const bitCapInt controlPerm = isAnti ? ZERO_BCI : controlMask;
+    // Indices that differ only below the last control all fail together.
+    const bitCapInt skipMask = pow2Mask(target - (controls.back() + 1U));
 
 #if ENABLE_COMPLEX_X2
     const complex2 mtrxCol1(mtrx[0U], mtrx[2U]);
@@ -669,13 +671,13 @@ void QBdt::ApplyControlledSingle(const complex* mtrx, std::vector<bitLenInt> con
 
     par_for_qbdt(qPower, target,
 #if ENABLE_COMPLEX_X2
-        [this, controlMask, controlPerm, target, &mtrxCol1, &mtrxCol2, &mtrxCol1Shuff, &mtrxCol2Shuff](
+        [this, controlMask, controlPerm, skipMask, target, &mtrxCol1, &mtrxCol2, &mtrxCol1Shuff, &mtrxCol2Shuff](
             const bitCapInt& i) {
 #else
-        [this, controlMask, controlPerm, target, mtrx](const bitCapInt& i) {
+        [this, controlMask, controlPerm, skipMask, target, mtrx](const bitCapInt& i) {
 #endif
             if (bi_compare((i & controlMask), controlPerm) != 0) {
-                return controlMask - ONE_BCI;
+                return skipMask;
             }
 
             QBdtNodeInterfacePtr leaf = root;
-- 
2.43.0


From e71efdbdd057a217ef25a6ecb1c7b5eb0bb4e120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:56 +0000
Subject: [PATCH 057/104] fix: QInterface::INCDECC carries into the carry qubit
 wherever the register starts

---
 src/qinterface/arithmetic.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qinterface/arithmetic.cpp b/src/qinterface/arithmetic.cpp
index e80f5b6..3d90894 100644
--- a/src/qinterface/arithmetic.cpp
+++ b/src/qinterface/arithmetic.cpp
@@ -68,7 +68,7 @@ void QInterface::INCDECC(const bitCapInt& toAdd, bitLenInt start, bitLenInt leng
         }
         X(start + i);
         for (bitLenInt j = 0U; j < (length - i); ++j) {
-            const bitLenInt target = start + (((i + j + 1U) == length) ? carryIndex : ((i + j + 1U) % length));
+            const bitLenInt target = ((i + j + 1U) == length) ? carryIndex : (bitLenInt)(start + i + j + 1U);
             MACInvert(
                 std::vector<bitLenInt>(bits.begin() + i, bits.begin() + i + j + 1U), ONE_CMPLX, ONE_CMPLX, target);
         }
-- 
2.43.0


From b31a407476f683d7bed48bdc563ad6469616a00b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:56 +0000
Subject: [PATCH 058/104] fix: INCC/DECC/INCSC/DECSC carry out when the addend
 plus carry is exactly 2^length

---
 src/qengine/arithmetic.cpp    | 12 ++++++++++++
 src/qinterface/arithmetic.cpp |  5 +++++
 src/qunit.cpp                 |  8 ++++++++
 3 files changed, 25 insertions(+)

diff --git a/src/qengine/arithmetic.cpp b/src/qengine/arithmetic.cpp
index 67d640d..d67c771 100644
--- a/src/qengine/arithmetic.cpp
+++ b/src/qengine/arithmetic.cpp
@@ -171,6 +171,10 @@ void QEngineCPU::INCDECC(const bitCapInt& toMod, bitLenInt inOutStart, bitLenInt
     const bitCapIntOcl toModOcl = (bitCapIntOcl)toMod & lengthMask;
 
     if (!toModOcl) {
+        if ((bitCapIntOcl)toMod & lengthPower) {
+            // Adding 2^length carries out.
+            X(carryIndex);
+        }
         return;
     }
 
@@ -274,6 +278,10 @@ void QEngineCPU::INCDECSC(const bitCapInt& toMod, bitLenInt inOutStart, bitLenIn
     const bitCapIntOcl toModOcl = (bitCapIntOcl)toMod & lengthMask;
 
     if (!toModOcl) {
+        if ((bitCapIntOcl)toMod & lengthPower) {
+            // Adding 2^length carries out.
+            X(carryIndex);
+        }
         return;
     }
 
@@ -331,6 +339,10 @@ void QEngineCPU::INCDECSC(
     const bitCapIntOcl toModOcl = (bitCapIntOcl)toMod & lengthMask;
 
     if (!toModOcl) {
+        if ((bitCapIntOcl)toMod & lengthPower) {
+            // Adding 2^length carries out.
+            X(carryIndex);
+        }
         return;
     }
 
diff --git a/src/qinterface/arithmetic.cpp b/src/qinterface/arithmetic.cpp
index 3d90894..5ccc6f2 100644
--- a/src/qinterface/arithmetic.cpp
+++ b/src/qinterface/arithmetic.cpp
@@ -73,6 +73,11 @@ void QInterface::INCDECC(const bitCapInt& toAdd, bitLenInt start, bitLenInt leng
                 std::vector<bitLenInt>(bits.begin() + i, bits.begin() + i + j + 1U), ONE_CMPLX, ONE_CMPLX, target);
         }
     }
+
+    if (bi_and_1(toAdd >> length) != 0) {
+        // Adding 2^length carries out.
+        X(carryIndex);
+    }
 }
 
 /** Add integer (without sign, with controls) */
diff --git a/src/qunit.cpp b/src/qunit.cpp
index 97790b9..deb22b7 100644
--- a/src/qunit.cpp
+++ b/src/qunit.cpp
@@ -2943,6 +2943,10 @@ void QUnit::INT(const bitCapInt& _toMod, bitLenInt start, bitLenInt length, bitL
     // Keep the bits separate, if cheap to do so:
     bitCapInt toMod = _toMod & pow2Mask(length);
     if (bi_compare_0(toMod) == 0) {
+        if (hasCarry && (bi_and_1(_toMod >> length) != 0)) {
+            // Adding 2^length carries out.
+            X(carryIndex);
+        }
         return;
     }
 
@@ -3150,6 +3154,10 @@ void QUnit::INTS(const bitCapInt& _toMod, bitLenInt start, bitLenInt length, bit
 
     bitCapInt toMod = _toMod & pow2Mask(length);
     if (bi_compare_0(toMod) == 0) {
+        if (hasCarry && (bi_and_1(_toMod >> length) != 0)) {
+            // Adding 2^length carries out.
+            X(carryIndex);
+        }
         return;
     }
 
-- 
2.43.0


From b1cf0bf488a17c0d8b9c3ca3b517cc9a24c29a90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:42 +0000
Subject: [PATCH 059/104] fix: ADC, IADC, CADC and CIADC chain their carries
 for registers of two or more qubits

---
 src/qinterface/arithmetic.cpp | 47 ++++++++---------------------------
 1 file changed, 11 insertions(+), 36 deletions(-)

diff --git a/src/qinterface/arithmetic.cpp b/src/qinterface/arithmetic.cpp
index 5ccc6f2..9fe5409 100644
--- a/src/qinterface/arithmetic.cpp
+++ b/src/qinterface/arithmetic.cpp
@@ -338,15 +338,10 @@ void QInterface::ADC(bitLenInt input1, bitLenInt input2, bitLenInt output, bitLe
         return;
     }
 
-    FullAdd(input1, input2, carry, output);
-
-    if (length == 1U) {
-        return Swap(carry, output);
-    }
-
-    // Otherwise, length > 1.
+    // The carry-in becomes the sum of the lowest bits, and each higher bit of output is, in turn, a carry.
+    Swap(carry, output);
     const bitLenInt end = length - 1U;
-    for (bitLenInt i = 1U; i < end; ++i) {
+    for (bitLenInt i = 0U; i < end; ++i) {
         FullAdd(input1 + i, input2 + i, output + i, output + i + 1U);
     }
     FullAdd(input1 + end, input2 + end, output + end, carry);
@@ -358,19 +353,12 @@ void QInterface::IADC(bitLenInt input1, bitLenInt input2, bitLenInt output, bitL
         return;
     }
 
-    if (length == 1U) {
-        Swap(carry, output);
-
-        return IFullAdd(input1, input2, carry, output);
-    }
-
-    // Otherwise, length > 1.
     const bitLenInt end = length - 1U;
     IFullAdd(input1 + end, input2 + end, output + end, carry);
-    for (bitLenInt i = (end - 1); i > 0U; i--) {
-        IFullAdd(input1 + i, input2 + i, output + i, output + i + 1U);
+    for (bitLenInt i = end; i > 0U; --i) {
+        IFullAdd(input1 + i - 1U, input2 + i - 1U, output + i - 1U, output + i);
     }
-    IFullAdd(input1, input2, carry, output);
+    Swap(carry, output);
 }
 
 void QInterface::CADC(const std::vector<bitLenInt>& controls, bitLenInt input1, bitLenInt input2, bitLenInt output,
@@ -380,15 +368,9 @@ void QInterface::CADC(const std::vector<bitLenInt>& controls, bitLenInt input1,
         return;
     }
 
-    CFullAdd(controls, input1, input2, carry, output);
-
-    if (length == 1) {
-        return CSwap(controls, carry, output);
-    }
-
-    // Otherwise, length > 1.
+    CSwap(controls, carry, output);
     const bitLenInt end = length - 1U;
-    for (bitLenInt i = 1; i < end; ++i) {
+    for (bitLenInt i = 0U; i < end; ++i) {
         CFullAdd(controls, input1 + i, input2 + i, output + i, output + i + 1U);
     }
     CFullAdd(controls, input1 + end, input2 + end, output + end, carry);
@@ -401,19 +383,12 @@ void QInterface::CIADC(const std::vector<bitLenInt>& controls, bitLenInt input1,
         return;
     }
 
-    if (length == 1U) {
-        CSwap(controls, carry, output);
-
-        return CIFullAdd(controls, input1, input2, carry, output);
-    }
-
-    // Otherwise, length > 1.
     const bitLenInt end = length - 1U;
     CIFullAdd(controls, input1 + end, input2 + end, output + end, carry);
-    for (bitLenInt i = (end - 1); i > 0U; i--) {
-        CIFullAdd(controls, input1 + i, input2 + i, output + i, output + i + 1U);
+    for (bitLenInt i = end; i > 0U; --i) {
+        CIFullAdd(controls, input1 + i - 1U, input2 + i - 1U, output + i - 1U, output + i);
     }
-    CIFullAdd(controls, input1, input2, carry, output);
+    CSwap(controls, carry, output);
 }
 
 } // namespace Qrack
-- 
2.43.0


From 0a5c0d57ad1bd462052445f53dd96c201e385418 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:42 +0000
Subject: [PATCH 060/104] fix: QInterface::INCS flips phase on overflow, as the
 engines do

---
 include/qinterface.hpp        | 15 +++++----------
 src/qinterface/arithmetic.cpp | 31 +++++++++++++++++++++++++++++++
 2 files changed, 36 insertions(+), 10 deletions(-)

diff --git a/include/qinterface.hpp b/include/qinterface.hpp
index 112be68..8273e0a 100644
--- a/include/qinterface.hpp
+++ b/include/qinterface.hpp
@@ -2189,16 +2189,11 @@ public:
         CINC(invToSub, inOutStart, length, controls);
     }
 
-    /** Add a classical integer to the register, with sign and without carry. */
-    virtual void INCS(const bitCapInt& toAdd, bitLenInt start, bitLenInt length, bitLenInt overflowIndex)
-    {
-        const bitCapInt signMask = pow2(length - 1U);
-        INC(signMask, start, length);
-        INCDECC(toAdd & ~signMask, start, length, overflowIndex);
-        if (bi_compare_0(toAdd & signMask) == 0) {
-            DEC(signMask, start, length);
-        }
-    }
+    /**
+     * Add a classical integer to the register, with sign and without carry. If the overflow qubit is set, flip phase on
+     * overflow.
+     */
+    virtual void INCS(const bitCapInt& toAdd, bitLenInt start, bitLenInt length, bitLenInt overflowIndex);
 
     /** Subtract a classical integer from the register, with sign and without carry. */
     virtual void DECS(const bitCapInt& toSub, bitLenInt start, bitLenInt length, bitLenInt overflowIndex)
diff --git a/src/qinterface/arithmetic.cpp b/src/qinterface/arithmetic.cpp
index 9fe5409..f9adcb4 100644
--- a/src/qinterface/arithmetic.cpp
+++ b/src/qinterface/arithmetic.cpp
@@ -80,6 +80,37 @@ void QInterface::INCDECC(const bitCapInt& toAdd, bitLenInt start, bitLenInt leng
     }
 }
 
+/** Add integer (with sign, without carry): if the overflow qubit is set, flip phase on overflow */
+void QInterface::INCS(const bitCapInt& toAdd, bitLenInt start, bitLenInt length, bitLenInt overflowIndex)
+{
+    if (!length) {
+        return;
+    }
+
+    INC(toAdd & pow2Mask(length), start, length);
+
+    // Addition overflowed exactly if the sign of the addend differs from the sign of the result, and the lower bits of
+    // the result are less than (for a positive addend) or not less than (for a negative addend) those of the addend.
+    const bitLenInt low = length - 1U;
+    const bool isNegative = bi_and_1(toAdd >> low) != 0U;
+    if (isNegative) {
+        MCPhase({ overflowIndex }, -ONE_CMPLX, ONE_CMPLX, start + low);
+    }
+
+    // The lower bits are less if, at the highest bit that differs, the addend has 1 and the result has 0.
+    std::vector<bitLenInt> controls{ overflowIndex, (bitLenInt)(start + low) };
+    bitCapInt perm = isNegative ? 1U : 3U;
+    for (bitLenInt i = low; i > 0U; --i) {
+        const bitLenInt target = start + i - 1U;
+        const bool isSet = bi_and_1(toAdd >> (bitLenInt)(i - 1U)) != 0U;
+        if (isSet) {
+            UCPhase(controls, -ONE_CMPLX, ONE_CMPLX, target, perm);
+            bi_or_ip(&perm, pow2(controls.size()));
+        }
+        controls.push_back(target);
+    }
+}
+
 /** Add integer (without sign, with controls) */
 void QInterface::CINC(const bitCapInt& toAdd, bitLenInt start, bitLenInt length, const std::vector<bitLenInt>& controls)
 {
-- 
2.43.0


From e560b8f192737422756dbf2efa5fbc4f6fef30ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:06 +0000
Subject: [PATCH 061/104] fix: (I/C/CI)MULModNOut reduce products for moduli
 that are not powers of two

---
 src/qinterface/arithmetic.cpp | 150 +++++++++++++---------------------
 1 file changed, 57 insertions(+), 93 deletions(-)

diff --git a/src/qinterface/arithmetic.cpp b/src/qinterface/arithmetic.cpp
index f9adcb4..40e4f5f 100644
--- a/src/qinterface/arithmetic.cpp
+++ b/src/qinterface/arithmetic.cpp
@@ -157,78 +157,71 @@ void QInterface::CINC(const bitCapInt& toAdd, bitLenInt start, bitLenInt length,
     }
 }
 
-/**
- * Multiplication modulo N by integer, (out of place)
- */
-void QInterface::MULModNOut(
-    const bitCapInt& toMul, const bitCapInt& modN, bitLenInt inStart, bitLenInt outStart, bitLenInt length)
+/// Can the sum of the partial products reach modN?
+static bool IsReductionNeeded(const bitCapInt& toMul, const bitCapInt& modN, bitLenInt length)
 {
-    const bool isPow2 = isPowerOfTwo(modN);
-    const bitLenInt oLength = isPow2 ? log2(modN) : (log2(modN) + 1U);
-    std::vector<bitLenInt> controls(1);
+    if (isPowerOfTwo(modN)) {
+        return false;
+    }
+
+    bitCapInt total = ZERO_BCI;
     for (bitLenInt i = 0U; i < length; ++i) {
-        controls[0] = inStart + i;
         bitCapInt partMul;
         bi_div_mod(toMul * pow2(i), modN, nullptr, &partMul);
-        if (bi_compare_0(partMul) == 0) {
-            continue;
+        total = total + partMul;
+        if (bi_compare(total, modN) >= 0) {
+            return true;
         }
-        CINC(partMul, outStart, oLength, controls);
     }
 
-    if (isPow2) {
-        return;
-    }
+    return false;
+}
 
-    bitCapInt diffPow;
-    bi_div_mod(pow2(length), modN, &diffPow, nullptr);
-    const bitLenInt lDiff = log2(diffPow);
-    controls[0] = inStart + length - (lDiff + 1U);
-    for (bitCapInt i = ZERO_BCI; bi_compare(i, diffPow) < 0; bi_increment(&i, 1U)) {
-        DEC(modN, inStart, length);
-        X(controls[0]);
-        CDEC(modN, outStart, oLength, controls);
-        X(controls[0]);
+/// Toggle the output by the product modulo N, for every value of the input. (This is self-inverse.)
+static void XorMulMod(QInterface* q, const bitCapInt& toMul, const bitCapInt& modN, bitLenInt inStart,
+    bitLenInt outStart, bitLenInt length, const std::vector<bitLenInt>& controls)
+{
+    const bitLenInt oLength = log2(modN) + 1U;
+    const bitLenInt controlLen = (bitLenInt)controls.size();
+    std::vector<bitLenInt> lControls(controls);
+    for (bitLenInt i = 0U; i < length; ++i) {
+        lControls.push_back(inStart + i);
     }
-    for (bitCapInt i = ZERO_BCI; bi_compare(i, diffPow) < 0; bi_increment(&i, 1U)) {
-        INC(modN, inStart, length);
+
+    const bitCapInt inPower = pow2(length);
+    bitCapInt part;
+    bi_div_mod(toMul, modN, nullptr, &part);
+    bitCapInt product = ZERO_BCI;
+    for (bitCapInt i = ONE_BCI; bi_compare(i, inPower) < 0; bi_increment(&i, 1U)) {
+        product = product + part;
+        if (bi_compare(product, modN) >= 0) {
+            product = product - modN;
+        }
+        const bitCapInt perm = (i << controlLen) | pow2Mask(controlLen);
+        for (bitLenInt j = 0U; j < oLength; ++j) {
+            if (bi_and_1(product >> j) != 0U) {
+                q->UCInvert(lControls, ONE_CMPLX, ONE_CMPLX, outStart + j, perm);
+            }
+        }
     }
 }
 
+/**
+ * Multiplication modulo N by integer, (out of place)
+ */
+void QInterface::MULModNOut(
+    const bitCapInt& toMul, const bitCapInt& modN, bitLenInt inStart, bitLenInt outStart, bitLenInt length)
+{
+    QInterface::CMULModNOut(toMul, modN, inStart, outStart, length, std::vector<bitLenInt>());
+}
+
 /**
  * Inverse of multiplication modulo N by integer, (out of place)
  */
 void QInterface::IMULModNOut(
     const bitCapInt& toMul, const bitCapInt& modN, bitLenInt inStart, bitLenInt outStart, bitLenInt length)
 {
-    const bool isPow2 = isPowerOfTwo(modN);
-    const bitLenInt oLength = isPow2 ? log2(modN) : (log2(modN) + 1U);
-    bitCapInt diffPow;
-    bi_div_mod(pow2(length), modN, &diffPow, nullptr);
-    const bitLenInt lDiff = log2(diffPow);
-    std::vector<bitLenInt> controls{ (bitLenInt)(inStart + length - (lDiff + 1U)) };
-
-    if (!isPow2) {
-        for (bitCapInt i = ZERO_BCI; bi_compare(i, diffPow) < 0; bi_increment(&i, 1U)) {
-            DEC(modN, inStart, length);
-        }
-        for (bitCapInt i = ZERO_BCI; bi_compare(i, diffPow) < 0; bi_increment(&i, 1U)) {
-            X(controls[0]);
-            CINC(modN, outStart, oLength, controls);
-            X(controls[0]);
-            INC(modN, inStart, length);
-        }
-    }
-
-    for (bitLenInt i = 0U; i < length; ++i) {
-        controls[0] = inStart + i;
-        bitCapInt partMul;
-        bi_div_mod(toMul * pow2(i), modN, nullptr, &partMul);
-        if (bi_compare_0(partMul) == 0) {
-            continue;
-        }
-        CDEC(partMul, outStart, oLength, controls);
-    }
+    QInterface::CIMULModNOut(toMul, modN, inStart, outStart, length, std::vector<bitLenInt>());
 }
 
 /**
@@ -237,8 +230,11 @@ void QInterface::IMULModNOut(
 void QInterface::CMULModNOut(const bitCapInt& toMul, const bitCapInt& modN, bitLenInt inStart, bitLenInt outStart,
     bitLenInt length, const std::vector<bitLenInt>& controls)
 {
-    const bool isPow2 = isPowerOfTwo(modN);
-    const bitLenInt oLength = isPow2 ? log2(modN) : (log2(modN) + 1U);
+    if (IsReductionNeeded(toMul, modN, length)) {
+        return XorMulMod(this, toMul, modN, inStart, outStart, length, controls);
+    }
+
+    const bitLenInt oLength = isPowerOfTwo(modN) ? log2(modN) : (log2(modN) + 1U);
     std::vector<bitLenInt> lControls(controls.size() + 1U);
     std::copy(controls.begin(), controls.end(), lControls.begin());
     for (bitLenInt i = 0U; i < length; ++i) {
@@ -250,24 +246,6 @@ void QInterface::CMULModNOut(const bitCapInt& toMul, const bitCapInt& modN, bitL
         }
         CINC(partMul, outStart, oLength, lControls);
     }
-
-    if (isPow2) {
-        return;
-    }
-
-    bitCapInt diffPow;
-    bi_div_mod(pow2(length), modN, &diffPow, nullptr);
-    const bitLenInt lDiff = log2(diffPow);
-    lControls[controls.size()] = inStart + length - (lDiff + 1U);
-    for (bitCapInt i = ZERO_BCI; bi_compare(i, diffPow) < 0; bi_increment(&i, 1U)) {
-        CDEC(modN, inStart, length, controls);
-        X(lControls[controls.size()]);
-        CDEC(modN, outStart, oLength, lControls);
-        X(lControls[controls.size()]);
-    }
-    for (bitCapInt i = ZERO_BCI; bi_compare(i, diffPow) < 0; bi_increment(&i, 1U)) {
-        CINC(modN, inStart, length, controls);
-    }
 }
 
 /**
@@ -276,27 +254,13 @@ void QInterface::CMULModNOut(const bitCapInt& toMul, const bitCapInt& modN, bitL
 void QInterface::CIMULModNOut(const bitCapInt& toMul, const bitCapInt& modN, bitLenInt inStart, bitLenInt outStart,
     bitLenInt length, const std::vector<bitLenInt>& controls)
 {
-    const bool isPow2 = isPowerOfTwo(modN);
-    const bitLenInt oLength = isPow2 ? log2(modN) : (log2(modN) + 1U);
-    std::vector<bitLenInt> lControls(controls.size() + 1U);
-    std::copy(controls.begin(), controls.end(), lControls.begin());
-    bitCapInt diffPow;
-    bi_div_mod(pow2(length), modN, &diffPow, nullptr);
-    const bitLenInt lDiff = log2(diffPow);
-    lControls[controls.size()] = inStart + length - (lDiff + 1U);
-
-    if (!isPow2) {
-        for (bitCapInt i = ZERO_BCI; bi_compare(i, diffPow) < 0; bi_increment(&i, 1U)) {
-            CDEC(modN, inStart, length, controls);
-        }
-        for (bitCapInt i = ZERO_BCI; bi_compare(i, diffPow) < 0; bi_increment(&i, 1U)) {
-            X(lControls[controls.size()]);
-            CINC(modN, outStart, oLength, lControls);
-            X(lControls[controls.size()]);
-            CINC(modN, inStart, length, controls);
-        }
+    if (IsReductionNeeded(toMul, modN, length)) {
+        return XorMulMod(this, toMul, modN, inStart, outStart, length, controls);
     }
 
+    const bitLenInt oLength = isPowerOfTwo(modN) ? log2(modN) : (log2(modN) + 1U);
+    std::vector<bitLenInt> lControls(controls.size() + 1U);
+    std::copy(controls.begin(), controls.end(), lControls.begin());
     for (bitLenInt i = 0U; i < length; ++i) {
         lControls[controls.size()] = inStart + i;
         bitCapInt partMul;
-- 
2.43.0


From aabbf06ce968f2661a2722c9dcce0bac4fbe283a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:27 +0000
Subject: [PATCH 062/104] fix: QUnit arithmetic marks cached amplitudes stale
 only after leaving the buffered basis, and keeps control indices

---
 src/qunit.cpp | 44 +++++++++++++++++++++++---------------------
 1 file changed, 23 insertions(+), 21 deletions(-)

diff --git a/src/qunit.cpp b/src/qunit.cpp
index deb22b7..7c5696e 100644
--- a/src/qunit.cpp
+++ b/src/qunit.cpp
@@ -2828,12 +2828,13 @@ void QUnit::INCx(INCxFn fn, const bitCapInt& toMod, bitLenInt start, bitLenInt l
         throw std::invalid_argument("QUnit::INCx flagIndex parameter must be within allocated qubit bounds!");
     }
 
+    EntangleRange(start, length);
+    QInterfacePtr unit = Entangle({ start, flagIndex });
+
     DirtyShardRange(start, length);
     DirtyShardRangePhase(start, length);
     shards[flagIndex].MakeDirty();
 
-    EntangleRange(start, length);
-    QInterfacePtr unit = Entangle({ start, flagIndex });
     ((*std::dynamic_pointer_cast<QAlu>(unit)).*fn)(toMod, shards[start].mapped, length, shards[flagIndex].mapped);
 }
 
@@ -2853,14 +2854,14 @@ void QUnit::INCxx(
     }
 
     // Make sure the flag bits are entangled in the same QU.
+    EntangleRange(start, length);
+    QInterfacePtr unit = Entangle({ start, flag1Index, flag2Index });
+
     DirtyShardRange(start, length);
     DirtyShardRangePhase(start, length);
     shards[flag1Index].MakeDirty();
     shards[flag2Index].MakeDirty();
 
-    EntangleRange(start, length);
-    QInterfacePtr unit = Entangle({ start, flag1Index, flag2Index });
-
     ((*std::dynamic_pointer_cast<QAlu>(unit)).*fn)(
         toMod, shards[start].mapped, length, shards[flag1Index].mapped, shards[flag2Index].mapped);
 }
@@ -2961,11 +2962,6 @@ void QUnit::INT(const bitCapInt& _toMod, bitLenInt start, bitLenInt length, bitL
     std::copy(controls.begin(), controls.end(), allBits.begin());
     std::sort(allBits.begin(), allBits.begin() + controlLen);
 
-    std::vector<bitLenInt*> ebits(allBits.size());
-    for (size_t i = 0; i < ebits.size(); ++i) {
-        ebits[i] = &allBits[i];
-    }
-
     // Try ripple addition, to avoid entanglement.
     const bitLenInt origLength = length;
     bool carry = false;
@@ -3041,18 +3037,19 @@ void QUnit::INT(const bitCapInt& _toMod, bitLenInt start, bitLenInt length, bitL
 
                 // If toAdd == inReg, this prevents superposition of the carry-out. The carry out of the truth table
                 // is independent of the superposed output value of the quantum bit.
-                DirtyShardRange(start, partLength);
                 EntangleRange(start, partLength);
                 if (controlLen) {
                     allBits[controlLen] = start;
+                    QInterfacePtr unit = Entangle(allBits);
+                    DirtyShardRange(start, partLength);
                     DirtyShardIndexVector(allBits);
-                    QInterfacePtr unit = Entangle(ebits);
                     std::vector<bitLenInt> lControls(controlLen);
                     for (bitLenInt cIndex = 0U; cIndex < controlLen; ++cIndex) {
                         lControls[cIndex] = shards[controls[cIndex]].mapped;
                     }
                     unit->CINC(partMod, shards[start].mapped, partLength, lControls);
                 } else {
+                    DirtyShardRange(start, partLength);
                     shards[start].unit->INC(partMod, shards[start].mapped, partLength);
                 }
 
@@ -3084,25 +3081,26 @@ void QUnit::INT(const bitCapInt& _toMod, bitLenInt start, bitLenInt length, bitL
             // implement, once the QEngine methods were in place.
             throw std::logic_error("ERROR: Controlled-with-carry arithmetic is not implemented!");
         } else {
-            DirtyShardRange(start, length);
-            shards[carryIndex].MakeDirty();
             EntangleRange(start, length);
             QInterfacePtr unit = Entangle({ start, carryIndex });
+            DirtyShardRange(start, length);
+            shards[carryIndex].MakeDirty();
             unit->INCC(toMod, shards[start].mapped, length, shards[carryIndex].mapped);
         }
     } else {
-        DirtyShardRange(start, length);
         EntangleRange(start, length);
         if (controlLen) {
             allBits[controlLen] = start;
+            QInterfacePtr unit = Entangle(allBits);
+            DirtyShardRange(start, length);
             DirtyShardIndexVector(allBits);
-            QInterfacePtr unit = Entangle(ebits);
             std::vector<bitLenInt> lControls(controlLen);
             for (bitLenInt cIndex = 0U; cIndex < controlLen; ++cIndex) {
                 lControls[cIndex] = shards[controls[cIndex]].mapped;
             }
             unit->CINC(toMod, shards[start].mapped, length, lControls);
         } else {
+            DirtyShardRange(start, length);
             shards[start].unit->INC(toMod, shards[start].mapped, length);
         }
     }
@@ -3345,8 +3343,6 @@ void QUnit::POWModNOut(
 QInterfacePtr QUnit::CMULEntangle(std::vector<bitLenInt> controlVec, bitLenInt start, bitLenInt carryStart,
     bitLenInt length, std::vector<bitLenInt>* controlsMapped)
 {
-    DirtyShardRangePhase(start, length);
-    DirtyShardRange(carryStart, length);
     EntangleRange(start, length);
     EntangleRange(carryStart, length);
 
@@ -3365,6 +3361,9 @@ QInterfacePtr QUnit::CMULEntangle(std::vector<bitLenInt> controlVec, bitLenInt s
 
     QInterfacePtr unit = Entangle(ebits);
 
+    DirtyShardRangePhase(start, length);
+    DirtyShardRange(carryStart, length);
+
     if (controlVec.size()) {
         controlsMapped->resize(controlVec.size());
         for (size_t i = 0U; i < controlVec.size(); ++i) {
@@ -3709,11 +3708,14 @@ void QUnit::CPhaseFlipIfLess(const bitCapInt& greaterPerm, bitLenInt start, bitL
         return;
     }
 
+    EntangleRange(start, length);
+    QInterfacePtr unit = Entangle({ start, flagIndex });
+
     DirtyShardRange(start, length);
     shards[flagIndex].isPhaseDirty = true;
-    EntangleRange(start, length);
-    std::dynamic_pointer_cast<QAlu>(Entangle({ start, flagIndex }))
-        ->CPhaseFlipIfLess(greaterPerm, shards[start].mapped, length, shards[flagIndex].mapped);
+
+    std::dynamic_pointer_cast<QAlu>(unit)->CPhaseFlipIfLess(
+        greaterPerm, shards[start].mapped, length, shards[flagIndex].mapped);
 }
 #endif
 
-- 
2.43.0


From 395ede48c42dffee4aa40795b1a0c2cef544ebaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:05 +0000
Subject: [PATCH 063/104] fix: QEngineCPU::IndexedSBC skips only the carry
 qubit

---
 src/qengine/arithmetic.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qengine/arithmetic.cpp b/src/qengine/arithmetic.cpp
index d67c771..134d01a 100644
--- a/src/qengine/arithmetic.cpp
+++ b/src/qengine/arithmetic.cpp
@@ -1134,7 +1134,7 @@ bitCapInt QEngineCPU::IndexedSBC(bitLenInt indexStart, bitLenInt indexLength, bi
     const bitCapIntOcl otherMask = (maxQPowerOcl - 1U) & (~(inputMask | outputMask | carryMask));
     const bitCapIntOcl skipPower = pow2Ocl(carryIndex);
 
-    par_for_skip(0, maxQPowerOcl, skipPower, valueLength, [&](const bitCapIntOcl& lcv, const unsigned& cpu) {
+    par_for_skip(0, maxQPowerOcl, skipPower, 1, [&](const bitCapIntOcl& lcv, const unsigned& cpu) {
         // These are qubits that are not directly involved in the
         // operation. We iterate over all of their possibilities, but their
         // input value matches their output value:
-- 
2.43.0


From 3bfefefa58367302dce277a3384428d71eb08d50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:34 +0000
Subject: [PATCH 064/104] fix: POWModNOut and CPOWModNOut reduce while they
 raise to the power

---
 include/common/qrack_functions.hpp |  2 ++
 src/common/functions.cpp           | 31 ++++++++++++++++++++++++++++++
 src/qengine/arithmetic.cpp         | 12 +++++++-----
 src/qunit.cpp                      |  6 ++----
 4 files changed, 42 insertions(+), 9 deletions(-)

diff --git a/include/common/qrack_functions.hpp b/include/common/qrack_functions.hpp
index dac76b7..0eda1e6 100644
--- a/include/common/qrack_functions.hpp
+++ b/include/common/qrack_functions.hpp
@@ -206,6 +206,8 @@ bool isOverflowSub(
 bitCapInt pushApartBits(const bitCapInt& perm, const std::vector<bitCapInt>& skipPowers);
 bitCapInt intPow(const bitCapInt& base, const bitCapInt& power);
 bitCapIntOcl intPowOcl(bitCapIntOcl base, bitCapIntOcl power);
+bitCapInt intPowMod(const bitCapInt& base, const bitCapInt& power, const bitCapInt& modN);
+bitCapIntOcl intPowModOcl(bitCapIntOcl base, bitCapIntOcl power, bitCapIntOcl modN);
 
 #if QBCAPPOW > 6
 std::ostream& operator<<(std::ostream& os, const bitCapInt& b);
diff --git a/src/common/functions.cpp b/src/common/functions.cpp
index 217cefa..3c49e74 100644
--- a/src/common/functions.cpp
+++ b/src/common/functions.cpp
@@ -93,6 +93,37 @@ bitCapIntOcl intPowOcl(bitCapIntOcl base, bitCapIntOcl power)
     return tmp;
 }
 
+bitCapInt intPowMod(const bitCapInt& base, const bitCapInt& power, const bitCapInt& modN)
+{
+    bitCapInt toRet, factor, p = power;
+    bi_div_mod(ONE_BCI, modN, nullptr, &toRet);
+    bi_div_mod(base, modN, nullptr, &factor);
+    while (bi_compare_0(p) != 0) {
+        if (bi_and_1(p)) {
+            bi_div_mod(toRet * factor, modN, nullptr, &toRet);
+        }
+        bi_div_mod(factor * factor, modN, nullptr, &factor);
+        bi_rshift_ip(&p, 1U);
+    }
+
+    return toRet;
+}
+
+bitCapIntOcl intPowModOcl(bitCapIntOcl base, bitCapIntOcl power, bitCapIntOcl modN)
+{
+    bitCapIntOcl toRet = 1U % modN;
+    base %= modN;
+    while (power) {
+        if (power & 1U) {
+            toRet = (toRet * base) % modN;
+        }
+        base = (base * base) % modN;
+        power >>= 1U;
+    }
+
+    return toRet;
+}
+
 #if ENABLE_COMPLEX_X2
 void mul2x2(const complex* left, const complex* right, complex* out)
 {
diff --git a/src/qengine/arithmetic.cpp b/src/qengine/arithmetic.cpp
index 134d01a..8251a1a 100644
--- a/src/qengine/arithmetic.cpp
+++ b/src/qengine/arithmetic.cpp
@@ -615,12 +615,13 @@ void QEngineCPU::POWModNOut(
     const bitCapInt& toMod, const bitCapInt& modN, bitLenInt inStart, bitLenInt outStart, bitLenInt length)
 {
     if (bi_compare_1(toMod) == 0) {
-        return SetReg(outStart, length, ONE_BCI);
+        return SetReg(outStart, length, (bi_compare_1(modN) == 0) ? ZERO_BCI : ONE_BCI);
     }
 
     const bitCapIntOcl toModOcl = (bitCapIntOcl)toMod;
-    ModNOut(
-        [&toModOcl](const bitCapIntOcl& inInt) { return intPowOcl(toModOcl, inInt); }, modN, inStart, outStart, length);
+    const bitCapIntOcl modNOcl = (bitCapIntOcl)modN;
+    ModNOut([&toModOcl, &modNOcl](const bitCapIntOcl& inInt) { return intPowModOcl(toModOcl, inInt, modNOcl); }, modN,
+        inStart, outStart, length);
 }
 
 void QEngineCPU::CModNOut(const MFn& kernelFn, const bitCapInt& modN, const bitLenInt& inStart,
@@ -724,8 +725,9 @@ void QEngineCPU::CPOWModNOut(const bitCapInt& toMod, const bitCapInt& modN, bitL
     }
 
     const bitCapIntOcl toModOcl = (bitCapIntOcl)toMod;
-    CModNOut([&toModOcl](const bitCapIntOcl& inInt) { return intPowOcl(toModOcl, inInt); }, modN, inStart, outStart,
-        length, controls);
+    const bitCapIntOcl modNOcl = (bitCapIntOcl)modN;
+    CModNOut([&toModOcl, &modNOcl](const bitCapIntOcl& inInt) { return intPowModOcl(toModOcl, inInt, modNOcl); }, modN,
+        inStart, outStart, length, controls);
 }
 
 #if ENABLE_BCD
diff --git a/src/qunit.cpp b/src/qunit.cpp
index 7c5696e..6416eaf 100644
--- a/src/qunit.cpp
+++ b/src/qunit.cpp
@@ -3321,14 +3321,12 @@ void QUnit::POWModNOut(
     }
 
     if (bi_compare_1(toMod) == 0) {
-        return SetReg(outStart, length, ONE_BCI);
+        return SetReg(outStart, length, (bi_compare_1(modN) == 0) ? ZERO_BCI : ONE_BCI);
     }
 
     // Keep the bits separate, if cheap to do so:
     if (CheckBitsPermutation(inStart, length)) {
-        bitCapInt res;
-        bi_div_mod(intPow(toMod, GetCachedPermutation(inStart, length)), modN, nullptr, &res);
-        return SetReg(outStart, length, res);
+        return SetReg(outStart, length, intPowMod(toMod, GetCachedPermutation(inStart, length), modN));
     }
 
     SetReg(outStart, length, ZERO_BCI);
-- 
2.43.0


From fef7f5823a30ca73d740368fe266fe7568c9cb94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:39 +0000
Subject: [PATCH 065/104] fix: QPager combines its pages for operations that
 clear output registers by measurement

---
 src/qpager.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/qpager.cpp b/src/qpager.cpp
index 421afc0..af0ff22 100644
--- a/src/qpager.cpp
+++ b/src/qpager.cpp
@@ -1175,6 +1175,8 @@ void QPager::INCDECBCDC(const bitCapInt& toAdd, bitLenInt start, bitLenInt lengt
 #endif
 void QPager::MUL(const bitCapInt& toMul, bitLenInt inOutStart, bitLenInt carryStart, bitLenInt length)
 {
+    // The engine clears output by measurement, which cannot be done page by page.
+    CombineEngines();
     CombineAndOp([&](QEnginePtr engine) { engine->MUL(toMul, inOutStart, carryStart, length); },
         { static_cast<bitLenInt>(inOutStart + length - 1U), static_cast<bitLenInt>(carryStart + length - 1U) });
 }
@@ -1186,6 +1188,8 @@ void QPager::DIV(const bitCapInt& toDiv, bitLenInt inOutStart, bitLenInt carrySt
 void QPager::MULModNOut(
     const bitCapInt& toMul, const bitCapInt& modN, bitLenInt inStart, bitLenInt outStart, bitLenInt length)
 {
+    // The engine clears output by measurement, which cannot be done page by page.
+    CombineEngines();
     CombineAndOp([&](QEnginePtr engine) { engine->MULModNOut(toMul, modN, inStart, outStart, length); },
         { static_cast<bitLenInt>(inStart + length - 1U), static_cast<bitLenInt>(outStart + length - 1U) });
 }
@@ -1198,6 +1202,8 @@ void QPager::IMULModNOut(
 void QPager::POWModNOut(
     const bitCapInt& base, const bitCapInt& modN, bitLenInt inStart, bitLenInt outStart, bitLenInt length)
 {
+    // The engine clears output by measurement, which cannot be done page by page.
+    CombineEngines();
     CombineAndOp([&](QEnginePtr engine) { engine->POWModNOut(base, modN, inStart, outStart, length); },
         { static_cast<bitLenInt>(inStart + length - 1U), static_cast<bitLenInt>(outStart + length - 1U) });
 }
@@ -1208,6 +1214,8 @@ void QPager::CMUL(const bitCapInt& toMul, bitLenInt inOutStart, bitLenInt carryS
         return MUL(toMul, inOutStart, carryStart, length);
     }
 
+    // The engine clears output by measurement, which cannot be done page by page.
+    CombineEngines();
     CombineAndOpControlled([&](QEnginePtr engine) { engine->CMUL(toMul, inOutStart, carryStart, length, controls); },
         { static_cast<bitLenInt>(inOutStart + length - 1U), static_cast<bitLenInt>(carryStart + length - 1U) },
         controls);
@@ -1230,6 +1238,8 @@ void QPager::CMULModNOut(const bitCapInt& toMul, const bitCapInt& modN, bitLenIn
         return MULModNOut(toMul, modN, inStart, outStart, length);
     }
 
+    // The engine clears output by measurement, which cannot be done page by page.
+    CombineEngines();
     CombineAndOpControlled(
         [&](QEnginePtr engine) { engine->CMULModNOut(toMul, modN, inStart, outStart, length, controls); },
         { static_cast<bitLenInt>(inStart + length - 1U), static_cast<bitLenInt>(outStart + length - 1U) }, controls);
-- 
2.43.0


From 953659857244273d3778897cdd3ba54aa24acd4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:26 +0000
Subject: [PATCH 066/104] fix: QUnit::SeparateBit() keeps the basis of the last
 qubit of a unit

---
 src/qunit.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qunit.cpp b/src/qunit.cpp
index 6416eaf..6ebe776 100644
--- a/src/qunit.cpp
+++ b/src/qunit.cpp
@@ -1371,7 +1371,7 @@ bool QUnit::SeparateBit(bool value, bitLenInt qubit)
     for (bitLenInt partnerIndex = 0U; partnerIndex < qubitCount; ++partnerIndex) {
         QEngineShard& partnerShard = shards[partnerIndex];
         if (unit == partnerShard.unit) {
-            ProbBase(partnerIndex, false);
+            ProbBase(partnerIndex);
             break;
         }
     }
-- 
2.43.0


From 4f2bb5e01e398d7a973ff327042c88581bf39a69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:08 +0000
Subject: [PATCH 067/104] fix: QStabilizerHybrid and QPager clones keep the
 T-injection, rounding and fidelity settings

---
 src/qpager.cpp            | 4 ++++
 src/qstabilizerhybrid.cpp | 6 ++++++
 2 files changed, 10 insertions(+)

diff --git a/src/qpager.cpp b/src/qpager.cpp
index af0ff22..62f655d 100644
--- a/src/qpager.cpp
+++ b/src/qpager.cpp
@@ -64,6 +64,7 @@ QPager::QPager(QEnginePtr enginePtr, std::vector<QInterfaceEngine> eng, bitLenIn
     bitLenInt qubitThreshold, real1_f sep_thresh)
     : QEngine(qBitCount, rgp, false, false, useHostMem, useHardwareRNG, norm_thresh)
     , isSparse(useSparseStateVec)
+    , useTGadget(true)
     , maxPageSetting(-1)
     , maxPageQubits(-1)
     , thresholdQubitsPerPage(qubitThreshold)
@@ -1578,6 +1579,7 @@ QInterfacePtr QPager::Clone()
     QPagerPtr clone = std::make_shared<QPager>(engines, qubitCount, ZERO_BCI, rand_generator, ONE_CMPLX, doNormalize,
         randGlobalPhase, false, 0, !hardware_rand_generator ? false : true, isSparse, (real1_f)amplitudeFloor,
         deviceIDs, thresholdQubitsPerPage);
+    clone->SetTInjection(useTGadget);
     for (bitCapIntOcl i = 0U; i < qPages.size(); ++i) {
         clone->qPages[i] = std::dynamic_pointer_cast<QEngine>(qPages[i]->Clone());
     }
@@ -1590,6 +1592,7 @@ QEnginePtr QPager::CloneEmpty()
     QPagerPtr clone = std::make_shared<QPager>(engines, qubitCount, ZERO_BCI, rand_generator, ONE_CMPLX, doNormalize,
         randGlobalPhase, false, 0, !hardware_rand_generator ? false : true, isSparse, (real1_f)amplitudeFloor,
         deviceIDs, thresholdQubitsPerPage);
+    clone->SetTInjection(useTGadget);
     for (bitCapIntOcl i = 0U; i < qPages.size(); ++i) {
         clone->qPages[i] = qPages[i]->CloneEmpty();
     }
@@ -1602,6 +1605,7 @@ QInterfacePtr QPager::Copy()
     QPagerPtr clone = std::make_shared<QPager>(engines, qubitCount, ZERO_BCI, rand_generator, ONE_CMPLX, doNormalize,
         randGlobalPhase, false, 0, !hardware_rand_generator ? false : true, isSparse, (real1_f)amplitudeFloor,
         deviceIDs, thresholdQubitsPerPage);
+    clone->SetTInjection(useTGadget);
     for (bitCapIntOcl i = 0U; i < qPages.size(); ++i) {
         clone->qPages[i] = std::dynamic_pointer_cast<QEngine>(qPages[i]->Copy());
     }
diff --git a/src/qstabilizerhybrid.cpp b/src/qstabilizerhybrid.cpp
index f74fa77..d913e80 100644
--- a/src/qstabilizerhybrid.cpp
+++ b/src/qstabilizerhybrid.cpp
@@ -377,6 +377,12 @@ QInterfacePtr QStabilizerHybrid::CloneBody(bool isCopy)
         phaseFactor, doNormalize, randGlobalPhase, useHostRam, devID, useRDRAND, false, (real1_f)amplitudeFloor,
         std::vector<int64_t>{}, thresholdQubits, separabilityThreshold);
 
+    c->useTGadget = useTGadget;
+    c->isRoundingFlushed = isRoundingFlushed;
+    c->roundingThreshold = roundingThreshold;
+    c->maxAncillaCount = maxAncillaCount;
+    c->logFidelity = logFidelity;
+
     if (engine) {
         // Clone and set engine directly.
         c->engine = isCopy ? engine->Copy() : engine->Clone();
-- 
2.43.0


From ca8662395790dc2a162c834e4544596241cb8ba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:52 +0000
Subject: [PATCH 068/104] fix: QCircuit serialization keeps control
 permutations of more than 64 bits, and reading a gate replaces its controls

---
 src/common/functions.cpp | 2 +-
 src/qcircuit.cpp         | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/common/functions.cpp b/src/common/functions.cpp
index 3c49e74..7077b44 100644
--- a/src/common/functions.cpp
+++ b/src/common/functions.cpp
@@ -319,7 +319,7 @@ std::ostream& operator<<(std::ostream& os, const bitCapInt& b)
     // Calculate the base-10 digits, from lowest to highest.
     std::vector<std::string> digits;
     bitCapInt _b = b;
-    while (bi_compare_0(b) != 0) {
+    while (bi_compare_0(_b) != 0) {
         bitCapInt quo;
 #ifdef __SIZEOF_INT128__
         uint64_t rem;
diff --git a/src/qcircuit.cpp b/src/qcircuit.cpp
index 65c619a..0b7962f 100644
--- a/src/qcircuit.cpp
+++ b/src/qcircuit.cpp
@@ -25,7 +25,7 @@ std::ostream& operator<<(std::ostream& os, const QCircuitGatePtr g)
 
     os << g->payloads.size() << " ";
     for (const auto& p : g->payloads) {
-        os << (size_t)p.first << " ";
+        os << p.first << " ";
         const complex* mtrx = p.second.get();
         for (size_t i = 0U; i < 4U; ++i) {
             os << mtrx[i] << " ";
@@ -38,6 +38,7 @@ std::ostream& operator<<(std::ostream& os, const QCircuitGatePtr g)
 std::istream& operator>>(std::istream& is, QCircuitGatePtr& g)
 {
     g->payloads.clear();
+    g->controls.clear();
 
     size_t target;
     is >> target;
-- 
2.43.0


From 44f2b6706903e84bd8a98693ffbdbbb23d82b33a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:51 +0000
Subject: [PATCH 069/104] fix: QCircuit::AppendGate() keeps Swap gate objects,
 and counts qubits of circuits that are not collapsed

---
 src/qcircuit.cpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/qcircuit.cpp b/src/qcircuit.cpp
index 0b7962f..ac231b0 100644
--- a/src/qcircuit.cpp
+++ b/src/qcircuit.cpp
@@ -101,13 +101,14 @@ std::istream& operator>>(std::istream& is, QCircuitPtr& c)
 
 bool QCircuit::AppendGate(QCircuitGatePtr nGate)
 {
-    if (!isCollapsed) {
-        gates.push_back(nGate);
+    if (nGate->payloads.empty()) {
+        // This is a `Swap` gate object.
+        Swap(nGate->target, *(nGate->controls.begin()));
 
         return false;
     }
 
-    if (nGate->IsIdentity()) {
+    if (isCollapsed && nGate->IsIdentity()) {
         return true;
     }
 
@@ -121,6 +122,12 @@ bool QCircuit::AppendGate(QCircuitGatePtr nGate)
         }
     }
 
+    if (!isCollapsed) {
+        gates.push_back(nGate);
+
+        return false;
+    }
+
     std::set<bitLenInt> nQubits(nGate->controls);
     nQubits.insert(nGate->target);
     bool didCommute = false;
-- 
2.43.0


From 0d0c752da8fb9e3d9862142c2c61da8867de186c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:51 +0000
Subject: [PATCH 070/104] fix: QCircuit does not share gate objects with its
 arguments

---
 include/qcircuit.hpp | 10 +++++++---
 src/qcircuit.cpp     |  3 +++
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/include/qcircuit.hpp b/include/qcircuit.hpp
index 60a2d10..19326ba 100644
--- a/include/qcircuit.hpp
+++ b/include/qcircuit.hpp
@@ -733,7 +733,10 @@ public:
         if (circuit->qubitCount > qubitCount) {
             qubitCount = circuit->qubitCount;
         }
-        gates.insert(gates.end(), circuit->gates.begin(), circuit->gates.end());
+        const std::list<QCircuitGatePtr> nGates = circuit->gates;
+        for (const QCircuitGatePtr& gate : nGates) {
+            gates.push_back(gate->Clone());
+        }
     }
 
     /**
@@ -745,8 +748,9 @@ public:
         if (circuit->qubitCount > qubitCount) {
             qubitCount = circuit->qubitCount;
         }
-        for (auto gIt = circuit->gates.begin(); gIt != circuit->gates.end(); ++gIt) {
-            AppendGate(*gIt);
+        const std::list<QCircuitGatePtr> nGates = circuit->gates;
+        for (const QCircuitGatePtr& gate : nGates) {
+            AppendGate(gate);
         }
     }
 
diff --git a/src/qcircuit.cpp b/src/qcircuit.cpp
index ac231b0..d0f7965 100644
--- a/src/qcircuit.cpp
+++ b/src/qcircuit.cpp
@@ -112,6 +112,9 @@ bool QCircuit::AppendGate(QCircuitGatePtr nGate)
         return true;
     }
 
+    // The optimizer modifies gates in place, so the gates of this circuit cannot be shared with anyone else.
+    nGate = nGate->Clone();
+
     if ((nGate->target + 1U) > qubitCount) {
         qubitCount = nGate->target + 1U;
     }
-- 
2.43.0


From b268b313e59421a75ce915fe7b54f823b684fa00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:27 +0000
Subject: [PATCH 071/104] fix: DispatchQueue::dump() waits for an operation
 that already started; isFinished() takes the lock

---
 include/common/dispatchqueue.hpp | 10 +++++++++-
 src/common/dispatchqueue.cpp     | 14 ++++++++++++++
 2 files changed, 23 insertions(+), 1 deletion(-)

diff --git a/include/common/dispatchqueue.hpp b/include/common/dispatchqueue.hpp
index 025d6b0..f5159f7 100644
--- a/include/common/dispatchqueue.hpp
+++ b/include/common/dispatchqueue.hpp
@@ -25,6 +25,7 @@
 #include <future>
 #include <mutex>
 #include <queue>
+#include <thread>
 
 namespace Qrack {
 
@@ -36,6 +37,7 @@ public:
         : quit_(false)
         , isFinished_(true)
         , isStarted_(false)
+        , isRunning_(false)
     {
         // Intentionally left blank.
     }
@@ -48,7 +50,11 @@ public:
     // dump queue
     void dump();
     // check if queue is finished
-    bool isFinished() { return isFinished_; }
+    bool isFinished()
+    {
+        std::lock_guard<std::mutex> lock(lock_);
+        return isFinished_;
+    }
 
     // Deleted operations
     DispatchQueue(const DispatchQueue& rhs) = delete;
@@ -59,12 +65,14 @@ public:
 private:
     std::mutex lock_;
     std::future<void> thread_;
+    std::thread::id workerId_;
     std::queue<DispatchFn> q_;
     std::condition_variable cv_;
     std::condition_variable cvFinished_;
     bool quit_;
     bool isFinished_;
     bool isStarted_;
+    bool isRunning_;
 
     void dispatch_thread_handler(void);
 };
diff --git a/src/common/dispatchqueue.cpp b/src/common/dispatchqueue.cpp
index d7a8444..0d13256 100644
--- a/src/common/dispatchqueue.cpp
+++ b/src/common/dispatchqueue.cpp
@@ -58,6 +58,17 @@ void DispatchQueue::dump()
 
     std::queue<DispatchFn> empty;
     std::swap(q_, empty);
+
+    if (isRunning_) {
+        if (workerId_ == std::this_thread::get_id()) {
+            // The operation itself dumps what is queued behind it.
+            return;
+        }
+        // An operation that already started can't be dumped, so wait for it.
+        cvFinished_.wait(lock, [this] { return isFinished_ || quit_; });
+        return;
+    }
+
     isFinished_ = true;
     lock.unlock();
     cvFinished_.notify_all();
@@ -87,6 +98,7 @@ void DispatchQueue::dispatch(const DispatchFn& op)
 void DispatchQueue::dispatch_thread_handler(void)
 {
     std::unique_lock<std::mutex> lock(lock_);
+    workerId_ = std::this_thread::get_id();
 
     do {
         // Wait until we have data or a quit signal
@@ -99,6 +111,7 @@ void DispatchQueue::dispatch_thread_handler(void)
 
         const auto op = std::move(q_.front());
         q_.pop();
+        isRunning_ = true;
 
         // unlock now that we're done messing with the queue
         lock.unlock();
@@ -106,6 +119,7 @@ void DispatchQueue::dispatch_thread_handler(void)
         op();
 
         lock.lock();
+        isRunning_ = false;
 
         if (q_.empty()) {
             isFinished_ = true;
-- 
2.43.0


From 81412b30465ea92105b189ebb3dd2d17c912c27c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:27 +0000
Subject: [PATCH 072/104] fix: QEngineCPU reads runningNorm only where gates
 ahead in the queue have set it

---
 src/qengine/state.cpp | 49 ++++++++++++++++++++-----------------------
 1 file changed, 23 insertions(+), 26 deletions(-)

diff --git a/src/qengine/state.cpp b/src/qengine/state.cpp
index c1fd129..1bc1604 100644
--- a/src/qengine/state.cpp
+++ b/src/qengine/state.cpp
@@ -357,17 +357,16 @@ void QEngineCPU::Apply2x2(bitCapIntOcl offset1, bitCapIntOcl offset2, const comp
 
     const std::vector<bitCapIntOcl> qPowersSorted(qPowsSorted, qPowsSorted + bitCount);
 
-    const bool doApplyNorm = doNormalize && (bitCount == 1U) && (runningNorm > ZERO_R1);
-    doCalcNorm &= doApplyNorm || (runningNorm <= ZERO_R1);
-
-    const real1 nrm = doApplyNorm ? ONE_R1 / (real1)sqrt(runningNorm) : ONE_R1;
-
-    if (doCalcNorm) {
-        runningNorm = ONE_R1;
-    }
+    const bool isSingleBit = (bitCount == 1U);
+    const bool isCalcNorm = doCalcNorm;
 
     Dispatch(maxQPowerOcl >> bitCount,
-        [this, mtrxS, qPowersSorted, offset1, offset2, doCalcNorm, doApplyNorm, nrm, nrm_thresh] {
+        [this, mtrxS, qPowersSorted, offset1, offset2, isCalcNorm, isSingleBit, nrm_thresh] {
+            // Gates ahead in the queue set runningNorm, so read it only now.
+            const bool doApplyNorm = doNormalize && isSingleBit && (runningNorm > ZERO_R1);
+            const bool doCalcNorm = isCalcNorm && (doApplyNorm || (runningNorm <= ZERO_R1));
+            const real1 nrm = doApplyNorm ? ONE_R1 / (real1)sqrt(runningNorm) : ONE_R1;
+
             complex* mtrx = mtrxS.get();
 
             const real1_f norm_thresh = (nrm_thresh < ZERO_R1) ? amplitudeFloor : nrm_thresh;
@@ -537,17 +536,16 @@ void QEngineCPU::Apply2x2(bitCapIntOcl offset1, bitCapIntOcl offset2, const comp
 
     const std::vector<bitCapIntOcl> qPowersSorted(qPowsSorted, qPowsSorted + bitCount);
 
-    const bool doApplyNorm = doNormalize && (bitCount == 1U) && (runningNorm > ZERO_R1);
-    doCalcNorm &= doApplyNorm || (runningNorm <= ZERO_R1);
-
-    const real1 nrm = doApplyNorm ? ONE_R1 / (real1)sqrt(runningNorm) : ONE_R1;
-
-    if (doCalcNorm) {
-        runningNorm = ONE_R1;
-    }
+    const bool isSingleBit = (bitCount == 1U);
+    const bool isCalcNorm = doCalcNorm;
 
     Dispatch(maxQPowerOcl >> bitCount,
-        [this, mtrxS, qPowersSorted, offset1, offset2, doCalcNorm, doApplyNorm, nrm, nrm_thresh] {
+        [this, mtrxS, qPowersSorted, offset1, offset2, isCalcNorm, isSingleBit, nrm_thresh] {
+            // Gates ahead in the queue set runningNorm, so read it only now.
+            const bool doApplyNorm = doNormalize && isSingleBit && (runningNorm > ZERO_R1);
+            const bool doCalcNorm = isCalcNorm && (doApplyNorm || (runningNorm <= ZERO_R1));
+            const real1 nrm = doApplyNorm ? ONE_R1 / (real1)sqrt(runningNorm) : ONE_R1;
+
             complex* mtrx = mtrxS.get();
             const complex mtrx0 = mtrx[0U];
             const complex mtrx1 = mtrx[1U];
@@ -786,6 +784,8 @@ void QEngineCPU::UniformlyControlledSingleBit(const std::vector<bitLenInt>& cont
 
     const bitCapIntOcl mtrxSkipValueMaskOcl = (bitCapIntOcl)mtrxSkipValueMask;
 
+    Finish();
+
     const real1 nrm = (runningNorm > ZERO_R1) ? ONE_R1 / (real1)sqrt(runningNorm) : ONE_R1;
 
     ParallelFunc fn;
@@ -855,8 +855,6 @@ void QEngineCPU::UniformlyControlledSingleBit(const std::vector<bitLenInt>& cont
         };
     }
 
-    Finish();
-
     par_for_skip(0U, maxQPowerOcl, targetPower, 1U, fn);
 
     if (doNormalize) {
@@ -978,10 +976,10 @@ bitLenInt QEngineCPU::Compose(QEngineCPUPtr toCopy)
 
     StateVectorPtr nStateVec = AllocStateVec(nMaxQPower);
 
+    toCopy->Finish();
     if ((toCopy->doNormalize) && (toCopy->runningNorm != ONE_R1)) {
         toCopy->NormalizeState();
     }
-    toCopy->Finish();
 
     par_for(0U, nMaxQPower, [&](const bitCapIntOcl& lcv, const unsigned& cpu) {
         nStateVec->write(lcv, stateVec->read(lcv & startMask) * toCopy->stateVec->read((lcv & endMask) >> qubitCount));
@@ -1656,16 +1654,15 @@ void QEngineCPU::NormalizeState(real1_f nrm_f, real1_f norm_thresh_f, real1_f ph
 {
     CHECK_ZERO_SKIP();
 
-    if ((runningNorm == REAL1_DEFAULT_ARG) && (nrm_f == REAL1_DEFAULT_ARG)) {
-        UpdateRunningNorm();
-    }
-
     real1 nrm = (real1)nrm_f;
     real1 norm_thresh = (real1)norm_thresh_f;
 
     if (nrm < ZERO_R1) {
-        // runningNorm can be set by OpenCL queue pop, so finish first.
+        // runningNorm can be set by queued gates, so finish first.
         Finish();
+        if ((runningNorm == REAL1_DEFAULT_ARG) && (nrm_f == REAL1_DEFAULT_ARG)) {
+            UpdateRunningNorm();
+        }
         nrm = runningNorm;
     }
 
-- 
2.43.0


From 9bef48f8b82884aad73e92dd112b790c7007c47d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:27 +0000
Subject: [PATCH 073/104] fix: lock the random number generator that clones
 share between sampling threads

---
 include/qinterface.hpp        | 9 +++++++++
 include/qstabilizer.hpp       | 1 +
 src/qinterface/qinterface.cpp | 2 +-
 3 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/include/qinterface.hpp b/include/qinterface.hpp
index 8273e0a..fc3a9d7 100644
--- a/include/qinterface.hpp
+++ b/include/qinterface.hpp
@@ -18,6 +18,7 @@
 #include "hamiltonian.hpp"
 
 #include <map>
+#include <mutex>
 #include <random>
 
 #if ENABLE_UINT128
@@ -293,9 +294,17 @@ public:
 
     virtual bool GetIsArbitraryGlobalPhase() { return randGlobalPhase; }
 
+    /** Lock for random number generators, which are shared between clones, and therefore between threads sampling them */
+    static std::mutex& RandMutex()
+    {
+        static std::mutex randMutex;
+        return randMutex;
+    }
+
     /** Generate a random real number between 0 and 1 */
     real1_f Rand()
     {
+        std::lock_guard<std::mutex> lock(RandMutex());
         if (!!hardware_rand_generator) {
             return hardware_rand_generator->Next();
         } else {
diff --git a/include/qstabilizer.hpp b/include/qstabilizer.hpp
index 133f807..0cd00ff 100644
--- a/include/qstabilizer.hpp
+++ b/include/qstabilizer.hpp
@@ -128,6 +128,7 @@ public:
 
     bool Rand()
     {
+        std::lock_guard<std::mutex> lock(RandMutex());
         if (!!hardware_rand_generator) {
             if (!rawRandBoolsRemaining) {
                 rawRandBools = hardware_rand_generator->NextRaw();
diff --git a/src/qinterface/qinterface.cpp b/src/qinterface/qinterface.cpp
index 80988fe..1696c84 100644
--- a/src/qinterface/qinterface.cpp
+++ b/src/qinterface/qinterface.cpp
@@ -848,7 +848,7 @@ void QInterface::MultiShotMeasureMask(
     }
 
     par_for(0U, shots, [&](const bitCapIntOcl& shot, const unsigned& cpu) {
-        shotsArray[shot] = (unsigned)(bitCapIntOcl)SampleClone(qPowers);
+        shotsArray[shot] = (bitCapIntOcl)SampleClone(qPowers);
     });
 }
 
-- 
2.43.0


From 7d13fd13a00b34e44ea8c0ff3c8136dfab6cf2e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:27 +0000
Subject: [PATCH 074/104] fix: QBdtHybrid::SetPermutation and MAll, in state
 vector mode, set up a usable QBdt

---
 include/qbdthybrid.hpp | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/include/qbdthybrid.hpp b/include/qbdthybrid.hpp
index b1587e7..772621a 100644
--- a/include/qbdthybrid.hpp
+++ b/include/qbdthybrid.hpp
@@ -324,12 +324,11 @@ public:
     }
     void SetPermutation(const bitCapInt& perm, const complex& phaseFac = CMPLX_DEFAULT_ARG)
     {
-        if (qbdt) {
-            qbdt->SetPermutation(perm, phaseFac);
-        } else {
-            qbdt = std::dynamic_pointer_cast<QBdt>(MakeSimulator(true, perm, phaseFac));
+        if (!qbdt) {
+            qbdt = std::dynamic_pointer_cast<QBdt>(MakeSimulator(true));
             engine = nullptr;
         }
+        qbdt->SetPermutation(perm, phaseFac);
     }
 
     void Mtrx(const complex* mtrx, bitLenInt qubitIndex)
@@ -511,8 +510,7 @@ public:
         }
 
         const bitCapInt toRet = engine->MAll();
-        qbdt = std::dynamic_pointer_cast<QBdt>(MakeSimulator(true, toRet));
-        engine = nullptr;
+        SetPermutation(toRet);
 
         return toRet;
     }
-- 
2.43.0


From c7eb3739d148c9b8356d11ec6daab1c9fd69142e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:04 +0000
Subject: [PATCH 075/104] fix: QUnit and QUnitClifford MultiShotMeasureMask
 pair and map outcomes correctly

---
 src/qunit.cpp         | 18 ++++--------------
 src/qunitclifford.cpp |  2 +-
 2 files changed, 5 insertions(+), 15 deletions(-)

diff --git a/src/qunit.cpp b/src/qunit.cpp
index 6ebe776..d733bea 100644
--- a/src/qunit.cpp
+++ b/src/qunit.cpp
@@ -1627,7 +1627,7 @@ std::map<bitCapInt, int> QUnit::MultiShotMeasureMask(const std::vector<bitCapInt
 
                 auto pickIter = topLevelResults.begin();
                 int count = pickIter->second;
-                while (pick > count) {
+                while (pick >= count) {
                     ++pickIter;
                     count += pickIter->second;
                 }
@@ -1718,12 +1718,7 @@ void QUnit::MultiShotMeasureMask(const std::vector<bitCapInt>& qPowers, unsigned
         QInterfacePtr unit = shards[log2(qPowers[0U])].unit;
         if (unit) {
             std::vector<bitCapInt> mappedIndices(qPowers.size());
-            for (bitLenInt j = 0U; j < qubitCount; ++j) {
-                if (qPowers[0U] >= pow2(j)) {
-                    mappedIndices[0U] = pow2(shards[j].mapped);
-                    break;
-                }
-            }
+            mappedIndices[0U] = pow2(shards[log2(qPowers[0U])].mapped);
             for (size_t i = 1U; i < qPowers.size(); ++i) {
                 const size_t qubit = log2(qPowers[i]);
                 if (qubit >= qubitCount) {
@@ -1735,12 +1730,7 @@ void QUnit::MultiShotMeasureMask(const std::vector<bitCapInt>& qPowers, unsigned
                     unit = nullptr;
                     break;
                 }
-                for (bitLenInt j = 0U; j < qubitCount; ++j) {
-                    if (qPowers[i] >= pow2(j)) {
-                        mappedIndices[i] = pow2(shards[j].mapped);
-                        break;
-                    }
-                }
+                mappedIndices[i] = pow2(shards[qubit].mapped);
             }
 
             if (unit) {
@@ -1755,7 +1745,7 @@ void QUnit::MultiShotMeasureMask(const std::vector<bitCapInt>& qPowers, unsigned
     std::map<bitCapInt, int>::iterator it = results.begin();
     while (it != results.end() && (j < shots)) {
         for (int i = 0; i < it->second; ++i) {
-            shotsArray[j] = (unsigned)(bitCapIntOcl)it->first;
+            shotsArray[j] = (bitCapIntOcl)it->first;
             ++j;
         }
 
diff --git a/src/qunitclifford.cpp b/src/qunitclifford.cpp
index b0119a1..3ae584f 100644
--- a/src/qunitclifford.cpp
+++ b/src/qunitclifford.cpp
@@ -691,7 +691,7 @@ std::map<bitCapInt, int> QUnitClifford::MultiShotMeasureMask(const std::vector<b
 
                 auto pickIter = topLevelResults.begin();
                 int count = pickIter->second;
-                while (pick > count) {
+                while (pick >= count) {
                     ++pickIter;
                     count += pickIter->second;
                 }
-- 
2.43.0


From e4cdef46c876c1f98a3ab30e480771b852c41c27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:05 +0000
Subject: [PATCH 076/104] fix: QPager::GetAmplitudePage and SetAmplitudePage
 across page boundaries

---
 src/qpager.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/qpager.cpp b/src/qpager.cpp
index 62f655d..abbb74a 100644
--- a/src/qpager.cpp
+++ b/src/qpager.cpp
@@ -287,21 +287,21 @@ void QPager::GetSetAmplitudePage(complex* pagePtr, const complex* cPagePtr, bitC
 {
     const bitCapIntOcl pageLength = (bitCapIntOcl)pageMaxQPower();
     bitCapIntOcl perm = 0U;
-    for (bitCapIntOcl i = 0U; i < qPages.size(); ++i) {
-        if ((perm + length) < offset) {
+    for (bitCapIntOcl i = 0U; i < qPages.size(); ++i, perm += pageLength) {
+        if ((perm + pageLength) <= offset) {
             continue;
         }
         if (perm >= (offset + length)) {
             break;
         }
         const bitCapIntOcl partOffset = (perm < offset) ? (offset - perm) : 0U;
-        const bitCapIntOcl partLength = (length < pageLength) ? length : pageLength;
+        const bitCapIntOcl ptrOffset = (perm < offset) ? 0U : (perm - offset);
+        const bitCapIntOcl partLength = std::min(length - ptrOffset, pageLength - partOffset);
         if (cPagePtr) {
-            qPages[i]->SetAmplitudePage(cPagePtr, partOffset, partLength);
+            qPages[i]->SetAmplitudePage(cPagePtr + ptrOffset, partOffset, partLength);
         } else {
-            qPages[i]->GetAmplitudePage(pagePtr, partOffset, partLength);
+            qPages[i]->GetAmplitudePage(pagePtr + ptrOffset, partOffset, partLength);
         }
-        perm += pageLength;
     }
 }
 
-- 
2.43.0


From 444212065ce907330831d663d8a2ee8a8e79a3f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:28 +0000
Subject: [PATCH 077/104] fix: QEngineCPU::SetConcurrency() waits for the gates
 in the queue

---
 include/qengine_cpu.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/include/qengine_cpu.hpp b/include/qengine_cpu.hpp
index e7894ae..22d82cf 100644
--- a/include/qengine_cpu.hpp
+++ b/include/qengine_cpu.hpp
@@ -230,6 +230,13 @@ public:
     QInterfacePtr Clone();
     QInterfacePtr Copy();
 
+    void SetConcurrency(uint32_t threadsPerEngine)
+    {
+        // (Gates in the queue read the concurrency level.)
+        Finish();
+        QEngine::SetConcurrency(threadsPerEngine);
+    }
+
     /** @} */
 
 protected:
-- 
2.43.0


From 4bd3900e42c7cd44dadc4621fe33b5766ee17374 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:28 +0000
Subject: [PATCH 078/104] fix: QStabilizerHybrid::SetConcurrency() does not
 call itself without end

---
 include/qstabilizerhybrid.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/qstabilizerhybrid.hpp b/include/qstabilizerhybrid.hpp
index 95bb01a..9eb2e30 100644
--- a/include/qstabilizerhybrid.hpp
+++ b/include/qstabilizerhybrid.hpp
@@ -459,7 +459,7 @@ public:
     {
         QInterface::SetConcurrency(threadCount);
         if (engine) {
-            SetConcurrency(GetConcurrencyLevel());
+            engine->SetConcurrency(GetConcurrencyLevel());
         }
     }
 
-- 
2.43.0


From a823cd31dd40d959de71699e8689ba01614838a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:31 +0000
Subject: [PATCH 079/104] fix: QStabilizerHybrid::MultiShotMeasureMask assigns
 the shots above the sum of probabilities

---
 src/qstabilizerhybrid.cpp | 36 +++++++-----------------------------
 1 file changed, 7 insertions(+), 29 deletions(-)

diff --git a/src/qstabilizerhybrid.cpp b/src/qstabilizerhybrid.cpp
index d913e80..42c4af9 100644
--- a/src/qstabilizerhybrid.cpp
+++ b/src/qstabilizerhybrid.cpp
@@ -1655,11 +1655,8 @@ void QStabilizerHybrid::UniformlyControlledSingleBit(
     engine->UniformlyControlledSingleBit(controls, qubitIndex, mtrxs);
 }
 
-#define FILL_REMAINING_MAP_SHOTS()                                                                                     \
-    if (rng.size()) {                                                                                                  \
-        results[d] += shots - rng.size();                                                                              \
-    }                                                                                                                  \
-    stateMapCache = nullptr;
+// (Rounding can leave shots above the sum of all probabilities. These take the last possible permutation.)
+#define FILL_REMAINING_SHOTS(lm) CheckShots(shots, d, 2 * ONE_R1_F, qPowers, rng, lm);
 
 #define ADD_SHOTS_PROB(m)                                                                                              \
     if (rng.empty()) {                                                                                                 \
@@ -1753,33 +1750,12 @@ std::map<bitCapInt, int> QStabilizerHybrid::MultiShotMeasureMask(const std::vect
     }
 #endif
 
-    FILL_REMAINING_MAP_SHOTS()
+    FILL_REMAINING_SHOTS(shotFunc)
+    stateMapCache = nullptr;
 
     return results;
 }
 
-#ifdef __SIZEOF_INT128__
-#define FILL_REMAINING_ARRAY_SHOTS()                                                                                   \
-    if (rng.size()) {                                                                                                  \
-        const unsigned long long _d = (unsigned long long)(unsigned __int128)d;                                        \
-        for (size_t shot = 0U; shot < rng.size(); ++shot) {                                                            \
-            shotsArray[shot + (shots - rng.size())] = _d;                                                              \
-        }                                                                                                              \
-    }                                                                                                                  \
-    std::shuffle(shotsArray, shotsArray + shots, prng);                                                                \
-    stateMapCache = nullptr;
-#else
-#define FILL_REMAINING_ARRAY_SHOTS()                                                                                   \
-    if (rng.size()) {                                                                                                  \
-        const unsigned long long _d = (unsigned long long)(uint64_t)d;                                                 \
-        for (size_t shot = 0U; shot < rng.size(); ++shot) {                                                            \
-            shotsArray[shot + (shots - rng.size())] = _d;                                                              \
-        }                                                                                                              \
-    }                                                                                                                  \
-    std::shuffle(shotsArray, shotsArray + shots, prng);                                                                \
-    stateMapCache = nullptr;
-#endif
-
 void QStabilizerHybrid::MultiShotMeasureMask(
     const std::vector<bitCapInt>& qPowers, unsigned shots, unsigned long long* shotsArray)
 {
@@ -1852,7 +1828,9 @@ void QStabilizerHybrid::MultiShotMeasureMask(
     }
 #endif
 
-    FILL_REMAINING_ARRAY_SHOTS()
+    FILL_REMAINING_SHOTS(shotFunc)
+    std::shuffle(shotsArray, shotsArray + shots, prng);
+    stateMapCache = nullptr;
 }
 
 real1_f QStabilizerHybrid::ProbParity(const bitCapInt& mask)
-- 
2.43.0


From 676bcee7600626e94dd8432bf9094f7999a3a2f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:04 +0000
Subject: [PATCH 080/104] fix: SetConcurrencyLevel(1) does not take the
 logarithm of 0

---
 include/common/parallel_for.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/common/parallel_for.hpp b/include/common/parallel_for.hpp
index b83a480..118703f 100644
--- a/include/common/parallel_for.hpp
+++ b/include/common/parallel_for.hpp
@@ -35,7 +35,7 @@ public:
         }
         numCores = num;
         const bitLenInt pStridePow = log2Ocl(pStride);
-        const bitLenInt minStridePow = (bitLenInt)pow2Ocl(log2Ocl(numCores - 1U));
+        const bitLenInt minStridePow = (numCores > 1U) ? (bitLenInt)pow2Ocl(log2Ocl(numCores - 1U)) : 0U;
         dispatchThreshold = (pStridePow > minStridePow) ? (pStridePow - minStridePow) : 0U;
     }
     unsigned GetConcurrencyLevel() { return numCores; }
-- 
2.43.0


From 7b3c4d162e43d53bf42578b3cd8c4ec5630b0e53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:10 +0000
Subject: [PATCH 081/104] fix: QEngineCPU::SetAmplitude works on a register
 without amplitudes

---
 src/qengine/state.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/qengine/state.cpp b/src/qengine/state.cpp
index 1bc1604..899473b 100644
--- a/src/qengine/state.cpp
+++ b/src/qengine/state.cpp
@@ -208,15 +208,15 @@ void QEngineCPU::SetAmplitude(const bitCapInt& perm, const complex& amp)
         return;
     }
 
-    if (runningNorm != REAL1_DEFAULT_ARG) {
-        runningNorm += norm(amp) - norm(stateVec->read((bitCapIntOcl)perm));
-    }
-
     if (!stateVec) {
         ResetStateVec(AllocStateVec(maxQPowerOcl));
         stateVec->clear();
     }
 
+    if (runningNorm != REAL1_DEFAULT_ARG) {
+        runningNorm += norm(amp) - norm(stateVec->read((bitCapIntOcl)perm));
+    }
+
     stateVec->write((bitCapIntOcl)perm, amp);
 }
 
-- 
2.43.0


From 970debd1b3c8a9418b7f9e3efb72624021af5868 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:10 +0000
Subject: [PATCH 082/104] fix: QEngineCPU::GetQuantumState and GetProbs of a
 state of norm 0

---
 src/qengine/state.cpp | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/qengine/state.cpp b/src/qengine/state.cpp
index 899473b..4a401f6 100644
--- a/src/qengine/state.cpp
+++ b/src/qengine/state.cpp
@@ -263,32 +263,32 @@ void QEngineCPU::SetQuantumState(const complex* inputState)
 /// Get pure quantum state, in unsigned int permutation basis
 void QEngineCPU::GetQuantumState(complex* outputState)
 {
-    if (!stateVec) {
-        return par_for(
-            0, maxQPowerOcl, [&](const bitCapIntOcl& lcv, const unsigned& cpu) { outputState[lcv] = ZERO_CMPLX; });
-    }
-
     if (doNormalize) {
         NormalizeState();
     }
     Finish();
 
+    if (!stateVec) {
+        return par_for(
+            0, maxQPowerOcl, [&](const bitCapIntOcl& lcv, const unsigned& cpu) { outputState[lcv] = ZERO_CMPLX; });
+    }
+
     stateVec->copy_out(outputState);
 }
 
 /// Get all probabilities, in unsigned int permutation basis
 void QEngineCPU::GetProbs(real1* outputProbs)
 {
-    if (!stateVec) {
-        return par_for(
-            0, maxQPowerOcl, [&](const bitCapIntOcl& lcv, const unsigned& cpu) { outputProbs[lcv] = ZERO_R1; });
-    }
-
     if (doNormalize) {
         NormalizeState();
     }
     Finish();
 
+    if (!stateVec) {
+        return par_for(
+            0, maxQPowerOcl, [&](const bitCapIntOcl& lcv, const unsigned& cpu) { outputProbs[lcv] = ZERO_R1; });
+    }
+
     stateVec->get_probs(outputProbs);
 }
 
-- 
2.43.0


From 16a06f9ce8d71b34d475b1a86025218c42c2d34c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:10 +0000
Subject: [PATCH 083/104] fix: QEngineCPU::Apply2x2 takes the state for
 normalized only if it normalized it

---
 src/qengine/state.cpp | 8 --------
 1 file changed, 8 deletions(-)

diff --git a/src/qengine/state.cpp b/src/qengine/state.cpp
index 4a401f6..3db3848 100644
--- a/src/qengine/state.cpp
+++ b/src/qengine/state.cpp
@@ -447,10 +447,6 @@ void QEngineCPU::Apply2x2(bitCapIntOcl offset1, bitCapIntOcl offset2, const comp
 
             par_for_mask(0U, maxQPowerOcl, qPowersSorted, fn);
 
-            if (doApplyNorm) {
-                runningNorm = ONE_R1;
-            }
-
             if (!doCalcNorm) {
                 return;
             }
@@ -618,10 +614,6 @@ void QEngineCPU::Apply2x2(bitCapIntOcl offset1, bitCapIntOcl offset2, const comp
 
             par_for_mask(0U, maxQPowerOcl, qPowersSorted, fn);
 
-            if (doApplyNorm) {
-                runningNorm = ONE_R1;
-            }
-
             if (!doCalcNorm) {
                 return;
             }
-- 
2.43.0


From 5f45e753afe3308df38dba323986023a30b7de79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:10 +0000
Subject: [PATCH 084/104] fix: QUnit::SetAmplitude drops the cached
 single-qubit states

---
 include/qunit.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/qunit.hpp b/include/qunit.hpp
index 4d4617d..3bff944 100644
--- a/include/qunit.hpp
+++ b/include/qunit.hpp
@@ -187,6 +187,10 @@ public:
 
         EntangleAll();
         shards[0U].unit->SetAmplitude(perm, amp);
+        // The cached single-qubit states are no longer valid:
+        for (bitLenInt i = 0U; i < qubitCount; ++i) {
+            shards[i].MakeDirty();
+        }
     }
     virtual void SetPermutation(const bitCapInt& perm, const complex& phaseFac = CMPLX_DEFAULT_ARG);
     using QInterface::Compose;
-- 
2.43.0


From 85bbc0deffdc8f1afaa27052c65bca383b27efd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:10 +0000
Subject: [PATCH 085/104] fix: QUnit::SetQuantumState of one qubit in |-i>

---
 src/qunit.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qunit.cpp b/src/qunit.cpp
index d733bea..7637387 100644
--- a/src/qunit.cpp
+++ b/src/qunit.cpp
@@ -176,7 +176,7 @@ void QUnit::SetQuantumState(const complex* inputState)
             shard.amp0 /= abs(shard.amp0);
             shard.amp1 = ZERO_R1;
         } else if (IS_AMP_0((I_CMPLX * in0) + in1)) {
-            logFidelity += (double)log(clampProb(ONE_R1_F - norm((I_CMPLX * in0) - in1)));
+            logFidelity += (double)log(clampProb(ONE_R1_F - norm((I_CMPLX * in0) + in1)));
             shard.pauliBasis = PauliY;
             shard.amp1 = shard.amp0 / abs(shard.amp0);
             shard.amp0 = ZERO_R1;
-- 
2.43.0


From 4cc499798b63dce92d1738ac565e61228a83ff2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:08 +0000
Subject: [PATCH 086/104] fix: C API refuses simulator, neuron and circuit ids
 that were never handed out

---
 src/pinvoke_api.cpp | 69 ++++++++++++++++++++++++++++++++++-----------
 1 file changed, 52 insertions(+), 17 deletions(-)

diff --git a/src/pinvoke_api.cpp b/src/pinvoke_api.cpp
index d31c97a..0173b7a 100644
--- a/src/pinvoke_api.cpp
+++ b/src/pinvoke_api.cpp
@@ -51,7 +51,7 @@
 #endif
 
 #define SIMULATOR_LOCK_GUARD_VOID(sid)                                                                                 \
-    if (sid > simulators.size()) {                                                                                     \
+    if (sid >= simulators.size()) {                                                                                     \
         std::cout << "Invalid argument: simulator ID not found!" << std::endl;                                         \
         metaError = 2;                                                                                                 \
         return;                                                                                                        \
@@ -63,7 +63,7 @@
     }
 
 #define SIMULATOR_LOCK_GUARD_TYPED(sid, def)                                                                           \
-    if (sid > simulators.size()) {                                                                                     \
+    if (sid >= simulators.size()) {                                                                                     \
         std::cout << "Invalid argument: simulator ID not found!" << std::endl;                                         \
         metaError = 2;                                                                                                 \
         return def;                                                                                                    \
@@ -108,7 +108,7 @@
 #endif
 
 #define NEURON_LOCK_GUARD_VOID(nid)                                                                                    \
-    if (nid > neurons.size()) {                                                                                        \
+    if (nid >= neurons.size()) {                                                                                        \
         std::cout << "Invalid argument: neuron ID not found!" << std::endl;                                            \
         metaError = 2;                                                                                                 \
         return;                                                                                                        \
@@ -121,7 +121,7 @@
     }
 
 #define NEURON_LOCK_GUARD_TYPED(nid, def)                                                                              \
-    if (nid > neurons.size()) {                                                                                        \
+    if (nid >= neurons.size()) {                                                                                        \
         std::cout << "Invalid argument: neuron ID not found!" << std::endl;                                            \
         metaError = 2;                                                                                                 \
         return def;                                                                                                    \
@@ -158,7 +158,7 @@
 #endif
 
 #define CIRCUIT_LOCK_GUARD_TYPED(cid, def)                                                                             \
-    if (cid > circuits.size()) {                                                                                       \
+    if (cid >= circuits.size()) {                                                                                       \
         std::cout << "Invalid argument: circuit ID not found!" << std::endl;                                           \
         metaError = 2;                                                                                                 \
         return def;                                                                                                    \
@@ -171,7 +171,7 @@
     }
 
 #define CIRCUIT_LOCK_GUARD_VOID(cid)                                                                                   \
-    if (cid > circuits.size()) {                                                                                       \
+    if (cid >= circuits.size()) {                                                                                       \
         std::cout << "Invalid argument: neuron ID not found!" << std::endl;                                            \
         metaError = 2;                                                                                                 \
         return;                                                                                                        \
@@ -187,12 +187,12 @@
 
 #if CPP_STD > 13
 #define CIRCUIT_AND_SIMULATOR_LOCK_GUARD_VOID(cid, sid)                                                                \
-    if (sid > simulators.size()) {                                                                                     \
+    if (sid >= simulators.size()) {                                                                                     \
         std::cout << "Invalid argument: simulator ID not found!" << std::endl;                                         \
         metaError = 2;                                                                                                 \
         return;                                                                                                        \
     }                                                                                                                  \
-    if (cid > circuits.size()) {                                                                                       \
+    if (cid >= circuits.size()) {                                                                                       \
         std::cout << "Invalid argument: neuron ID not found!" << std::endl;                                            \
         metaError = 2;                                                                                                 \
         return;                                                                                                        \
@@ -218,12 +218,12 @@
     }
 #else
 #define CIRCUIT_AND_SIMULATOR_LOCK_GUARD_VOID(cid, sid)                                                                \
-    if (sid > simulators.size()) {                                                                                     \
+    if (sid >= simulators.size()) {                                                                                     \
         std::cout << "Invalid argument: simulator ID not found!" << std::endl;                                         \
         metaError = 2;                                                                                                 \
         return;                                                                                                        \
     }                                                                                                                  \
-    if (cid > circuits.size()) {                                                                                       \
+    if (cid >= circuits.size()) {                                                                                       \
         std::cout << "Invalid argument: neuron ID not found!" << std::endl;                                            \
         metaError = 2;                                                                                                 \
         return;                                                                                                        \
@@ -613,6 +613,10 @@ MICROSOFT_QUANTUM_DECL int get_error(_In_ uintq sid)
         return 2;
     }
 
+    if (sid >= simulatorErrors.size()) {
+        return 2;
+    }
+
     return simulatorErrors[sid];
 }
 
@@ -851,7 +855,7 @@ MICROSOFT_QUANTUM_DECL uintq init_clone(_In_ uintq sid)
 {
     META_LOCK_GUARD()
 
-    if (sid > simulators.size()) {
+    if (sid >= simulators.size()) {
         std::cout << "Invalid argument: simulator ID not found!" << std::endl;
         metaError = 2;
 
@@ -904,7 +908,7 @@ uintq init_clone_size(uintq sid, uintq n)
 {
     META_LOCK_GUARD()
 
-    if (sid > simulators.size()) {
+    if (sid >= simulators.size()) {
         std::cout << "Invalid argument: simulator ID not found!" << std::endl;
         metaError = 2;
 
@@ -960,6 +964,14 @@ uintq init_clone_size(uintq sid, uintq n)
 MICROSOFT_QUANTUM_DECL void destroy(_In_ uintq sid)
 {
     META_LOCK_GUARD()
+
+    if (sid >= simulators.size()) {
+        std::cout << "Invalid argument: simulator ID not found!" << std::endl;
+        metaError = 2;
+
+        return;
+    }
+
     shards.erase(simulators[sid].get());
     simulatorMutexes.erase(simulators[sid].get());
     simulators[sid] = nullptr;
@@ -1286,7 +1298,7 @@ MICROSOFT_QUANTUM_DECL void allocateQubit(_In_ uintq sid, _In_ uintq qid)
 {
     META_LOCK_GUARD()
 
-    if (sid > simulators.size()) {
+    if (sid >= simulators.size()) {
         std::cout << "Invalid argument: simulator ID not found!" << std::endl;
         metaError = 2;
 
@@ -1327,7 +1339,7 @@ MICROSOFT_QUANTUM_DECL bool release(_In_ uintq sid, _In_ uintq q)
 {
     META_LOCK_GUARD()
 
-    if (sid > simulators.size()) {
+    if (sid >= simulators.size()) {
         std::cout << "Invalid argument: simulator ID not found!" << std::endl;
         metaError = 2;
 
@@ -2223,6 +2235,13 @@ MICROSOFT_QUANTUM_DECL void ACSWAP(_In_ uintq sid, _In_ uintq n, _In_reads_(n) u
 
 MICROSOFT_QUANTUM_DECL void Compose(_In_ uintq sid1, _In_ uintq sid2, uintq* q)
 {
+    if ((sid1 >= simulators.size()) || (sid2 >= simulators.size()) || (sid1 == sid2)) {
+        std::cout << "Invalid argument: simulator ID not found!" << std::endl;
+        metaError = 2;
+
+        return;
+    }
+
     if (!simulators[sid1] || !simulators[sid2]) {
         return;
     }
@@ -3473,7 +3492,7 @@ MICROSOFT_QUANTUM_DECL uintq init_qneuron(
 {
     META_LOCK_GUARD()
 
-    if (sid > simulators.size()) {
+    if (sid >= simulators.size()) {
         std::cout << "Invalid argument: simulator ID not found!" << std::endl;
         metaError = 2;
 
@@ -3527,7 +3546,7 @@ MICROSOFT_QUANTUM_DECL uintq clone_qneuron(_In_ uintq nid)
 {
     META_LOCK_GUARD()
 
-    if (nid > neurons.size()) {
+    if (nid >= neurons.size()) {
         std::cout << "Invalid argument: neuron ID not found!" << std::endl;
         metaError = 2;
 
@@ -3567,6 +3586,14 @@ MICROSOFT_QUANTUM_DECL uintq clone_qneuron(_In_ uintq nid)
 MICROSOFT_QUANTUM_DECL void destroy_qneuron(_In_ uintq nid)
 {
     META_LOCK_GUARD()
+
+    if (nid >= neurons.size()) {
+        std::cout << "Invalid argument: neuron ID not found!" << std::endl;
+        metaError = 2;
+
+        return;
+    }
+
     neuronMutexes.erase(neurons[nid].get());
     neurons[nid] = nullptr;
     neuronErrors[nid] = 0;
@@ -3718,7 +3745,7 @@ uintq _init_qcircuit_copy(uintq cid, bool isInverse, std::set<bitLenInt> q)
 {
     META_LOCK_GUARD()
 
-    if (cid > circuits.size()) {
+    if (cid >= circuits.size()) {
         std::cout << "Invalid argument: circuit ID not found!" << std::endl;
         metaError = 2;
 
@@ -3768,6 +3795,14 @@ MICROSOFT_QUANTUM_DECL uintq qcircuit_past_light_cone(_In_ uintq cid, _In_ uintq
 MICROSOFT_QUANTUM_DECL void destroy_qcircuit(_In_ uintq cid)
 {
     META_LOCK_GUARD()
+
+    if (cid >= circuits.size()) {
+        std::cout << "Invalid argument: circuit ID not found!" << std::endl;
+        metaError = 2;
+
+        return;
+    }
+
     circuitMutexes.erase(circuits[cid].get());
     circuits[cid] = nullptr;
     circuitReservations[cid] = false;
-- 
2.43.0


From 8b561bdbf756f20c14efa6bbc74b0bbd12eb7f5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:08 +0000
Subject: [PATCH 087/104] fix: init_clone() keeps the qubit ids of the original

---
 src/pinvoke_api.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/pinvoke_api.cpp b/src/pinvoke_api.cpp
index 0173b7a..1c3f6c0 100644
--- a/src/pinvoke_api.cpp
+++ b/src/pinvoke_api.cpp
@@ -879,7 +879,7 @@ MICROSOFT_QUANTUM_DECL uintq init_clone(_In_ uintq sid)
     bool isSuccess = true;
     QInterfacePtr simulator;
     try {
-        simulator = oSimulator->Clone();
+        simulator = oSimulator ? oSimulator->Clone() : nullptr;
     } catch (const std::exception& ex) {
         std::cout << ex.what() << std::endl;
         isSuccess = false;
@@ -899,7 +899,10 @@ MICROSOFT_QUANTUM_DECL uintq init_clone(_In_ uintq sid)
         simulatorErrors[nsid] = isSuccess ? 0 : 1;
     }
 
-    FillSimShards(simulator);
+    if (simulator) {
+        // The clone keeps the qubit IDs of the original.
+        shards[simulator.get()] = shards[oSimulator.get()];
+    }
 
     return nsid;
 }
-- 
2.43.0


From 46505bef17b25ed31f07268a2e87b460255412bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:08 +0000
Subject: [PATCH 088/104] fix: _combineA() shifts by the size of a word

---
 src/pinvoke_api.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pinvoke_api.cpp b/src/pinvoke_api.cpp
index 1c3f6c0..759f4f7 100644
--- a/src/pinvoke_api.cpp
+++ b/src/pinvoke_api.cpp
@@ -591,7 +591,7 @@ bitCapInt _combineA(uintq na, const uintq* a)
 #if QBCAPPOW > 6
     bitCapInt aTot = ZERO_BCI;
     for (uintq i = 0U; i < na; ++i) {
-        bi_lshift_ip(&aTot, bitsInCap);
+        bi_lshift_ip(&aTot, (bitLenInt)(8U * sizeof(uintq)));
         bi_or_ip(&aTot, a[na - (i + 1U)]);
     }
 
-- 
2.43.0


From e86ae63519768400a5de896d8959941ce6870816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:30 +0000
Subject: [PATCH 089/104] fix: C API arithmetic re-reads the position of each
 qubit while it lines up a register

---
 src/pinvoke_api.cpp | 64 ++++++++++++++++++++++-----------------------
 1 file changed, 32 insertions(+), 32 deletions(-)

diff --git a/src/pinvoke_api.cpp b/src/pinvoke_api.cpp
index 759f4f7..6d90d84 100644
--- a/src/pinvoke_api.cpp
+++ b/src/pinvoke_api.cpp
@@ -468,16 +468,16 @@ void SwapShardValues(bitLenInt v1, bitLenInt v2, std::map<uintq, bitLenInt>& sim
 uintq MapArithmetic(QInterfacePtr simulator, uintq n, uintq* q)
 {
     uintq start = GetSimShardId(simulator, q[0U]);
-    std::unique_ptr<bitLenInt[]> bitArray(new bitLenInt[n]);
     for (uintq i = 0U; i < n; ++i) {
-        bitArray[i] = GetSimShardId(simulator, q[i]);
-        if (start > bitArray[i]) {
-            start = bitArray[i];
+        const uintq p = GetSimShardId(simulator, q[i]);
+        if (start > p) {
+            start = p;
         }
     }
     for (uintq i = 0U; i < n; ++i) {
-        simulator->Swap(start + i, bitArray[i]);
-        SwapShardValues(start + i, bitArray[i], shards[simulator.get()]);
+        const bitLenInt p = GetSimShardId(simulator, q[i]);
+        simulator->Swap(start + i, p);
+        SwapShardValues(start + i, p, shards[simulator.get()]);
     }
     return start;
 }
@@ -497,33 +497,33 @@ MapArithmeticResult2 MapArithmetic2(QInterfacePtr simulator, uintq n, uintq* q1,
 {
     uintq start1 = GetSimShardId(simulator, q1[0U]);
     uintq start2 = GetSimShardId(simulator, q2[0U]);
-    std::unique_ptr<bitLenInt[]> bitArray1(new bitLenInt[n]);
-    std::unique_ptr<bitLenInt[]> bitArray2(new bitLenInt[n]);
     for (uintq i = 0U; i < n; ++i) {
-        bitArray1[i] = GetSimShardId(simulator, q1[i]);
-        if (start1 > bitArray1[i]) {
-            start1 = bitArray1[i];
+        const uintq p1 = GetSimShardId(simulator, q1[i]);
+        if (start1 > p1) {
+            start1 = p1;
         }
-        bitArray2[i] = GetSimShardId(simulator, q2[i]);
-        if (start2 > bitArray2[i]) {
-            start2 = bitArray2[i];
+        const uintq p2 = GetSimShardId(simulator, q2[i]);
+        if (start2 > p2) {
+            start2 = p2;
         }
     }
     bool isReversed = (start2 < start1);
     if (isReversed) {
         std::swap(start1, start2);
-        bitArray1.swap(bitArray2);
+        std::swap(q1, q2);
     }
     for (uintq i = 0U; i < n; ++i) {
-        simulator->Swap(start1 + i, bitArray1[i]);
-        SwapShardValues(start1 + i, bitArray1[i], shards[simulator.get()]);
+        const bitLenInt p = GetSimShardId(simulator, q1[i]);
+        simulator->Swap(start1 + i, p);
+        SwapShardValues(start1 + i, p, shards[simulator.get()]);
     }
     if ((start1 + n) > start2) {
         start2 = start1 + n;
     }
     for (uintq i = 0U; i < n; ++i) {
-        simulator->Swap(start2 + i, bitArray2[i]);
-        SwapShardValues(start2 + i, bitArray2[i], shards[simulator.get()]);
+        const bitLenInt p = GetSimShardId(simulator, q2[i]);
+        simulator->Swap(start2 + i, p);
+        SwapShardValues(start2 + i, p, shards[simulator.get()]);
     }
     if (isReversed) {
         std::swap(start1, start2);
@@ -535,36 +535,36 @@ MapArithmeticResult2 MapArithmetic3(QInterfacePtr simulator, uintq n1, uintq* q1
 {
     uintq start1 = GetSimShardId(simulator, q1[0U]);
     uintq start2 = GetSimShardId(simulator, q2[0U]);
-    std::unique_ptr<bitLenInt[]> bitArray1(new bitLenInt[n1]);
-    std::unique_ptr<bitLenInt[]> bitArray2(new bitLenInt[n2]);
     for (uintq i = 0U; i < n1; ++i) {
-        bitArray1[i] = GetSimShardId(simulator, q1[i]);
-        if (start1 > bitArray1[i]) {
-            start1 = bitArray1[i];
+        const uintq p1 = GetSimShardId(simulator, q1[i]);
+        if (start1 > p1) {
+            start1 = p1;
         }
     }
     for (uintq i = 0U; i < n2; ++i) {
-        bitArray2[i] = GetSimShardId(simulator, q2[i]);
-        if (start2 > bitArray2[i]) {
-            start2 = bitArray2[i];
+        const uintq p2 = GetSimShardId(simulator, q2[i]);
+        if (start2 > p2) {
+            start2 = p2;
         }
     }
     bool isReversed = (start2 < start1);
     if (isReversed) {
         std::swap(start1, start2);
         std::swap(n1, n2);
-        bitArray1.swap(bitArray2);
+        std::swap(q1, q2);
     }
     for (uintq i = 0U; i < n1; ++i) {
-        simulator->Swap(start1 + i, bitArray1[i]);
-        SwapShardValues(start1 + i, bitArray1[i], shards[simulator.get()]);
+        const bitLenInt p = GetSimShardId(simulator, q1[i]);
+        simulator->Swap(start1 + i, p);
+        SwapShardValues(start1 + i, p, shards[simulator.get()]);
     }
     if ((start1 + n1) > start2) {
         start2 = start1 + n1;
     }
     for (uintq i = 0U; i < n2; ++i) {
-        simulator->Swap(start2 + i, bitArray2[i]);
-        SwapShardValues(start2 + i, bitArray2[i], shards[simulator.get()]);
+        const bitLenInt p = GetSimShardId(simulator, q2[i]);
+        simulator->Swap(start2 + i, p);
+        SwapShardValues(start2 + i, p, shards[simulator.get()]);
     }
     if (isReversed) {
         std::swap(start1, start2);
-- 
2.43.0


From 44c1db0672ce893eca5c5fa2823828e73cf191a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:30 +0000
Subject: [PATCH 090/104] fix: Exp() and MCExp() act on qubit ids, not on
 positions

---
 src/pinvoke_api.cpp | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/src/pinvoke_api.cpp b/src/pinvoke_api.cpp
index 6d90d84..a618668 100644
--- a/src/pinvoke_api.cpp
+++ b/src/pinvoke_api.cpp
@@ -354,7 +354,7 @@ void RevertPauliBasis(QInterfacePtr simulator, uintq len, int* bases, uintq* qub
     }
 }
 
-void removeIdentities(std::vector<int>* b, std::vector<bitLenInt>* qs)
+void removeIdentities(std::vector<int>* b, std::vector<uintq>* qs)
 {
     uintq i = 0U;
     while (i != b->size()) {
@@ -437,11 +437,11 @@ void MCRHelper(uintq sid, uintq b, double phi, uintq n, uintq* c, uintq q)
     }
 }
 
-inline std::size_t make_mask(std::vector<bitLenInt> const& qs)
+inline bitCapInt make_mask(QInterfacePtr simulator, std::vector<uintq> const& qs)
 {
-    std::size_t mask = 0U;
-    for (const std::size_t q : qs) {
-        mask = mask | pow2Ocl(q);
+    bitCapInt mask = ZERO_BCI;
+    for (const uintq q : qs) {
+        bi_or_ip(&mask, pow2(GetSimShardId(simulator, q)));
     }
     return mask;
 }
@@ -1238,7 +1238,7 @@ double _JointEnsembleProbabilityHelper(QInterfacePtr simulator, uintq n, int* b,
     }
 
     std::vector<int> bVec(b, b + n);
-    std::vector<bitLenInt> qVec(q, q + n);
+    std::vector<uintq> qVec(q, q + n);
 
     removeIdentities(&bVec, &qVec);
     n = (uintq)qVec.size();
@@ -2014,7 +2014,7 @@ MICROSOFT_QUANTUM_DECL void Exp(
     SIMULATOR_LOCK_GUARD_VOID(sid)
 
     std::vector<int> bVec(b, b + n);
-    std::vector<bitLenInt> qVec(q, q + n);
+    std::vector<uintq> qVec(q, q + n);
 
     uintq someQubit = qVec.front();
 
@@ -2026,9 +2026,10 @@ MICROSOFT_QUANTUM_DECL void Exp(
         } else if (bVec.size() == 1U) {
             RHelper(sid, bVec.front(), -2. * phi, qVec.front());
         } else {
+            const bitCapInt mask = make_mask(simulator, qVec);
+
             TransformPauliBasis(simulator, n, b, q);
 
-            std::size_t mask = make_mask(qVec);
             QPARITY(simulator)->UniformParityRZ(mask, (real1_f)(-phi));
 
             RevertPauliBasis(simulator, n, b, q);
@@ -2052,7 +2053,7 @@ MICROSOFT_QUANTUM_DECL void MCExp(_In_ uintq sid, _In_ uintq n, _In_reads_(n) in
     SIMULATOR_LOCK_GUARD_VOID(sid)
 
     std::vector<int> bVec(b, b + n);
-    std::vector<bitLenInt> qVec(q, q + n);
+    std::vector<uintq> qVec(q, q + n);
 
     uintq someQubit = qVec.front();
 
@@ -2064,11 +2065,14 @@ MICROSOFT_QUANTUM_DECL void MCExp(_In_ uintq sid, _In_ uintq n, _In_reads_(n) in
         } else if (bVec.size() == 1U) {
             MCRHelper(sid, bVec.front(), -2. * phi, nc, cs, qVec.front());
         } else {
-            std::vector<bitLenInt> csVec(cs, cs + nc);
+            std::vector<bitLenInt> csVec(nc);
+            for (uintq i = 0U; i < nc; ++i) {
+                csVec[i] = GetSimShardId(simulator, cs[i]);
+            }
+            const bitCapInt mask = make_mask(simulator, qVec);
 
             TransformPauliBasis(simulator, n, b, q);
 
-            std::size_t mask = make_mask(qVec);
             QPARITY(simulator)->CUniformParityRZ(csVec, mask, (real1_f)(-phi));
 
             RevertPauliBasis(simulator, n, b, q);
-- 
2.43.0


From c7c2addd07281a26132f68b44b55b2350a4be434 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:30 +0000
Subject: [PATCH 091/104] fix: qubit ids of the C API are not cut to 16 bits

---
 src/pinvoke_api.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pinvoke_api.cpp b/src/pinvoke_api.cpp
index a618668..a42450d 100644
--- a/src/pinvoke_api.cpp
+++ b/src/pinvoke_api.cpp
@@ -274,7 +274,7 @@ std::map<QCircuit*, std::mutex> circuitMutexes;
 std::vector<bool> circuitReservations;
 std::map<QCircuit*, std::string> circuitStrings;
 
-bitLenInt GetSimShardId(QInterfacePtr simulator, bitLenInt i)
+bitLenInt GetSimShardId(QInterfacePtr simulator, uintq i)
 {
     const auto& simShardsIt = shards.find(simulator.get());
     if (simShardsIt == shards.end()) {
-- 
2.43.0


From 38a1e4faedcbe639cffca18294a0f0d9944f9e38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:05 +0000
Subject: [PATCH 092/104] fix: Decompose() and Dispose() of the C API keep the
 id map in step with their swaps

---
 src/pinvoke_api.cpp | 64 ++++++++++++++++++++-------------------------
 1 file changed, 28 insertions(+), 36 deletions(-)

diff --git a/src/pinvoke_api.cpp b/src/pinvoke_api.cpp
index a42450d..3b974ac 100644
--- a/src/pinvoke_api.cpp
+++ b/src/pinvoke_api.cpp
@@ -465,6 +465,30 @@ void SwapShardValues(bitLenInt v1, bitLenInt v2, std::map<uintq, bitLenInt>& sim
     std::swap(it1->second, it2->second);
 }
 
+// Swap the listed qubits to the end of the simulator, in order, and return the position of the first
+bitLenInt MapToEnd(QInterfacePtr simulator, uintq n, uintq* q)
+{
+    if (n > simulator->GetQubitCount()) {
+        throw std::invalid_argument("Invalid argument: more qubit IDs than qubits!");
+    }
+    const bitLenInt start = simulator->GetQubitCount() - (bitLenInt)n;
+    for (uintq i = 0U; i < n; ++i) {
+        const bitLenInt p = GetSimShardId(simulator, q[i]);
+        simulator->Swap(start + i, p);
+        SwapShardValues(start + i, p, shards[simulator.get()]);
+    }
+    return start;
+}
+
+// Remove the IDs of the listed qubits, (which were at the end of the simulator)
+void ForgetQubits(QInterfacePtr simulator, uintq n, uintq* q)
+{
+    std::map<uintq, bitLenInt>& simShards = shards[simulator.get()];
+    for (uintq i = 0U; i < n; ++i) {
+        simShards.erase(q[i]);
+    }
+}
+
 uintq MapArithmetic(QInterfacePtr simulator, uintq n, uintq* q)
 {
     uintq start = GetSimShardId(simulator, q[0U]);
@@ -2297,60 +2321,28 @@ MICROSOFT_QUANTUM_DECL uintq Decompose(_In_ uintq sid, _In_ uintq n, _In_reads_(
 
     SIMULATOR_LOCK_GUARD_INT(sid)
 
-    bitLenInt nQubitIndex = 0U;
-
     try {
-        nQubitIndex = simulator->GetQubitCount() - n;
-
-        for (uintq i = 0U; i < n; ++i) {
-            simulator->Swap(GetSimShardId(simulator, q[i]), i + nQubitIndex);
-        }
-
-        simulator->Decompose(nQubitIndex, simulators[nSid]);
+        simulator->Decompose(MapToEnd(simulator, n, q), simulators[nSid]);
+        ForgetQubits(simulator, n, q);
     } catch (const std::exception& ex) {
         std::cout << ex.what() << std::endl;
         simulatorErrors[sid] = 1;
         simulatorErrors[nSid] = 1;
     }
 
-    for (uintq j = 0U; j < n; ++j) {
-        std::map<uintq, bitLenInt>& simShards = shards[simulator.get()];
-        bitLenInt oIndex = simShards[q[j]];
-        for (auto it = simShards.begin(); it != simShards.end(); ++it) {
-            if (it->second > oIndex) {
-                --(it->second);
-            }
-        }
-        simShards.erase(q[j]);
-    }
-
     return nSid;
 }
 
 MICROSOFT_QUANTUM_DECL void Dispose(_In_ uintq sid, _In_ uintq n, _In_reads_(n) uintq* q)
 {
     SIMULATOR_LOCK_GUARD_VOID(sid)
-    bitLenInt nQubitIndex = 0U;
     try {
-        nQubitIndex = simulator->GetQubitCount() - n;
-        for (uintq i = 0U; i < n; ++i) {
-            simulator->Swap(GetSimShardId(simulator, q[i]), i + nQubitIndex);
-        }
-        simulator->Dispose(nQubitIndex, n);
+        simulator->Dispose(MapToEnd(simulator, n, q), (bitLenInt)n);
+        ForgetQubits(simulator, n, q);
     } catch (const std::exception& ex) {
         simulatorErrors[sid] = 1;
         std::cout << ex.what() << std::endl;
     }
-    for (uintq j = 0U; j < n; ++j) {
-        std::map<uintq, bitLenInt>& simShards = shards[simulator.get()];
-        bitLenInt oIndex = simShards[q[j]];
-        for (auto it = simShards.begin(); it != simShards.end(); ++it) {
-            if (it->second > oIndex) {
-                --(it->second);
-            }
-        }
-        simShards.erase(q[j]);
-    }
 }
 
 MICROSOFT_QUANTUM_DECL void AND(_In_ uintq sid, _In_ uintq qi1, _In_ uintq qi2, _In_ uintq qo)
-- 
2.43.0


From 3386b244048697b7a5d2b9314436de98feec04af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:05 +0000
Subject: [PATCH 093/104] fix: a failed Compose(), allocateQubit() or init of
 the C API adds no qubit ids

---
 src/pinvoke_api.cpp | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/pinvoke_api.cpp b/src/pinvoke_api.cpp
index 3b974ac..798605c 100644
--- a/src/pinvoke_api.cpp
+++ b/src/pinvoke_api.cpp
@@ -309,6 +309,10 @@ bitLenInt GetSimShardId(QInterfacePtr simulator, uintq i)
 
 void FillSimShards(QInterfacePtr simulator)
 {
+    if (!simulator) {
+        return;
+    }
+
     shards[simulator.get()] = {};
     std::map<uintq, bitLenInt>& s = shards[simulator.get()];
     for (uintq i = 0U; i < simulator->GetQubitCount(); ++i) {
@@ -1332,8 +1336,16 @@ MICROSOFT_QUANTUM_DECL void allocateQubit(_In_ uintq sid, _In_ uintq qid)
         return;
     }
 
-    QInterfacePtr nQubit = CreateQuantumInterface(
-        simulatorTypes[sid], 1U, ZERO_BCI, randNumGen, CMPLX_DEFAULT_ARG, false, true, simulatorHostPointer[sid]);
+    QInterfacePtr nQubit;
+    try {
+        nQubit = CreateQuantumInterface(
+            simulatorTypes[sid], 1U, ZERO_BCI, randNumGen, CMPLX_DEFAULT_ARG, false, true, simulatorHostPointer[sid]);
+    } catch (const std::exception& ex) {
+        simulatorErrors[sid] = 1;
+        std::cout << ex.what() << std::endl;
+
+        return;
+    }
 
     if (!simulators[sid]) {
         simulators[sid] = nQubit;
@@ -1354,6 +1366,8 @@ MICROSOFT_QUANTUM_DECL void allocateQubit(_In_ uintq sid, _In_ uintq qid)
     } catch (const std::exception& ex) {
         simulatorErrors[sid] = 1;
         std::cout << ex.what() << std::endl;
+
+        return;
     }
 
     shards[simulators[sid].get()][qid] = (qubitCount - 1U);
@@ -2308,6 +2322,8 @@ MICROSOFT_QUANTUM_DECL void Compose(_In_ uintq sid1, _In_ uintq sid2, uintq* q)
         std::cout << ex.what() << std::endl;
         simulatorErrors[sid1] = 1;
         simulatorErrors[sid2] = 1;
+
+        return;
     }
     std::map<uintq, bitLenInt>& s = shards[simulator1.get()];
     for (bitLenInt i = 0; i < pQubitCount; ++i) {
-- 
2.43.0


From f2d2df10409d84560e3d4ea9c265e8ee140e1fb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:05 +0000
Subject: [PATCH 094/104] fix: release() of the C API refuses ids it does not
 know

---
 src/pinvoke_api.cpp | 36 ++++++++++++++++++++++++++++--------
 1 file changed, 28 insertions(+), 8 deletions(-)

diff --git a/src/pinvoke_api.cpp b/src/pinvoke_api.cpp
index 798605c..ff4c495 100644
--- a/src/pinvoke_api.cpp
+++ b/src/pinvoke_api.cpp
@@ -1391,15 +1391,32 @@ MICROSOFT_QUANTUM_DECL bool release(_In_ uintq sid, _In_ uintq q)
     std::unique_ptr<const std::lock_guard<std::mutex>> simulatorLock(
         new const std::lock_guard<std::mutex>(simulatorMutexes[simulator.get()]));
 
-    // Check that the qubit is in the |0> state, to within a small tolerance.
-    bool toRet = simulator->Prob(GetSimShardId(simulator, q)) < (ONE_R1 / 100);
+    if (!simulator) {
+        return false;
+    }
+
+    std::map<uintq, bitLenInt>& simShards = shards[simulator.get()];
+    if (simShards.find(q) == simShards.end()) {
+        std::cout << "Invalid argument: qubit ID not found!" << std::endl;
+        simulatorErrors[sid] = 1;
+
+        return false;
+    }
+
+    bool toRet = false;
+    try {
+        const bitLenInt oIndex = simShards[q];
+
+        // Check that the qubit is in the |0> state, to within a small tolerance.
+        toRet = simulator->Prob(oIndex) < (ONE_R1 / 100);
+
+        if (simulator->GetQubitCount() == 1U) {
+            shards.erase(simulator.get());
+            simulators[sid] = nullptr;
+
+            return toRet;
+        }
 
-    if (simulator->GetQubitCount() == 1U) {
-        shards.erase(simulator.get());
-        simulators[sid] = nullptr;
-    } else {
-        std::map<uintq, bitLenInt>& simShards = shards[simulator.get()];
-        bitLenInt oIndex = simShards[q];
         simulator->Dispose(oIndex, 1U);
         for (auto it = simShards.begin(); it != simShards.end(); ++it) {
             if (it->second > oIndex) {
@@ -1407,6 +1424,9 @@ MICROSOFT_QUANTUM_DECL bool release(_In_ uintq sid, _In_ uintq q)
             }
         }
         simShards.erase(q);
+    } catch (const std::exception& ex) {
+        simulatorErrors[sid] = 1;
+        std::cout << ex.what() << std::endl;
     }
 
     return toRet;
-- 
2.43.0


From 6e7de9e5e16dc08f35067b0d18ba168021d1cb48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:05 +0000
Subject: [PATCH 095/104] fix: qcircuit_append_mc() gives each control its own
 bit of the permutation

---
 src/pinvoke_api.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pinvoke_api.cpp b/src/pinvoke_api.cpp
index ff4c495..2a91999 100644
--- a/src/pinvoke_api.cpp
+++ b/src/pinvoke_api.cpp
@@ -3873,7 +3873,7 @@ MICROSOFT_QUANTUM_DECL void qcircuit_append_mc(
     bitCapInt _p = ZERO_BCI;
     std::set<bitLenInt> ctrls;
     for (uintq i = 0U; i < n; ++i) {
-        bi_or_ip(&_p, ((p >> i) & 1U) << indices[i]);
+        bi_or_ip(&_p, ((p >> indices[i]) & 1U) << i);
         ctrls.insert(c[i]);
     }
 
-- 
2.43.0


From 687e1399be68c2c7dd5063347b1d513370c40197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:10 +0000
Subject: [PATCH 096/104] fix: C API calls with an unknown qubit id report it
 and change nothing

---
 src/pinvoke_api.cpp | 362 +++++++++++++++++++++++++-------------------
 1 file changed, 208 insertions(+), 154 deletions(-)

diff --git a/src/pinvoke_api.cpp b/src/pinvoke_api.cpp
index 2a91999..acd6a34 100644
--- a/src/pinvoke_api.cpp
+++ b/src/pinvoke_api.cpp
@@ -284,10 +284,9 @@ bitLenInt GetSimShardId(QInterfacePtr simulator, uintq i)
             std::cout << "Could not find simulator ID!" << std::endl;
         } else {
             simulatorErrors[std::distance(simulators.begin(), simIt)] = 1;
-            std::cout << "Qubit ID is out-of-bounds!" << std::endl;
         }
 
-        return -1;
+        throw std::invalid_argument("Qubit ID is out-of-bounds!");
     }
 
     const auto& shardIt = simShardsIt->second.find(i);
@@ -298,10 +297,9 @@ bitLenInt GetSimShardId(QInterfacePtr simulator, uintq i)
             std::cout << "Could not find simulator ID!" << std::endl;
         } else {
             simulatorErrors[std::distance(simulators.begin(), simIt)] = 1;
-            std::cout << "Qubit ID is out-of-bounds!" << std::endl;
         }
 
-        return -1;
+        throw std::invalid_argument("Qubit ID is out-of-bounds!");
     }
 
     return shardIt->second;
@@ -322,6 +320,11 @@ void FillSimShards(QInterfacePtr simulator)
 
 void TransformPauliBasis(QInterfacePtr simulator, uintq len, int* bases, uintq* qubitIds)
 {
+    // Refuse an unknown ID before the first gate.
+    for (uintq i = 0U; i < len; ++i) {
+        GetSimShardId(simulator, qubitIds[i]);
+    }
+
     for (uintq i = 0U; i < len; ++i) {
         switch (bases[i]) {
         case PauliX:
@@ -1232,11 +1235,11 @@ MICROSOFT_QUANTUM_DECL std::size_t random_choice(_In_ uintq sid, _In_ std::size_
 void _PhaseMask(uintq sid, double lambda, uintq p, uintq n, uintq* q, bool isParity)
 {
     SIMULATOR_LOCK_GUARD_VOID(sid)
-    bitCapInt mask = ZERO_BCI;
-    for (uintq i = 0U; i < n; ++i) {
-        bi_or_ip(&mask, pow2(GetSimShardId(simulator, q[i])));
-    }
     try {
+        bitCapInt mask = ZERO_BCI;
+        for (uintq i = 0U; i < n; ++i) {
+            bi_or_ip(&mask, pow2(GetSimShardId(simulator, q[i])));
+        }
         if (isParity) {
             simulator->PhaseParity((real1_f)lambda, mask);
         } else {
@@ -1647,8 +1650,14 @@ MICROSOFT_QUANTUM_DECL void Mtrx(_In_ uintq sid, _In_reads_(8) double* m, _In_ u
 #define MAP_CONTROLS_AND_LOCK(sid, numC)                                                                               \
     SIMULATOR_LOCK_GUARD_VOID(sid)                                                                                     \
     std::vector<bitLenInt> ctrlsArray(numC);                                                                           \
-    for (uintq i = 0; i < numC; ++i) {                                                                                 \
-        ctrlsArray[i] = GetSimShardId(simulator, c[i]);                                                                \
+    try {                                                                                                              \
+        for (uintq i = 0; i < numC; ++i) {                                                                             \
+            ctrlsArray[i] = GetSimShardId(simulator, c[i]);                                                            \
+        }                                                                                                              \
+    } catch (const std::exception& ex) {                                                                               \
+        simulatorErrors[sid] = 1;                                                                                      \
+        std::cout << ex.what() << std::endl;                                                                           \
+        return;                                                                                                        \
     }
 
 /**
@@ -1984,8 +1993,14 @@ MICROSOFT_QUANTUM_DECL void Multiplex1Mtrx(
 #define MAP_MASK_AND_LOCK(sid, numQ)                                                                                   \
     SIMULATOR_LOCK_GUARD_VOID(sid)                                                                                     \
     bitCapInt mask = ZERO_BCI;                                                                                         \
-    for (uintq i = 0U; i < numQ; ++i) {                                                                                \
-        bi_or_ip(&mask, pow2(GetSimShardId(simulator, q[i])));                                                         \
+    try {                                                                                                              \
+        for (uintq i = 0U; i < numQ; ++i) {                                                                            \
+            bi_or_ip(&mask, pow2(GetSimShardId(simulator, q[i])));                                                     \
+        }                                                                                                              \
+    } catch (const std::exception& ex) {                                                                               \
+        simulatorErrors[sid] = 1;                                                                                      \
+        std::cout << ex.what() << std::endl;                                                                           \
+        return;                                                                                                        \
     }
 
 /**
@@ -2220,11 +2235,11 @@ MICROSOFT_QUANTUM_DECL void MeasureShots(
     _In_ uintq sid, _In_ uintq n, _In_reads_(n) uintq* q, _In_ uintq s, _In_reads_(s) uintq* m)
 {
     SIMULATOR_LOCK_GUARD_VOID(sid)
-    std::vector<bitCapInt> qPowers(n);
-    for (uintq i = 0U; i < n; ++i) {
-        qPowers[i] = Qrack::pow2(GetSimShardId(simulator, q[i]));
-    }
     try {
+        std::vector<bitCapInt> qPowers(n);
+        for (uintq i = 0U; i < n; ++i) {
+            qPowers[i] = Qrack::pow2(GetSimShardId(simulator, q[i]));
+        }
         simulator->MultiShotMeasureMask(qPowers, (unsigned)s, m);
     } catch (const std::exception& ex) {
         simulatorErrors[sid] = 1;
@@ -2534,26 +2549,26 @@ double _Prob(_In_ uintq sid, _In_ uintq q, bool isRdm)
 MICROSOFT_QUANTUM_DECL void ProbAll(_In_ uintq sid, _In_ uintq n, _In_reads_(n) uintq* q, real1_s* p)
 {
     SIMULATOR_LOCK_GUARD_VOID(sid)
-    std::vector<bitLenInt> _q(n);
-    for (uintq i = 0; i < n; ++i) {
-        _q[i] = GetSimShardId(simulator, q[i]);
-    }
-    bool isOutProbs = false;
-    if (_q.size() == simulator->GetQubitCount()) {
-        isOutProbs = true;
-        for (size_t i = 0U; i < _q.size(); ++i) {
-            if (_q[i] == i) {
-                continue;
+    try {
+        std::vector<bitLenInt> _q(n);
+        for (uintq i = 0; i < n; ++i) {
+            _q[i] = GetSimShardId(simulator, q[i]);
+        }
+        bool isOutProbs = false;
+        if (_q.size() == simulator->GetQubitCount()) {
+            isOutProbs = true;
+            for (size_t i = 0U; i < _q.size(); ++i) {
+                if (_q[i] == i) {
+                    continue;
+                }
+                isOutProbs = false;
+                break;
             }
-            isOutProbs = false;
-            break;
         }
-    }
 #if (FPPOW < 5) || (FPPOW > 6)
-    const bitCapIntOcl npow = pow2Ocl(n);
-    std::unique_ptr<real1[]> _p(new real1[npow]);
+        const bitCapIntOcl npow = pow2Ocl(n);
+        std::unique_ptr<real1[]> _p(new real1[npow]);
 #endif
-    try {
 #if (FPPOW < 5) || (FPPOW > 6)
         if (isOutProbs) {
             simulator->GetProbs(_p.get());
@@ -2588,18 +2603,17 @@ MICROSOFT_QUANTUM_DECL double ProbRdm(_In_ uintq sid, _In_ uintq q) { return _Pr
 double _PermutationProb(uintq sid, uintq n, uintq* q, bool* c, bool isRdm, bool r)
 {
     SIMULATOR_LOCK_GUARD_DOUBLE(sid)
-
-    bitCapInt mask = ZERO_BCI;
-    bitCapInt perm = ZERO_BCI;
-    for (uintq i = 0U; i < n; ++i) {
-        const bitCapInt p = pow2(GetSimShardId(simulator, q[i]));
-        bi_or_ip(&mask, p);
-        if (c[i]) {
-            bi_or_ip(&perm, p);
+    try {
+        bitCapInt mask = ZERO_BCI;
+        bitCapInt perm = ZERO_BCI;
+        for (uintq i = 0U; i < n; ++i) {
+            const bitCapInt p = pow2(GetSimShardId(simulator, q[i]));
+            bi_or_ip(&mask, p);
+            if (c[i]) {
+                bi_or_ip(&perm, p);
+            }
         }
-    }
 
-    try {
         return isRdm ? (double)simulator->ProbMaskRdm(r, mask, perm) : (double)simulator->ProbMask(mask, perm);
     } catch (const std::exception& ex) {
         simulatorErrors[sid] = 1;
@@ -2631,14 +2645,13 @@ MICROSOFT_QUANTUM_DECL double PermutationProbRdm(
 double _PermutationExpVar(uintq sid, uintq n, uintq* q, bool r, bool isRdm, bool isExp)
 {
     SIMULATOR_LOCK_GUARD_DOUBLE(sid)
-
-    std::vector<bitLenInt> _q;
-    _q.reserve(n);
-    for (uintq i = 0U; i < n; ++i) {
-        _q.push_back(GetSimShardId(simulator, q[i]));
-    }
-
     try {
+        std::vector<bitLenInt> _q;
+        _q.reserve(n);
+        for (uintq i = 0U; i < n; ++i) {
+            _q.push_back(GetSimShardId(simulator, q[i]));
+        }
+
         return isExp
             ? isRdm ? (double)simulator->ExpectationBitsAllRdm(r, _q) : (double)simulator->ExpectationBitsAll(_q)
             : isRdm ? (double)simulator->VarianceBitsAllRdm(r, _q)
@@ -2688,43 +2701,42 @@ MICROSOFT_QUANTUM_DECL double VarianceRdm(_In_ uintq sid, _In_ uintq n, _In_read
 double _FactorizedExpVar(uintq sid, uintq n, uintq* q, uintq m, uintq* c, real1_s* f, bool r, bool isRdm, bool isExp)
 {
     SIMULATOR_LOCK_GUARD_DOUBLE(sid)
+    try {
+        std::vector<bitLenInt> _q;
+        _q.reserve(n);
+        for (uintq i = 0U; i < n; ++i) {
+            _q.push_back(GetSimShardId(simulator, q[i]));
+        }
 
-    std::vector<bitLenInt> _q;
-    _q.reserve(n);
-    for (uintq i = 0U; i < n; ++i) {
-        _q.push_back(GetSimShardId(simulator, q[i]));
-    }
-
-    const uintq n2 = n << 1U;
+        const uintq n2 = n << 1U;
 
-    std::vector<bitCapInt> _c;
-    if (c) {
-        _c.reserve(n2);
+        std::vector<bitCapInt> _c;
+        if (c) {
+            _c.reserve(n2);
 #if QBCAPPOW < 7
-        for (uintq i = 0U; i < n2; ++i) {
-            _c.push_back(c[i]);
-        }
+            for (uintq i = 0U; i < n2; ++i) {
+                _c.push_back(c[i]);
+            }
 #else
-        for (uintq i = 0U; i < n2; ++i) {
-            bitCapInt perm = ZERO_BCI;
-            for (uintq j = 0U; j < m; ++j) {
-                bi_lshift_ip(&perm, 64U);
-                bi_or_ip(&perm, c[i * m + j]);
+            for (uintq i = 0U; i < n2; ++i) {
+                bitCapInt perm = ZERO_BCI;
+                for (uintq j = 0U; j < m; ++j) {
+                    bi_lshift_ip(&perm, 64U);
+                    bi_or_ip(&perm, c[i * m + j]);
+                }
+                _c.push_back(perm);
             }
-            _c.push_back(perm);
-        }
 #endif
-    }
+        }
 
-    std::vector<real1_f> _f;
-    if (f) {
-        _f.reserve(n2);
-        for (uintq i = 0U; i < n2; ++i) {
-            _f.push_back(f[i]);
+        std::vector<real1_f> _f;
+        if (f) {
+            _f.reserve(n2);
+            for (uintq i = 0U; i < n2; ++i) {
+                _f.push_back(f[i]);
+            }
         }
-    }
 
-    try {
         return isExp ? c ? isRdm ? (double)simulator->ExpectationBitsFactorizedRdm(r, _q, _c)
                                  : (double)simulator->ExpectationBitsFactorized(_q, _c)
                 : isRdm ? (double)simulator->ExpectationFloatsFactorizedRdm(r, _q, _f)
@@ -2818,18 +2830,25 @@ MICROSOFT_QUANTUM_DECL double FactorizedVarianceFpRdm(
 double UnitaryExpVar(bool isExp, uintq sid, uintq n, uintq* q, real1_s* b)
 {
     SIMULATOR_LOCK_GUARD_DOUBLE(sid)
-    std::vector<bitLenInt> _q;
-    std::vector<real1_f> _b;
-    _q.reserve(n);
-    _b.reserve(3U * n);
-    for (size_t i = 0U; i < n; ++i) {
-        _q.emplace_back(GetSimShardId(simulator, q[i]));
-        const size_t i3 = 3U * i;
-        for (size_t j = 0U; j < 3U; ++j) {
-            _b.emplace_back(b[i3 + j]);
+    try {
+        std::vector<bitLenInt> _q;
+        std::vector<real1_f> _b;
+        _q.reserve(n);
+        _b.reserve(3U * n);
+        for (size_t i = 0U; i < n; ++i) {
+            _q.emplace_back(GetSimShardId(simulator, q[i]));
+            const size_t i3 = 3U * i;
+            for (size_t j = 0U; j < 3U; ++j) {
+                _b.emplace_back(b[i3 + j]);
+            }
         }
+        return (double)(isExp ? simulator->ExpectationUnitaryAll(_q, _b) : simulator->VarianceUnitaryAll(_q, _b));
+    } catch (const std::exception& ex) {
+        simulatorErrors[sid] = 1;
+        std::cout << ex.what() << std::endl;
+
+        return (double)REAL1_DEFAULT_ARG;
     }
-    return (double)(isExp ? simulator->ExpectationUnitaryAll(_q, _b) : simulator->VarianceUnitaryAll(_q, _b));
 }
 
 /**
@@ -2853,20 +2872,27 @@ MICROSOFT_QUANTUM_DECL double UnitaryVariance(
 double MatrixExpVar(bool isExp, uintq sid, uintq n, uintq* q, real1_s* b)
 {
     SIMULATOR_LOCK_GUARD_DOUBLE(sid)
-    std::vector<bitLenInt> _q;
-    std::vector<std::shared_ptr<complex>> _b;
-    _q.reserve(n);
-    _b.reserve(n << 3U);
-    for (size_t i = 0U; i < n; ++i) {
-        _q.emplace_back(GetSimShardId(simulator, q[i]));
-        const size_t i8 = i << 3U;
-        _b.emplace_back(new complex[4U], std::default_delete<complex[]>());
-        for (size_t j = 0U; j < 4U; ++j) {
-            const size_t j2 = j << 1U;
-            _b[i].get()[j] = complex((real1)b[i8 + j2], (real1)b[i8 + j2 + 1U]);
+    try {
+        std::vector<bitLenInt> _q;
+        std::vector<std::shared_ptr<complex>> _b;
+        _q.reserve(n);
+        _b.reserve(n << 3U);
+        for (size_t i = 0U; i < n; ++i) {
+            _q.emplace_back(GetSimShardId(simulator, q[i]));
+            const size_t i8 = i << 3U;
+            _b.emplace_back(new complex[4U], std::default_delete<complex[]>());
+            for (size_t j = 0U; j < 4U; ++j) {
+                const size_t j2 = j << 1U;
+                _b[i].get()[j] = complex((real1)b[i8 + j2], (real1)b[i8 + j2 + 1U]);
+            }
         }
+        return (double)(isExp ? simulator->ExpectationUnitaryAll(_q, _b) : simulator->VarianceUnitaryAll(_q, _b));
+    } catch (const std::exception& ex) {
+        simulatorErrors[sid] = 1;
+        std::cout << ex.what() << std::endl;
+
+        return (double)REAL1_DEFAULT_ARG;
     }
-    return (double)(isExp ? simulator->ExpectationUnitaryAll(_q, _b) : simulator->VarianceUnitaryAll(_q, _b));
 }
 
 /**
@@ -2890,25 +2916,32 @@ MICROSOFT_QUANTUM_DECL double MatrixVariance(
 double UnitaryExpVarEigenVal(bool isExp, uintq sid, uintq n, uintq* q, real1_s* b, real1_s* e)
 {
     SIMULATOR_LOCK_GUARD_DOUBLE(sid)
-    std::vector<bitLenInt> _q;
-    std::vector<real1_f> _b;
-    std::vector<real1_f> _e;
-    _q.reserve(n);
-    _b.reserve(3U * n);
-    _e.reserve(n << 1U);
-    for (size_t i = 0U; i < n; ++i) {
-        _q.emplace_back(GetSimShardId(simulator, q[i]));
-
-        const size_t i2 = i << 1U;
-        _e.emplace_back(e[i2]);
-        _e.emplace_back(e[i2 + 1U]);
-
-        const size_t i3 = 3U * i;
-        for (size_t j = 0U; j < 3U; ++j) {
-            _b.emplace_back(b[i3 + j]);
+    try {
+        std::vector<bitLenInt> _q;
+        std::vector<real1_f> _b;
+        std::vector<real1_f> _e;
+        _q.reserve(n);
+        _b.reserve(3U * n);
+        _e.reserve(n << 1U);
+        for (size_t i = 0U; i < n; ++i) {
+            _q.emplace_back(GetSimShardId(simulator, q[i]));
+
+            const size_t i2 = i << 1U;
+            _e.emplace_back(e[i2]);
+            _e.emplace_back(e[i2 + 1U]);
+
+            const size_t i3 = 3U * i;
+            for (size_t j = 0U; j < 3U; ++j) {
+                _b.emplace_back(b[i3 + j]);
+            }
         }
+        return (double)(isExp ? simulator->ExpectationUnitaryAll(_q, _b, _e) : simulator->VarianceUnitaryAll(_q, _b, _e));
+    } catch (const std::exception& ex) {
+        simulatorErrors[sid] = 1;
+        std::cout << ex.what() << std::endl;
+
+        return (double)REAL1_DEFAULT_ARG;
     }
-    return (double)(isExp ? simulator->ExpectationUnitaryAll(_q, _b, _e) : simulator->VarianceUnitaryAll(_q, _b, _e));
 }
 
 /**
@@ -2932,27 +2965,34 @@ MICROSOFT_QUANTUM_DECL double UnitaryVarianceEigenVal(
 double MatrixExpVarEigenVal(bool isExp, uintq sid, uintq n, uintq* q, real1_s* b, real1_s* e)
 {
     SIMULATOR_LOCK_GUARD_DOUBLE(sid)
-    std::vector<bitLenInt> _q;
-    std::vector<std::shared_ptr<complex>> _b;
-    std::vector<real1_f> _e;
-    _q.reserve(n);
-    _b.reserve(n << 3U);
-    _e.reserve(n << 1U);
-    for (size_t i = 0U; i < n; ++i) {
-        _q.emplace_back(GetSimShardId(simulator, q[i]));
-
-        const size_t i2 = i << 1U;
-        _e.emplace_back(e[i2]);
-        _e.emplace_back(e[i2 + 1U]);
-
-        const size_t i8 = i << 3U;
-        _b.emplace_back(new complex[4U], std::default_delete<complex[]>());
-        for (size_t j = 0U; j < 4U; ++j) {
-            const size_t j2 = j << 1U;
-            _b[i].get()[j] = complex((real1)b[i8 + j2], (real1)b[i8 + j2 + 1U]);
+    try {
+        std::vector<bitLenInt> _q;
+        std::vector<std::shared_ptr<complex>> _b;
+        std::vector<real1_f> _e;
+        _q.reserve(n);
+        _b.reserve(n << 3U);
+        _e.reserve(n << 1U);
+        for (size_t i = 0U; i < n; ++i) {
+            _q.emplace_back(GetSimShardId(simulator, q[i]));
+
+            const size_t i2 = i << 1U;
+            _e.emplace_back(e[i2]);
+            _e.emplace_back(e[i2 + 1U]);
+
+            const size_t i8 = i << 3U;
+            _b.emplace_back(new complex[4U], std::default_delete<complex[]>());
+            for (size_t j = 0U; j < 4U; ++j) {
+                const size_t j2 = j << 1U;
+                _b[i].get()[j] = complex((real1)b[i8 + j2], (real1)b[i8 + j2 + 1U]);
+            }
         }
+        return (double)(isExp ? simulator->ExpectationUnitaryAll(_q, _b, _e) : simulator->VarianceUnitaryAll(_q, _b, _e));
+    } catch (const std::exception& ex) {
+        simulatorErrors[sid] = 1;
+        std::cout << ex.what() << std::endl;
+
+        return (double)REAL1_DEFAULT_ARG;
     }
-    return (double)(isExp ? simulator->ExpectationUnitaryAll(_q, _b, _e) : simulator->VarianceUnitaryAll(_q, _b, _e));
 }
 
 /**
@@ -2976,15 +3016,22 @@ MICROSOFT_QUANTUM_DECL double MatrixVarianceEigenVal(
 double PauliExpVar(bool isExp, uintq sid, uintq n, uintq* q, uintq* b)
 {
     SIMULATOR_LOCK_GUARD_DOUBLE(sid)
-    std::vector<bitLenInt> _q;
-    std::vector<Pauli> _b;
-    _q.reserve(n);
-    _b.reserve(n);
-    for (size_t i = 0U; i < n; ++i) {
-        _q.emplace_back(GetSimShardId(simulator, q[i]));
-        _b.emplace_back((Pauli)b[i]);
+    try {
+        std::vector<bitLenInt> _q;
+        std::vector<Pauli> _b;
+        _q.reserve(n);
+        _b.reserve(n);
+        for (size_t i = 0U; i < n; ++i) {
+            _q.emplace_back(GetSimShardId(simulator, q[i]));
+            _b.emplace_back((Pauli)b[i]);
+        }
+        return (double)(isExp ? simulator->ExpectationPauliAll(_q, _b) : simulator->VariancePauliAll(_q, _b));
+    } catch (const std::exception& ex) {
+        simulatorErrors[sid] = 1;
+        std::cout << ex.what() << std::endl;
+
+        return (double)REAL1_DEFAULT_ARG;
     }
-    return (double)(isExp ? simulator->ExpectationPauliAll(_q, _b) : simulator->VariancePauliAll(_q, _b));
 }
 
 /**
@@ -3362,13 +3409,12 @@ MICROSOFT_QUANTUM_DECL bool TrySeparate2Qb(_In_ uintq sid, _In_ uintq qi1, _In_
 MICROSOFT_QUANTUM_DECL bool TrySeparateTol(_In_ uintq sid, _In_ uintq n, _In_reads_(n) uintq* q, _In_ double tol)
 {
     SIMULATOR_LOCK_GUARD_BOOL(sid)
-
-    std::vector<bitLenInt> bitArray(n);
-    for (uintq i = 0U; i < n; ++i) {
-        bitArray[i] = GetSimShardId(simulator, q[i]);
-    }
-
     try {
+        std::vector<bitLenInt> bitArray(n);
+        for (uintq i = 0U; i < n; ++i) {
+            bitArray[i] = GetSimShardId(simulator, q[i]);
+        }
+
         return simulator->TrySeparate(bitArray, (real1_f)tol);
     } catch (const std::exception& ex) {
         simulatorErrors[sid] = 1;
@@ -3545,9 +3591,19 @@ MICROSOFT_QUANTUM_DECL uintq init_qneuron(
         return -1;
     }
 
-    std::vector<bitLenInt> ctrlsArray(n);
-    for (uintq i = 0; i < n; ++i) {
-        ctrlsArray[i] = GetSimShardId(simulator, c[i]);
+    QNeuronPtr neuron;
+    try {
+        std::vector<bitLenInt> ctrlsArray(n);
+        for (uintq i = 0; i < n; ++i) {
+            ctrlsArray[i] = GetSimShardId(simulator, c[i]);
+        }
+        neuron = std::make_shared<QNeuron>(
+            simulator, ctrlsArray, GetSimShardId(simulator, q), (QNeuronActivationFn)f, (real1_f)a, (real1_f)tol);
+    } catch (const std::exception& ex) {
+        simulatorErrors[sid] = 1;
+        std::cout << ex.what() << std::endl;
+
+        return -1;
     }
 
     uintq nid = (uintq)neurons.size();
@@ -3560,8 +3616,6 @@ MICROSOFT_QUANTUM_DECL uintq init_qneuron(
         }
     }
 
-    QNeuronPtr neuron = std::make_shared<QNeuron>(
-        simulator, ctrlsArray, GetSimShardId(simulator, q), (QNeuronActivationFn)f, (real1_f)a, (real1_f)tol);
     neuronSimulators[neuron] = simulator.get();
 
     if (nid == neurons.size()) {
-- 
2.43.0


From 15d91419ca30adc4eae1b66dce320105965d14ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:19 +0000
Subject: [PATCH 097/104] fix: Separate() of the C API separates the qubits it
 was asked to

---
 src/pinvoke_api.cpp | 16 +---------------
 1 file changed, 1 insertion(+), 15 deletions(-)

diff --git a/src/pinvoke_api.cpp b/src/pinvoke_api.cpp
index acd6a34..c12bfad 100644
--- a/src/pinvoke_api.cpp
+++ b/src/pinvoke_api.cpp
@@ -3428,27 +3428,13 @@ MICROSOFT_QUANTUM_DECL void Separate(_In_ uintq sid, _In_ uintq n, _In_reads_(n)
 {
     SIMULATOR_LOCK_GUARD_VOID(sid)
 
-    std::vector<bitLenInt> bitArray(n);
-    for (uintq i = 0U; i < n; ++i) {
-        bitArray[i] = GetSimShardId(simulator, q[i]);
-    }
-
-    const bitLenInt end = simulator->GetQubitCount() - 1U;
-    for (uintq i = 0U; i < n; ++i) {
-        simulator->Swap(end - i, bitArray[i]);
-    }
-
     try {
-        QInterfacePtr partSim = simulator->Decompose(end - n, n);
+        QInterfacePtr partSim = simulator->Decompose(MapToEnd(simulator, n, q), (bitLenInt)n);
         simulator->Compose(partSim);
     } catch (const std::exception& ex) {
         simulatorErrors[sid] = 1;
         std::cout << ex.what() << std::endl;
     }
-
-    for (uintq i = 0U; i < n; ++i) {
-        simulator->Swap(end - i, bitArray[i]);
-    }
 }
 
 MICROSOFT_QUANTUM_DECL double GetUnitaryFidelity(_In_ uintq sid)
-- 
2.43.0


From 9b7ac1cfedbd72181ada0c1bb9ebb28ae2ba4450 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:19 +0000
Subject: [PATCH 098/104] fix: C API arithmetic and Pauli exponentials report a
 layer stack that has none

---
 src/pinvoke_api.cpp | 30 +++++++++++++++++++++++++-----
 1 file changed, 25 insertions(+), 5 deletions(-)

diff --git a/src/pinvoke_api.cpp b/src/pinvoke_api.cpp
index c12bfad..eb80c64 100644
--- a/src/pinvoke_api.cpp
+++ b/src/pinvoke_api.cpp
@@ -249,11 +249,21 @@
     }
 #endif
 
-#define QALU(qReg) std::dynamic_pointer_cast<QAlu>(qReg)
-#define QPARITY(qReg) std::dynamic_pointer_cast<QParity>(qReg)
-
 using namespace Qrack;
 
+// Not every layer stack implements QAlu and QParity, (such as QTensorNetwork on top).
+template <typename T> std::shared_ptr<T> CastOrThrow(QInterfacePtr simulator)
+{
+    std::shared_ptr<T> toRet = std::dynamic_pointer_cast<T>(simulator);
+    if (!toRet) {
+        throw std::domain_error("The simulator type does not support this operation!");
+    }
+    return toRet;
+}
+
+#define QALU(qReg) CastOrThrow<QAlu>(qReg)
+#define QPARITY(qReg) CastOrThrow<QParity>(qReg)
+
 qrack_rand_gen_ptr randNumGen = std::make_shared<qrack_rand_gen>(time(0));
 std::mutex metaOperationMutex;
 int metaError = 0;
@@ -1298,6 +1308,9 @@ MICROSOFT_QUANTUM_DECL double JointEnsembleProbability(
     double jointProb = (double)REAL1_DEFAULT_ARG;
 
     try {
+        // Refuse before the first gate.
+        QPARITY(simulator);
+
         TransformPauliBasis(simulator, n, b, q);
 
         jointProb = _JointEnsembleProbabilityHelper(simulator, n, b, q, false);
@@ -2101,9 +2114,11 @@ MICROSOFT_QUANTUM_DECL void Exp(
         } else {
             const bitCapInt mask = make_mask(simulator, qVec);
 
+            const QParityPtr parity = QPARITY(simulator);
+
             TransformPauliBasis(simulator, n, b, q);
 
-            QPARITY(simulator)->UniformParityRZ(mask, (real1_f)(-phi));
+            parity->UniformParityRZ(mask, (real1_f)(-phi));
 
             RevertPauliBasis(simulator, n, b, q);
         }
@@ -2144,9 +2159,11 @@ MICROSOFT_QUANTUM_DECL void MCExp(_In_ uintq sid, _In_ uintq n, _In_reads_(n) in
             }
             const bitCapInt mask = make_mask(simulator, qVec);
 
+            const QParityPtr parity = QPARITY(simulator);
+
             TransformPauliBasis(simulator, n, b, q);
 
-            QPARITY(simulator)->CUniformParityRZ(csVec, mask, (real1_f)(-phi));
+            parity->CUniformParityRZ(csVec, mask, (real1_f)(-phi));
 
             RevertPauliBasis(simulator, n, b, q);
         }
@@ -2216,6 +2233,9 @@ MICROSOFT_QUANTUM_DECL uintq Measure(_In_ uintq sid, _In_ uintq n, _In_reads_(n)
 
     uintq toRet = -1;
     try {
+        // Refuse before the first gate.
+        QPARITY(simulator);
+
         TransformPauliBasis(simulator, n, b, q);
 
         double jointProb = _JointEnsembleProbabilityHelper(simulator, n, b, q, true);
-- 
2.43.0


From ef01ebc3e9e1058439ebe63fef25f25c81547e89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:10 +0000
Subject: [PATCH 099/104] fix: QUnit::Hash, MUL, DIV, INCBCD, DECBCD and
 PhaseFlipIfLess discard cached probabilities after entangling, which fills
 the cache

---
 src/qunit.cpp | 27 ++++++++++++++++-----------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/src/qunit.cpp b/src/qunit.cpp
index 7637387..49b5611 100644
--- a/src/qunit.cpp
+++ b/src/qunit.cpp
@@ -3207,8 +3207,9 @@ void QUnit::INCBCD(const bitCapInt& toMod, bitLenInt start, bitLenInt length)
     }
 
     // BCD variants are low priority for optimization, for the time being.
+    QInterfacePtr unit = EntangleRange(start, length);
     DirtyShardRange(start, length);
-    std::dynamic_pointer_cast<QAlu>(EntangleRange(start, length))->INCBCD(toMod, shards[start].mapped, length);
+    std::dynamic_pointer_cast<QAlu>(unit)->INCBCD(toMod, shards[start].mapped, length);
 }
 
 void QUnit::DECBCD(const bitCapInt& toMod, bitLenInt start, bitLenInt length)
@@ -3218,8 +3219,9 @@ void QUnit::DECBCD(const bitCapInt& toMod, bitLenInt start, bitLenInt length)
     }
 
     // BCD variants are low priority for optimization, for the time being.
+    QInterfacePtr unit = EntangleRange(start, length);
     DirtyShardRange(start, length);
-    std::dynamic_pointer_cast<QAlu>(EntangleRange(start, length))->DECBCD(toMod, shards[start].mapped, length);
+    std::dynamic_pointer_cast<QAlu>(unit)->DECBCD(toMod, shards[start].mapped, length);
 }
 
 void QUnit::INCDECBCDC(const bitCapInt& toMod, bitLenInt start, bitLenInt length, bitLenInt carryIndex)
@@ -3255,12 +3257,13 @@ void QUnit::MUL(const bitCapInt& toMul, bitLenInt inOutStart, bitLenInt carrySta
         return SetReg(carryStart, length, (res >> length) & lengthMask);
     }
 
+    // Otherwise, form the potentially entangled representation:
+    QInterfacePtr unit = EntangleRange(inOutStart, length, carryStart, length);
+
     DirtyShardRange(inOutStart, length);
     DirtyShardRange(carryStart, length);
 
-    // Otherwise, form the potentially entangled representation:
-    std::dynamic_pointer_cast<QAlu>(EntangleRange(inOutStart, length, carryStart, length))
-        ->MUL(toMul, shards[inOutStart].mapped, shards[carryStart].mapped, length);
+    std::dynamic_pointer_cast<QAlu>(unit)->MUL(toMul, shards[inOutStart].mapped, shards[carryStart].mapped, length);
 }
 
 void QUnit::DIV(const bitCapInt& toDiv, bitLenInt inOutStart, bitLenInt carryStart, bitLenInt length)
@@ -3291,12 +3294,13 @@ void QUnit::DIV(const bitCapInt& toDiv, bitLenInt inOutStart, bitLenInt carrySta
         return;
     }
 
+    // Otherwise, form the potentially entangled representation:
+    QInterfacePtr unit = EntangleRange(inOutStart, length, carryStart, length);
+
     DirtyShardRange(inOutStart, length);
     DirtyShardRange(carryStart, length);
 
-    // Otherwise, form the potentially entangled representation:
-    std::dynamic_pointer_cast<QAlu>(EntangleRange(inOutStart, length, carryStart, length))
-        ->DIV(toDiv, shards[inOutStart].mapped, shards[carryStart].mapped, length);
+    std::dynamic_pointer_cast<QAlu>(unit)->DIV(toDiv, shards[inOutStart].mapped, shards[carryStart].mapped, length);
 }
 
 void QUnit::POWModNOut(
@@ -3654,8 +3658,9 @@ void QUnit::Hash(bitLenInt start, bitLenInt length, const unsigned char* values)
         return SetReg(start, length, value);
     }
 
+    QInterfacePtr unit = EntangleRange(start, length);
     DirtyShardRange(start, length);
-    std::dynamic_pointer_cast<QAlu>(EntangleRange(start, length))->Hash(shards[start].mapped, length, values);
+    std::dynamic_pointer_cast<QAlu>(unit)->Hash(shards[start].mapped, length, values);
 }
 
 void QUnit::PhaseFlipIfLess(const bitCapInt& greaterPerm, bitLenInt start, bitLenInt length)
@@ -3673,9 +3678,9 @@ void QUnit::PhaseFlipIfLess(const bitCapInt& greaterPerm, bitLenInt start, bitLe
         return;
     }
 
+    QInterfacePtr unit = EntangleRange(start, length);
     DirtyShardRange(start, length);
-    std::dynamic_pointer_cast<QAlu>(EntangleRange(start, length))
-        ->PhaseFlipIfLess(greaterPerm, shards[start].mapped, length);
+    std::dynamic_pointer_cast<QAlu>(unit)->PhaseFlipIfLess(greaterPerm, shards[start].mapped, length);
 }
 
 void QUnit::CPhaseFlipIfLess(const bitCapInt& greaterPerm, bitLenInt start, bitLenInt length, bitLenInt flagIndex)
-- 
2.43.0


From d3f5153c730dd2d5ec5966ad2171c7e46534b063 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:11 +0000
Subject: [PATCH 100/104] fix: the C API passes CLAND and its siblings their
 qubit and classical bit in the right order

---
 src/pinvoke_api.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/pinvoke_api.cpp b/src/pinvoke_api.cpp
index eb80c64..6e67feb 100644
--- a/src/pinvoke_api.cpp
+++ b/src/pinvoke_api.cpp
@@ -2486,7 +2486,7 @@ MICROSOFT_QUANTUM_DECL void CLAND(_In_ uintq sid, _In_ bool ci, _In_ uintq qi, _
 {
     SIMULATOR_LOCK_GUARD_VOID(sid)
     try {
-        simulator->CLAND(ci, GetSimShardId(simulator, qi), GetSimShardId(simulator, qo));
+        simulator->CLAND(GetSimShardId(simulator, qi), ci, GetSimShardId(simulator, qo));
     } catch (const std::exception& ex) {
         simulatorErrors[sid] = 1;
         std::cout << ex.what() << std::endl;
@@ -2497,7 +2497,7 @@ MICROSOFT_QUANTUM_DECL void CLOR(_In_ uintq sid, _In_ bool ci, _In_ uintq qi, _I
 {
     SIMULATOR_LOCK_GUARD_VOID(sid)
     try {
-        simulator->CLOR(ci, GetSimShardId(simulator, qi), GetSimShardId(simulator, qo));
+        simulator->CLOR(GetSimShardId(simulator, qi), ci, GetSimShardId(simulator, qo));
     } catch (const std::exception& ex) {
         simulatorErrors[sid] = 1;
         std::cout << ex.what() << std::endl;
@@ -2508,7 +2508,7 @@ MICROSOFT_QUANTUM_DECL void CLXOR(_In_ uintq sid, _In_ bool ci, _In_ uintq qi, _
 {
     SIMULATOR_LOCK_GUARD_VOID(sid)
     try {
-        simulator->CLXOR(ci, GetSimShardId(simulator, qi), GetSimShardId(simulator, qo));
+        simulator->CLXOR(GetSimShardId(simulator, qi), ci, GetSimShardId(simulator, qo));
     } catch (const std::exception& ex) {
         simulatorErrors[sid] = 1;
         std::cout << ex.what() << std::endl;
@@ -2519,7 +2519,7 @@ MICROSOFT_QUANTUM_DECL void CLNAND(_In_ uintq sid, _In_ bool ci, _In_ uintq qi,
 {
     SIMULATOR_LOCK_GUARD_VOID(sid)
     try {
-        simulator->CLNAND(ci, GetSimShardId(simulator, qi), GetSimShardId(simulator, qo));
+        simulator->CLNAND(GetSimShardId(simulator, qi), ci, GetSimShardId(simulator, qo));
     } catch (const std::exception& ex) {
         simulatorErrors[sid] = 1;
         std::cout << ex.what() << std::endl;
@@ -2530,7 +2530,7 @@ MICROSOFT_QUANTUM_DECL void CLNOR(_In_ uintq sid, _In_ bool ci, _In_ uintq qi, _
 {
     SIMULATOR_LOCK_GUARD_VOID(sid)
     try {
-        simulator->CLNOR(ci, GetSimShardId(simulator, qi), GetSimShardId(simulator, qo));
+        simulator->CLNOR(GetSimShardId(simulator, qi), ci, GetSimShardId(simulator, qo));
     } catch (const std::exception& ex) {
         simulatorErrors[sid] = 1;
         std::cout << ex.what() << std::endl;
@@ -2541,7 +2541,7 @@ MICROSOFT_QUANTUM_DECL void CLXNOR(_In_ uintq sid, _In_ bool ci, _In_ uintq qi,
 {
     SIMULATOR_LOCK_GUARD_VOID(sid)
     try {
-        simulator->CLXNOR(ci, GetSimShardId(simulator, qi), GetSimShardId(simulator, qo));
+        simulator->CLXNOR(GetSimShardId(simulator, qi), ci, GetSimShardId(simulator, qo));
     } catch (const std::exception& ex) {
         simulatorErrors[sid] = 1;
         std::cout << ex.what() << std::endl;
-- 
2.43.0


From 3c8930f6e4838cb80313ed568d8b806d2c2966f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:35 +0000
Subject: [PATCH 101/104] fix: a stabilizer hybrid or decision tree without
 named engines uses an engine type this build has

---
 include/qbdt.hpp              | 4 ++++
 include/qstabilizerhybrid.hpp | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/include/qbdt.hpp b/include/qbdt.hpp
index f65858f..c34aa83 100644
--- a/include/qbdt.hpp
+++ b/include/qbdt.hpp
@@ -171,7 +171,11 @@ public:
         bool useHostMem = false, int64_t deviceId = -1, bool useHardwareRNG = true, bool useSparseStateVec = false,
         real1_f norm_thresh = REAL1_EPSILON, std::vector<int64_t> devList = {}, bitLenInt qubitThreshold = 0U,
         real1_f separation_thresh = _qrack_qunit_sep_thresh)
+#if ENABLE_OPENCL || ENABLE_CUDA
         : QBdt({ QINTERFACE_HYBRID }, qBitCount, initState, rgp, phaseFac, doNorm, randomGlobalPhase, useHostMem,
+#else
+        : QBdt({ QINTERFACE_OPTIMAL_BASE }, qBitCount, initState, rgp, phaseFac, doNorm, randomGlobalPhase, useHostMem,
+#endif
               deviceId, useHardwareRNG, useSparseStateVec, norm_thresh, devList, qubitThreshold, separation_thresh)
     {
     }
diff --git a/include/qstabilizerhybrid.hpp b/include/qstabilizerhybrid.hpp
index 9eb2e30..668f823 100644
--- a/include/qstabilizerhybrid.hpp
+++ b/include/qstabilizerhybrid.hpp
@@ -419,7 +419,11 @@ public:
         bool useHostMem = false, int64_t deviceId = -1, bool useHardwareRNG = true, bool ignored = false,
         real1_f norm_thresh = REAL1_EPSILON, std::vector<int64_t> devList = {}, bitLenInt qubitThreshold = 0U,
         real1_f separation_thresh = _qrack_qunit_sep_thresh)
+#if ENABLE_OPENCL || ENABLE_CUDA
         : QStabilizerHybrid({ QINTERFACE_HYBRID }, qBitCount, initState, rgp, phaseFac, doNorm, randomGlobalPhase,
+#else
+        : QStabilizerHybrid({ QINTERFACE_OPTIMAL_BASE }, qBitCount, initState, rgp, phaseFac, doNorm, randomGlobalPhase,
+#endif
               useHostMem, deviceId, useHardwareRNG, ignored, norm_thresh, devList, qubitThreshold, separation_thresh)
     {
     }
-- 
2.43.0


From 67c3accc0133d218a21f8820e31275db129097c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:17 +0000
Subject: [PATCH 102/104] fix: QUnit::CUniformParityRZ keeps its controls'
 indices, and reads mapped positions after entangling

---
 src/qunit.cpp | 21 +++++++--------------
 1 file changed, 7 insertions(+), 14 deletions(-)

diff --git a/src/qunit.cpp b/src/qunit.cpp
index 49b5611..ef09e33 100644
--- a/src/qunit.cpp
+++ b/src/qunit.cpp
@@ -1291,28 +1291,21 @@ void QUnit::CUniformParityRZ(const std::vector<bitLenInt>& cControls, const bitC
         }
     }
 
-    for (const bitLenInt& eIndex : eIndices) {
-        shards[eIndex].isPhaseDirty = true;
-    }
-
-    QInterfacePtr unit = Entangle(eIndices);
+    std::vector<bitLenInt> allIndices(eIndices);
+    allIndices.insert(allIndices.end(), controls.begin(), controls.end());
+    QInterfacePtr unit = Entangle(allIndices);
 
+    // Entangling could have moved the mapped positions, so we can only read them, now.
     bitCapInt mappedMask = ZERO_BCI;
     for (const bitLenInt& eIndex : eIndices) {
-        bi_or_ip(&mappedMask, pow2(shards[eIndex].mapped));
+        QEngineShard& eShard = shards[eIndex];
+        bi_or_ip(&mappedMask, pow2(eShard.mapped));
+        eShard.isPhaseDirty = true;
     }
 
     if (controls.empty()) {
         std::dynamic_pointer_cast<QParity>(unit)->UniformParityRZ(mappedMask, flipResult ? -angle : angle);
     } else {
-        std::vector<bitLenInt*> ebits(controls.size());
-        for (size_t i = 0U; i < controls.size(); ++i) {
-            ebits[i] = &controls[i];
-        }
-
-        Entangle(ebits);
-        unit = Entangle({ controls[0U], eIndices[0U] });
-
         std::vector<bitLenInt> controlsMapped(controls.size());
         for (size_t i = 0U; i < controls.size(); ++i) {
             QEngineShard& cShard = shards[controls[i]];
-- 
2.43.0


From eaba2340b8254b80be2da410fdb8bb0d58f9d560 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:49 +0000
Subject: [PATCH 103/104] fix: QUnit::MUL clears the carry itself, so that
 collapse updates what is cached

---
 src/qunit.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/qunit.cpp b/src/qunit.cpp
index ef09e33..2700833 100644
--- a/src/qunit.cpp
+++ b/src/qunit.cpp
@@ -3250,6 +3250,9 @@ void QUnit::MUL(const bitCapInt& toMul, bitLenInt inOutStart, bitLenInt carrySta
         return SetReg(carryStart, length, (res >> length) & lengthMask);
     }
 
+    // (The carry is cleared, here, since its measurement could collapse any qubit.)
+    SetReg(carryStart, length, ZERO_BCI);
+
     // Otherwise, form the potentially entangled representation:
     QInterfacePtr unit = EntangleRange(inOutStart, length, carryStart, length);
 
-- 
2.43.0


From 7e7b4b23fc9f4c19842531c38b25fda398aa28d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:49 +0000
Subject: [PATCH 104/104] fix: QStabilizerHybrid::Prob rotates a qubit that a
 measurement left separable in the X or Y basis

---
 src/qstabilizerhybrid.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/qstabilizerhybrid.cpp b/src/qstabilizerhybrid.cpp
index 42c4af9..3f63e29 100644
--- a/src/qstabilizerhybrid.cpp
+++ b/src/qstabilizerhybrid.cpp
@@ -1448,6 +1448,11 @@ real1_f QStabilizerHybrid::Prob(bitLenInt qubit)
 
     const MpsShardPtr& shard = shards[qubit];
 
+    if (shard && !shard->IsPhase() && !shard->IsInvert() && !stabilizer->IsSeparableZ(qubit)) {
+        // Measuring other qubits might have left this one separable, in another basis.
+        CacheEigenstate(qubit);
+    }
+
     if (shard && shard->IsInvert()) {
         InvertBuffer(qubit);
     }
-- 
2.43.0

