From 1a0190d920759bf9c7251574ba71eb62621fe3f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:15 +0000
Subject: [PATCH 001/106] fix: exp2x2()/log2x2() paired each eigenvector with
 the other eigenvalue

---
 src/common/functions.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/common/functions.cpp b/src/common/functions.cpp
index b5d28b1..29acbf0 100644
--- a/src/common/functions.cpp
+++ b/src/common/functions.cpp
@@ -148,10 +148,11 @@ void _expLog2x2(const complex* matrix2x2, complex* outMatrix2x2, bool isExp)
         jacobian[1U] = matrix2x2[1U];
         jacobian[3U] = matrix2x2[3U] - eigenvalue2;
 
-        outMatrix2x2[0U] = eigenvalue1;
+        // By Cayley-Hamilton, a column of (A - eigenvalue1) is an eigenvector of eigenvalue2, and vice versa.
+        outMatrix2x2[0U] = eigenvalue2;
         outMatrix2x2[1U] = ZERO_CMPLX;
         outMatrix2x2[2U] = ZERO_CMPLX;
-        outMatrix2x2[3U] = eigenvalue2;
+        outMatrix2x2[3U] = eigenvalue1;
 
         real1 nrm = (real1)std::sqrt((real1_s)(norm(jacobian[0U]) + norm(jacobian[2U])));
         jacobian[0U] /= nrm;
-- 
2.43.0


From 70907b44786100a33bea7381960f0adc4d283f77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:15 +0000
Subject: [PATCH 002/106] fix: TimeEvolve() with a uniformly controlled term
 applied e^(-H*t) instead of e^(-i*H*t)

---
 src/qinterface/gates.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/qinterface/gates.cpp b/src/qinterface/gates.cpp
index 7065399..a851251 100644
--- a/src/qinterface/gates.cpp
+++ b/src/qinterface/gates.cpp
@@ -457,6 +457,9 @@ void QInterface::TimeEvolve(Hamiltonian h, real1_f timeDiff_f)
 
         if (op->uniform) {
             std::unique_ptr<complex[]> expMtrx(new complex[maxJ]);
+            for (bitCapIntOcl j = 0U; j < maxJ; ++j) {
+                mtrx[j] = I_CMPLX * mtrx[j];
+            }
             for (bitCapIntOcl j = 0U; j < pow2(op->controls.size()); ++j) {
                 exp2x2(mtrx.get() + (j * 4U), expMtrx.get() + (j * 4U));
             }
-- 
2.43.0


From f272e7d8b1099901ce09ae4c6b85d73af8882bcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:15 +0000
Subject: [PATCH 003/106] fix: QInterface::FSim() applied theta twice over, and
 nothing at theta=pi

---
 include/qinterface.hpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/include/qinterface.hpp b/include/qinterface.hpp
index 70ef79c..73c4b0e 100644
--- a/include/qinterface.hpp
+++ b/include/qinterface.hpp
@@ -2388,7 +2388,11 @@ public:
         MCPhase(controls, ONE_CMPLX, expIPhi, qubit2);
 
         if ((2 * abs(sinTheta)) <= (FP_NORM_EPSILON * PI_R1)) {
-            // ISWAP power is 0.
+            // ISWAP power is 0 or 2.
+            if (cos(theta) < 0) {
+                Z(qubit1);
+                Z(qubit2);
+            }
             return;
         }
 
@@ -2408,7 +2412,7 @@ public:
         H(qubit1);
         H(qubit2);
         CNOT(qubit1, qubit2);
-        RZ(2 * theta, qubit2);
+        RZ(theta, qubit2);
         CNOT(qubit1, qubit2);
         H(qubit2);
         H(qubit1);
@@ -2419,7 +2423,7 @@ public:
         H(qubit1);
         H(qubit2);
         CNOT(qubit1, qubit2);
-        RZ(2 * theta, qubit2);
+        RZ(theta, qubit2);
         CNOT(qubit1, qubit2);
         H(qubit2);
         H(qubit1);
-- 
2.43.0


From 35b1d43f30e5930c744e31dcc53c5c7c3b74ced2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:15 +0000
Subject: [PATCH 004/106] fix: QUnitClifford::FSim() used unmapped qubit
 indices in the entangled unit

---
 include/qunitclifford.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/qunitclifford.hpp b/include/qunitclifford.hpp
index cc260e5..2c78c77 100644
--- a/include/qunitclifford.hpp
+++ b/include/qunitclifford.hpp
@@ -782,7 +782,7 @@ public:
         std::vector<bitLenInt> bits{ c, t };
         std::vector<bitLenInt*> ebits{ &bits[0U], &bits[1U] };
         QStabilizerPtr unit = EntangleInCurrentBasis(ebits.begin(), ebits.end());
-        unit->FSim(theta, phi, c, t);
+        unit->FSim(theta, phi, bits[0U], bits[1U]);
         CombinePhaseOffsets(unit);
         TrySeparate(c);
         TrySeparate(t);
-- 
2.43.0


From d0b2f9bbbae1a9f3382a092589f0e767183defaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:15 +0000
Subject: [PATCH 005/106] fix: FSim() of QStabilizer, QBdt and QPager used the
 opposite phi sign and dropped Z on both qubits at theta=pi

---
 src/qbdt/tree.cpp   |  8 ++++++--
 src/qpager.cpp      |  8 ++++++--
 src/qstabilizer.cpp | 17 +++++++++++++----
 3 files changed, 25 insertions(+), 8 deletions(-)

diff --git a/src/qbdt/tree.cpp b/src/qbdt/tree.cpp
index 671a62e..7fc429a 100644
--- a/src/qbdt/tree.cpp
+++ b/src/qbdt/tree.cpp
@@ -760,10 +760,14 @@ void QBdt::FSim(real1_f theta, real1_f phi, bitLenInt qubit1, bitLenInt qubit2)
     const std::vector<bitLenInt> controls{ qubit1 };
     const real1_f sinTheta = sin(theta);
     if ((sinTheta * sinTheta) <= FP_NORM_EPSILON_F) {
-        return MCPhase(controls, ONE_CMPLX, exp(complex(ZERO_R1, (real1)phi)), qubit2);
+        if (cos(theta) < 0) {
+            Z(qubit1);
+            Z(qubit2);
+        }
+        return MCPhase(controls, ONE_CMPLX, exp(complex(ZERO_R1, -(real1)phi)), qubit2);
     }
 
-    const complex expIPhi = exp(complex(ZERO_R1, (real1)phi));
+    const complex expIPhi = exp(complex(ZERO_R1, -(real1)phi));
     const real1_f sinThetaDiffNeg = ONE_R1_F + sinTheta;
     if ((sinThetaDiffNeg * sinThetaDiffNeg) <= FP_NORM_EPSILON_F) {
         ISwap(qubit1, qubit2);
diff --git a/src/qpager.cpp b/src/qpager.cpp
index 80c4428..329bb99 100644
--- a/src/qpager.cpp
+++ b/src/qpager.cpp
@@ -1424,10 +1424,14 @@ void QPager::FSim(real1_f theta, real1_f phi, bitLenInt qubit1, bitLenInt qubit2
     const real1 sinTheta = (real1)sin(theta);
 
     if ((sinTheta * sinTheta) <= FP_NORM_EPSILON) {
-        return MCPhase(controls, ONE_CMPLX, exp(complex(ZERO_R1, (real1)phi)), qubit2);
+        if (cos(theta) < 0) {
+            Z(qubit1);
+            Z(qubit2);
+        }
+        return MCPhase(controls, ONE_CMPLX, exp(complex(ZERO_R1, -(real1)phi)), qubit2);
     }
 
-    const complex expIPhi = exp(complex(ZERO_R1, (real1)phi));
+    const complex expIPhi = exp(complex(ZERO_R1, -(real1)phi));
 
     const real1 sinThetaDiffNeg = ONE_R1 + sinTheta;
     if ((sinThetaDiffNeg * sinThetaDiffNeg) <= FP_NORM_EPSILON) {
diff --git a/src/qstabilizer.cpp b/src/qstabilizer.cpp
index df74a39..45e9ac0 100644
--- a/src/qstabilizer.cpp
+++ b/src/qstabilizer.cpp
@@ -32,7 +32,7 @@
 #endif
 
 #define IS_0_R1(r) (abs(r) <= REAL1_EPSILON)
-#define IS_1_R1(r) (abs(r) <= REAL1_EPSILON)
+#define IS_1_R1(r) (abs(ONE_R1 - (r)) <= REAL1_EPSILON)
 
 namespace Qrack {
 
@@ -2357,13 +2357,22 @@ void QStabilizer::FSim(real1_f theta, real1_f phi, bitLenInt qubit1, bitLenInt q
     const std::vector<bitLenInt> controls{ qubit1 };
     real1 sinTheta = (real1)sin(theta);
 
-    if (IS_0_R1(sinTheta)) {
-        return MCPhase(controls, ONE_CMPLX, exp(complex(ZERO_R1, (real1)phi)), qubit2);
+    if ((sinTheta * sinTheta) <= FP_NORM_EPSILON) {
+        if (cos(theta) < 0) {
+            Z(qubit1);
+            Z(qubit2);
+        }
+        return MCPhase(controls, ONE_CMPLX, exp(complex(ZERO_R1, -(real1)phi)), qubit2);
     }
 
     if (IS_1_R1(-sinTheta)) {
         ISwap(qubit1, qubit2);
-        return MCPhase(controls, ONE_CMPLX, exp(complex(ZERO_R1, (real1)phi)), qubit2);
+        return MCPhase(controls, ONE_CMPLX, exp(complex(ZERO_R1, -(real1)phi)), qubit2);
+    }
+
+    if (IS_1_R1(sinTheta)) {
+        IISwap(qubit1, qubit2);
+        return MCPhase(controls, ONE_CMPLX, exp(complex(ZERO_R1, -(real1)phi)), qubit2);
     }
 
     throw std::domain_error("QStabilizer::FSim() not implemented for non-Clifford/Pauli cases!");
-- 
2.43.0


From e538bc38d50f821443e15291730a2a305de51fbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:49 +0000
Subject: [PATCH 006/106] fix: QEngine::FSim() skipped the exchange block at
 theta=pi

---
 src/qengine/qengine.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/qengine/qengine.cpp b/src/qengine/qengine.cpp
index c9a1d73..858f395 100644
--- a/src/qengine/qengine.cpp
+++ b/src/qengine/qengine.cpp
@@ -448,8 +448,8 @@ void QEngine::FSim(real1_f theta, real1_f phi, bitLenInt qubit1, bitLenInt qubit
     }
 
     const real1 sinTheta = (real1)sin(theta);
-    if ((sinTheta * sinTheta) > FP_NORM_EPSILON) {
-        const real1 cosTheta = (real1)cos(theta);
+    const real1 cosTheta = (real1)cos(theta);
+    if (((sinTheta * sinTheta) > FP_NORM_EPSILON) || (cosTheta < ZERO_R1)) {
         const complex fSimSwap[4U]{ complex(cosTheta, ZERO_R1), complex(ZERO_R1, -sinTheta),
             complex(ZERO_R1, -sinTheta), complex(cosTheta, ZERO_R1) };
         const bitCapIntOcl qPowersSorted[2U]{ pow2Ocl(qubit1), pow2Ocl(qubit2) };
-- 
2.43.0


From e5ee694b1270058d1f67a0c5f88e2dd65179958b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:11 +0000
Subject: [PATCH 007/106] fix: INCC/DECC/INCSC/DECSC dropped the carry when
 carry-in and operand sum to the register size

---
 src/qalu.cpp | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/src/qalu.cpp b/src/qalu.cpp
index 0f825a3..d77b2ef 100644
--- a/src/qalu.cpp
+++ b/src/qalu.cpp
@@ -51,6 +51,10 @@ void QAlu::INCC(const bitCapInt& toAdd, bitLenInt start, bitLenInt length, bitLe
 
     const bool hasCarry = M(carryIndex);
     if (hasCarry) {
+        if (bi_compare_0((toAdd + 1U) & (pow2(length) - ONE_BCI)) == 0) {
+            // Every register value carries out, to itself.
+            return;
+        }
         X(carryIndex);
         INCDECC(toAdd + 1U, start, length, carryIndex);
     } else {
@@ -64,6 +68,10 @@ void QAlu::DECC(const bitCapInt& toSub, bitLenInt start, bitLenInt length, bitLe
     const bool hasCarry = M(carryIndex);
     bitCapInt invToSub = pow2(length) - toSub;
     if (hasCarry) {
+        if (bi_compare_0(toSub & (pow2(length) - ONE_BCI)) == 0) {
+            // Every register value carries out, to itself.
+            return;
+        }
         X(carryIndex);
     } else {
         --invToSub;
@@ -83,6 +91,10 @@ void QAlu::INCSC(
 {
     const bool hasCarry = M(carryIndex);
     if (hasCarry) {
+        if (bi_compare_0((toAdd + 1U) & (pow2(length) - ONE_BCI)) == 0) {
+            // Every register value carries out, to itself.
+            return;
+        }
         X(carryIndex);
         INCDECSC(toAdd + 1U, start, length, overflowIndex, carryIndex);
     } else {
@@ -101,6 +113,10 @@ void QAlu::DECSC(
     const bool hasCarry = M(carryIndex);
     bitCapInt invToSub = pow2(length) - toSub;
     if (hasCarry) {
+        if (bi_compare_0(toSub & (pow2(length) - ONE_BCI)) == 0) {
+            // Every register value carries out, to itself.
+            return;
+        }
         X(carryIndex);
     } else {
         --invToSub;
@@ -119,6 +135,10 @@ void QAlu::INCSC(const bitCapInt& toAdd, bitLenInt start, bitLenInt length, bitL
 {
     const bool hasCarry = M(carryIndex);
     if (hasCarry) {
+        if (bi_compare_0((toAdd + 1U) & (pow2(length) - ONE_BCI)) == 0) {
+            // Every register value carries out, to itself.
+            return;
+        }
         X(carryIndex);
         INCDECSC(toAdd + 1U, start, length, carryIndex);
     } else {
@@ -137,6 +157,10 @@ void QAlu::DECSC(const bitCapInt& toSub, bitLenInt start, bitLenInt length, bitL
     const bool hasCarry = M(carryIndex);
     bitCapInt invToSub = pow2(length) - toSub;
     if (hasCarry) {
+        if (bi_compare_0(toSub & (pow2(length) - ONE_BCI)) == 0) {
+            // Every register value carries out, to itself.
+            return;
+        }
         X(carryIndex);
     } else {
         --invToSub;
-- 
2.43.0


From 749c083f98d73a879bf18755edb76821ea694800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:25 +0000
Subject: [PATCH 008/106] fix: ADC/IADC/CADC/CIADC on registers of 2 or more
 qubits fed the wrong qubit as carry

---
 src/qinterface/arithmetic.cpp | 60 ++++++++---------------------------
 1 file changed, 14 insertions(+), 46 deletions(-)

diff --git a/src/qinterface/arithmetic.cpp b/src/qinterface/arithmetic.cpp
index e80f5b6..01f2b80 100644
--- a/src/qinterface/arithmetic.cpp
+++ b/src/qinterface/arithmetic.cpp
@@ -333,18 +333,11 @@ void QInterface::ADC(bitLenInt input1, bitLenInt input2, bitLenInt output, bitLe
         return;
     }
 
-    FullAdd(input1, input2, carry, output);
-
-    if (length == 1U) {
-        return Swap(carry, output);
-    }
-
-    // Otherwise, length > 1.
-    const bitLenInt end = length - 1U;
-    for (bitLenInt i = 1U; i < end; ++i) {
-        FullAdd(input1 + i, input2 + i, output + i, output + i + 1U);
+    // FullAdd() leaves the sum in "carry" and the carry-out in "output": exchange them, before the next bit.
+    for (bitLenInt i = 0U; i < length; ++i) {
+        FullAdd(input1 + i, input2 + i, carry, output + i);
+        Swap(carry, output + i);
     }
-    FullAdd(input1 + end, input2 + end, output + end, carry);
 }
 
 void QInterface::IADC(bitLenInt input1, bitLenInt input2, bitLenInt output, bitLenInt length, bitLenInt carry)
@@ -353,19 +346,10 @@ void QInterface::IADC(bitLenInt input1, bitLenInt input2, bitLenInt output, bitL
         return;
     }
 
-    if (length == 1U) {
-        Swap(carry, output);
-
-        return IFullAdd(input1, input2, carry, output);
-    }
-
-    // Otherwise, length > 1.
-    const bitLenInt end = length - 1U;
-    IFullAdd(input1 + end, input2 + end, output + end, carry);
-    for (bitLenInt i = (end - 1); i > 0U; i--) {
-        IFullAdd(input1 + i, input2 + i, output + i, output + i + 1U);
+    for (bitLenInt i = length; i > 0U; --i) {
+        Swap(carry, output + i - 1U);
+        IFullAdd(input1 + i - 1U, input2 + i - 1U, carry, output + i - 1U);
     }
-    IFullAdd(input1, input2, carry, output);
 }
 
 void QInterface::CADC(const std::vector<bitLenInt>& controls, bitLenInt input1, bitLenInt input2, bitLenInt output,
@@ -375,18 +359,11 @@ void QInterface::CADC(const std::vector<bitLenInt>& controls, bitLenInt input1,
         return;
     }
 
-    CFullAdd(controls, input1, input2, carry, output);
-
-    if (length == 1) {
-        return CSwap(controls, carry, output);
-    }
-
-    // Otherwise, length > 1.
-    const bitLenInt end = length - 1U;
-    for (bitLenInt i = 1; i < end; ++i) {
-        CFullAdd(controls, input1 + i, input2 + i, output + i, output + i + 1U);
+    // CFullAdd() leaves the sum in "carry" and the carry-out in "output": exchange them, before the next bit.
+    for (bitLenInt i = 0U; i < length; ++i) {
+        CFullAdd(controls, input1 + i, input2 + i, carry, output + i);
+        CSwap(controls, carry, output + i);
     }
-    CFullAdd(controls, input1 + end, input2 + end, output + end, carry);
 }
 
 void QInterface::CIADC(const std::vector<bitLenInt>& controls, bitLenInt input1, bitLenInt input2, bitLenInt output,
@@ -396,19 +373,10 @@ void QInterface::CIADC(const std::vector<bitLenInt>& controls, bitLenInt input1,
         return;
     }
 
-    if (length == 1U) {
-        CSwap(controls, carry, output);
-
-        return CIFullAdd(controls, input1, input2, carry, output);
-    }
-
-    // Otherwise, length > 1.
-    const bitLenInt end = length - 1U;
-    CIFullAdd(controls, input1 + end, input2 + end, output + end, carry);
-    for (bitLenInt i = (end - 1); i > 0U; i--) {
-        CIFullAdd(controls, input1 + i, input2 + i, output + i, output + i + 1U);
+    for (bitLenInt i = length; i > 0U; --i) {
+        CSwap(controls, carry, output + i - 1U);
+        CIFullAdd(controls, input1 + i - 1U, input2 + i - 1U, carry, output + i - 1U);
     }
-    CIFullAdd(controls, input1, input2, carry, output);
 }
 
 } // namespace Qrack
-- 
2.43.0


From f43abdcf33d11701542f5796caaff0703a2ff930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:25 +0000
Subject: [PATCH 009/106] fix: IndexedSBC() skipped valueLength bits instead of
 the carry bit, losing amplitudes

---
 src/qengine/arithmetic.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qengine/arithmetic.cpp b/src/qengine/arithmetic.cpp
index 67d640d..d6a07a1 100644
--- a/src/qengine/arithmetic.cpp
+++ b/src/qengine/arithmetic.cpp
@@ -1122,7 +1122,7 @@ bitCapInt QEngineCPU::IndexedSBC(bitLenInt indexStart, bitLenInt indexLength, bi
     const bitCapIntOcl otherMask = (maxQPowerOcl - 1U) & (~(inputMask | outputMask | carryMask));
     const bitCapIntOcl skipPower = pow2Ocl(carryIndex);
 
-    par_for_skip(0, maxQPowerOcl, skipPower, valueLength, [&](const bitCapIntOcl& lcv, const unsigned& cpu) {
+    par_for_skip(0, maxQPowerOcl, skipPower, 1U, [&](const bitCapIntOcl& lcv, const unsigned& cpu) {
         // These are qubits that are not directly involved in the
         // operation. We iterate over all of their possibilities, but their
         // input value matches their output value:
-- 
2.43.0


From 2bdc070af545c72812b9c114f11366d78358ac2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:57 +0000
Subject: [PATCH 010/106] fix: QInterface INCC/DECC dropped the carry when
 carry-in and operand sum to the register size

---
 include/qinterface.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/qinterface.hpp b/include/qinterface.hpp
index 73c4b0e..f1aefb3 100644
--- a/include/qinterface.hpp
+++ b/include/qinterface.hpp
@@ -2145,6 +2145,10 @@ public:
     {
         const bool hasCarry = M(carryIndex);
         if (hasCarry) {
+            if (bi_compare_0((toAdd + 1U) & (pow2(length) - ONE_BCI)) == 0) {
+                // Every register value carries out, to itself.
+                return;
+            }
             X(carryIndex);
             INCDECC(toAdd + 1U, start, length, carryIndex);
         } else {
@@ -2158,6 +2162,10 @@ public:
         const bool hasCarry = M(carryIndex);
         bitCapInt invToSub = pow2(length) - toSub;
         if (hasCarry) {
+            if (bi_compare_0(toSub & (pow2(length) - ONE_BCI)) == 0) {
+                // Every register value carries out, to itself.
+                return;
+            }
             X(carryIndex);
         } else {
             --invToSub;
-- 
2.43.0


From 1c114705278d3fbc8911dd938f3288253e219e11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:57 +0000
Subject: [PATCH 011/106] fix: QInterface::INCDECC() carried into qubit (start
 + carryIndex)

---
 src/qinterface/arithmetic.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qinterface/arithmetic.cpp b/src/qinterface/arithmetic.cpp
index 01f2b80..b785999 100644
--- a/src/qinterface/arithmetic.cpp
+++ b/src/qinterface/arithmetic.cpp
@@ -68,7 +68,7 @@ void QInterface::INCDECC(const bitCapInt& toAdd, bitLenInt start, bitLenInt leng
         }
         X(start + i);
         for (bitLenInt j = 0U; j < (length - i); ++j) {
-            const bitLenInt target = start + (((i + j + 1U) == length) ? carryIndex : ((i + j + 1U) % length));
+            const bitLenInt target = ((i + j + 1U) == length) ? carryIndex : (start + i + j + 1U);
             MACInvert(
                 std::vector<bitLenInt>(bits.begin() + i, bits.begin() + i + j + 1U), ONE_CMPLX, ONE_CMPLX, target);
         }
-- 
2.43.0


From 860c93d17a841f5bb89bc98a2108909d20f04fcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:30 +0000
Subject: [PATCH 012/106] fix: QEngine::ForceM(bits, values) ignored the forced
 value of a single bit, and doApply=false

---
 src/qengine/qengine.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/qengine/qengine.cpp b/src/qengine/qengine.cpp
index 858f395..3f4827a 100644
--- a/src/qengine/qengine.cpp
+++ b/src/qengine/qengine.cpp
@@ -122,7 +122,7 @@ bitCapInt QEngine::ForceM(const std::vector<bitLenInt>& bits, const std::vector<
 
     // Single bit operations are better optimized for this special case:
     if (bits.size() == 1U) {
-        if (ForceM(bits[0U], values.empty() ? false : values[0U], false, doApply)) {
+        if (ForceM(bits[0U], values.empty() ? false : values[0U], !values.empty(), doApply)) {
             return pow2(bits[0U]);
         }
 
@@ -147,7 +147,7 @@ bitCapInt QEngine::ForceM(const std::vector<bitLenInt>& bits, const std::vector<
         }
         real1_f nrmlzr = ProbMask(regMask, result);
         complex nrm = phase / (real1)(std::sqrt((real1_s)nrmlzr));
-        if ((ONE_R1_F - nrmlzr) > FP_NORM_EPSILON) {
+        if (doApply && ((ONE_R1_F - nrmlzr) > FP_NORM_EPSILON)) {
             ApplyM(regMask, (bitCapInt)result, nrm);
         }
 
-- 
2.43.0


From 88e3622d5f39920c98543ac1a2e0b44ae459349f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:49 +0000
Subject: [PATCH 013/106] fix: QEngine::ForceM(bits) could read past the
 probability array and pick a zero-probability outcome

---
 src/qengine/qengine.cpp | 26 ++++++++++----------------
 1 file changed, 10 insertions(+), 16 deletions(-)

diff --git a/src/qengine/qengine.cpp b/src/qengine/qengine.cpp
index 3f4827a..9873a94 100644
--- a/src/qengine/qengine.cpp
+++ b/src/qengine/qengine.cpp
@@ -165,27 +165,21 @@ bitCapInt QEngine::ForceM(const std::vector<bitLenInt>& bits, const std::vector<
 
     ProbMaskAll(regMask, probArray.get());
 
-    bitCapIntOcl lcv = 0U;
-    real1 lowerProb = probArray[0U];
+    // Choose among the outcomes of nonzero probability, only. (If rounding leaves the total short of "prob," then the last
+    // of these is the outcome.)
+    real1 lowerProb = ZERO_R1;
     bitCapIntOcl result = lengthPower - 1U;
-
-    /*
-     * The value of 'lcv' should not exceed lengthPower unless the stateVec is
-     * in a bug-induced topology - some value in stateVec must always be a
-     * vector.
-     */
     real1 nrmlzr = ONE_R1;
-    while ((lowerProb < prob) && (lcv < lengthPower)) {
-        ++lcv;
-        lowerProb += probArray[lcv];
-        if (probArray[lcv] > ZERO_R1) {
-            nrmlzr = probArray[lcv];
-            result = lcv;
+    for (bitCapIntOcl lcv = 0U; lcv < lengthPower; ++lcv) {
+        if (probArray[lcv] <= ZERO_R1) {
+            continue;
         }
-    }
-    if (lcv < lengthPower) {
+        lowerProb += probArray[lcv];
         nrmlzr = probArray[lcv];
         result = lcv;
+        if (lowerProb >= prob) {
+            break;
+        }
     }
 
     probArray.reset();
-- 
2.43.0


From 13d2e8d418a151f2d8a263f5c6b5a4bc911ee5b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:20 +0000
Subject: [PATCH 014/106] fix: QEngineCPU Decompose/Dispose averaged phase
 angles (wrong across the branch cut, and a data race); full-length case
 overran the state vector

---
 src/qengine/state.cpp | 105 +++++++++++++++++-------------------------
 1 file changed, 42 insertions(+), 63 deletions(-)

diff --git a/src/qengine/state.cpp b/src/qengine/state.cpp
index 0eb31c9..68b22f5 100644
--- a/src/qengine/state.cpp
+++ b/src/qengine/state.cpp
@@ -12,6 +12,7 @@
 
 #include "qengine_cpu.hpp"
 
+#include <algorithm>
 #include <chrono>
 #include <thread>
 
@@ -1142,7 +1143,9 @@ void QEngineCPU::DecomposeDispose(bitLenInt start, bitLenInt length, QEngineCPUP
     }
 
     if (!nLength) {
+        Finish();
         if (destination) {
+            destination->Dump();
             destination->stateVec = stateVec;
         }
         stateVec = nullptr;
@@ -1173,76 +1176,56 @@ void QEngineCPU::DecomposeDispose(bitLenInt start, bitLenInt length, QEngineCPUP
     }
     Finish();
 
-    if (destination) {
-        par_for(0U, remainderPower, [&](const bitCapIntOcl& lcv, const unsigned& cpu) {
-            bitCapIntOcl j = lcv & pow2MaskOcl(start);
-            j |= (lcv ^ j) << length;
-
-            for (bitCapIntOcl k = 0U; k < partPower; ++k) {
-                const complex amp = stateVec->read(j | (k << start));
-                const real1 nrm = norm(amp);
-                remainderStateProb[lcv] += nrm;
-                if (nrm > amplitudeFloor) {
-                    partStateAngle[k] += arg(amp) * nrm;
-                }
-            }
-        });
-        par_for(0U, partPower, [&](const bitCapIntOcl& lcv, const unsigned& cpu) {
-            const bitCapIntOcl startMask = pow2MaskOcl(start);
-            const bitCapIntOcl j = lcv << start;
+    const bitCapIntOcl startMask = pow2MaskOcl(start);
+    par_for(0U, remainderPower, [&](const bitCapIntOcl& lcv, const unsigned& cpu) {
+        bitCapIntOcl j = lcv & startMask;
+        j |= (lcv ^ j) << length;
 
-            for (bitCapIntOcl k = 0U; k < remainderPower; ++k) {
-                bitCapIntOcl l = k & startMask;
-                l |= j | ((k ^ l) << length);
+        for (bitCapIntOcl k = 0U; k < partPower; ++k) {
+            remainderStateProb[lcv] += norm(stateVec->read(j | (k << start)));
+        }
+    });
 
-                const complex amp = stateVec->read(l);
-                const real1 nrm = norm(amp);
-                partStateProb[lcv] += nrm;
-                if (nrm > amplitudeFloor) {
-                    remainderStateAngle[k] += arg(amp) * nrm;
-                }
-            }
+    // Phases are relative to the part's amplitudes that go with the most probable remainder permutation. (A phase angle
+    // is not single-valued, so angles can't be averaged.)
+    const bitCapIntOcl refRemainder = std::distance(remainderStateProb.get(),
+        std::max_element(remainderStateProb.get(), remainderStateProb.get() + remainderPower));
+    bitCapIntOcl refOffset = refRemainder & startMask;
+    refOffset |= (refRemainder ^ refOffset) << length;
+    real1 refNorm = -ONE_R1;
+    real1 refAngle = ZERO_R1;
+    for (bitCapIntOcl k = 0U; k < partPower; ++k) {
+        const complex amp = stateVec->read(refOffset | (k << start));
+        const real1 nrm = norm(amp);
+        if (nrm > refNorm) {
+            refNorm = nrm;
+            refAngle = (real1)arg(amp);
+        }
+    }
 
-            const real1 prob = partStateProb[lcv];
-            if (prob > amplitudeFloor) {
-                partStateAngle[lcv] /= prob;
-            }
-        });
-        par_for(0U, remainderPower, [&](const bitCapIntOcl& lcv, const unsigned& cpu) {
-            const real1 prob = remainderStateProb[lcv];
-            if (prob > amplitudeFloor) {
-                remainderStateAngle[lcv] /= prob;
-            }
-        });
-    } else {
-        par_for(0U, remainderPower, [&](const bitCapIntOcl& lcv, const unsigned& cpu) {
-            bitCapIntOcl j = lcv & pow2MaskOcl(start);
-            j |= (lcv ^ j) << length;
+    par_for(0U, remainderPower, [&](const bitCapIntOcl& lcv, const unsigned& cpu) {
+        bitCapIntOcl j = lcv & startMask;
+        j |= (lcv ^ j) << length;
 
-            for (bitCapIntOcl k = 0U; k < partPower; ++k) {
-                remainderStateProb[lcv] += norm(stateVec->read(j | (k << start)));
-            }
-        });
+        complex overlap = ZERO_CMPLX;
+        for (bitCapIntOcl k = 0U; k < partPower; ++k) {
+            overlap += stateVec->read(j | (k << start)) * conj(stateVec->read(refOffset | (k << start)));
+        }
+        remainderStateAngle[lcv] = (real1)arg(overlap) + refAngle;
+    });
+
+    if (destination) {
         par_for(0U, partPower, [&](const bitCapIntOcl& lcv, const unsigned& cpu) {
-            const bitCapIntOcl startMask = pow2MaskOcl(start);
             const bitCapIntOcl j = lcv << start;
 
             for (bitCapIntOcl k = 0U; k < remainderPower; ++k) {
                 bitCapIntOcl l = k & startMask;
                 l |= j | ((k ^ l) << length);
 
-                const complex amp = stateVec->read(l);
-                const real1 nrm = norm(amp);
-                if (nrm > amplitudeFloor) {
-                    remainderStateAngle[k] += arg(amp) * nrm;
-                }
-            }
-        });
-        par_for(0U, remainderPower, [&](const bitCapIntOcl& lcv, const unsigned& cpu) {
-            const real1 prob = remainderStateProb[lcv];
-            if (prob > amplitudeFloor) {
-                remainderStateAngle[lcv] /= prob;
+                partStateProb[lcv] += norm(stateVec->read(l));
             }
+
+            partStateAngle[lcv] = (real1)arg(stateVec->read(refOffset | j)) - refAngle;
         });
     }
 
@@ -1310,11 +1293,7 @@ void QEngineCPU::Dispose(bitLenInt start, bitLenInt length, const bitCapInt& dis
         nStateVec->write(iHigh, stateVec->read(iLow | ((iHigh ^ iLow) << (bitCapIntOcl)length) | disposedRes));
     });
 
-    if (!nLength) {
-        SetQubitCount(1U);
-    } else {
-        SetQubitCount(nLength);
-    }
+    SetQubitCount(nLength);
 
     ResetStateVec(nStateVec);
 }
-- 
2.43.0


From b1c2c108004470bdd0d69121408f267865f61ac2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:21 +0000
Subject: [PATCH 015/106] fix: QEngineCPU::Copy() lost the running norm, so
 TryDecompose() with doNormalize crashed on a null state vector

---
 src/qengine/utility.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/qengine/utility.cpp b/src/qengine/utility.cpp
index de8db83..2b5873a 100644
--- a/src/qengine/utility.cpp
+++ b/src/qengine/utility.cpp
@@ -44,6 +44,7 @@ QEnginePtr QEngineCPU::CloneEmpty()
 QInterfacePtr QEngineCPU::Copy()
 {
     QEngineCPUPtr clone = std::dynamic_pointer_cast<QEngineCPU>(CloneEmpty());
+    clone->runningNorm = runningNorm;
     clone->stateVec = stateVec;
 
     return clone;
-- 
2.43.0


From 4be12c8b25ebdca4cf291975e6d409dc98b3380c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:02 +0000
Subject: [PATCH 016/106] fix: QEngineCPU with doNormalize forgot a pending
 normalization on gates that don't calculate the norm

---
 src/qengine/state.cpp | 12 ++----------
 1 file changed, 2 insertions(+), 10 deletions(-)

diff --git a/src/qengine/state.cpp b/src/qengine/state.cpp
index 68b22f5..1c116d1 100644
--- a/src/qengine/state.cpp
+++ b/src/qengine/state.cpp
@@ -367,7 +367,7 @@ void QEngineCPU::Apply2x2(bitCapIntOcl offset1, bitCapIntOcl offset2, const comp
     }
 
     Dispatch(maxQPowerOcl >> bitCount,
-        [this, mtrxS, qPowersSorted, offset1, offset2, doCalcNorm, doApplyNorm, nrm, nrm_thresh] {
+        [this, mtrxS, qPowersSorted, offset1, offset2, doCalcNorm, nrm, nrm_thresh] {
             complex* mtrx = mtrxS.get();
 
             const real1_f norm_thresh = (nrm_thresh < ZERO_R1) ? amplitudeFloor : nrm_thresh;
@@ -448,10 +448,6 @@ void QEngineCPU::Apply2x2(bitCapIntOcl offset1, bitCapIntOcl offset2, const comp
 
             par_for_mask(0U, maxQPowerOcl, qPowersSorted, fn);
 
-            if (doApplyNorm) {
-                runningNorm = ONE_R1;
-            }
-
             if (!doCalcNorm) {
                 return;
             }
@@ -547,7 +543,7 @@ void QEngineCPU::Apply2x2(bitCapIntOcl offset1, bitCapIntOcl offset2, const comp
     }
 
     Dispatch(maxQPowerOcl >> bitCount,
-        [this, mtrxS, qPowersSorted, offset1, offset2, doCalcNorm, doApplyNorm, nrm, nrm_thresh] {
+        [this, mtrxS, qPowersSorted, offset1, offset2, doCalcNorm, nrm, nrm_thresh] {
             complex* mtrx = mtrxS.get();
             const complex mtrx0 = mtrx[0U];
             const complex mtrx1 = mtrx[1U];
@@ -620,10 +616,6 @@ void QEngineCPU::Apply2x2(bitCapIntOcl offset1, bitCapIntOcl offset2, const comp
 
             par_for_mask(0U, maxQPowerOcl, qPowersSorted, fn);
 
-            if (doApplyNorm) {
-                runningNorm = ONE_R1;
-            }
-
             if (!doCalcNorm) {
                 return;
             }
-- 
2.43.0


From 093953d78ceb1c13a564ad9b75fc503ec6cdca83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:02 +0000
Subject: [PATCH 017/106] fix: QEngineCPU::ForceMParity() with a forced result
 didn't wait for queued gates

---
 src/qengine/state.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/qengine/state.cpp b/src/qengine/state.cpp
index 1c116d1..18ea9df 100644
--- a/src/qengine/state.cpp
+++ b/src/qengine/state.cpp
@@ -1539,6 +1539,8 @@ bool QEngineCPU::ForceMParity(const bitCapInt& mask, bool result, bool doForce)
         result = (Rand() <= ProbParity(mask));
     }
 
+    Finish();
+
     real1 oddChance = ZERO_R1;
 
     const unsigned numCores = GetConcurrencyLevel();
-- 
2.43.0


From b65488c25e39cab4f3dc5f5859c434b6d1e7897a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:53 +0000
Subject: [PATCH 018/106] fix: DispatchQueue::dump() returned while a queued
 gate was still running on the state vector

---
 include/common/dispatchqueue.hpp |  8 ++++++--
 src/common/dispatchqueue.cpp     | 23 +++++++++++++++++++++++
 2 files changed, 29 insertions(+), 2 deletions(-)

diff --git a/include/common/dispatchqueue.hpp b/include/common/dispatchqueue.hpp
index 025d6b0..c93398c 100644
--- a/include/common/dispatchqueue.hpp
+++ b/include/common/dispatchqueue.hpp
@@ -25,6 +25,7 @@
 #include <future>
 #include <mutex>
 #include <queue>
+#include <thread>
 
 namespace Qrack {
 
@@ -36,6 +37,7 @@ public:
         : quit_(false)
         , isFinished_(true)
         , isStarted_(false)
+        , isBusy_(false)
     {
         // Intentionally left blank.
     }
@@ -45,10 +47,10 @@ public:
     void dispatch(const DispatchFn& op);
     // finish queue
     void finish();
-    // dump queue
+    // dump queue (and wait for the item that's already running, if any)
     void dump();
     // check if queue is finished
-    bool isFinished() { return isFinished_; }
+    bool isFinished();
 
     // Deleted operations
     DispatchQueue(const DispatchQueue& rhs) = delete;
@@ -65,6 +67,8 @@ private:
     bool quit_;
     bool isFinished_;
     bool isStarted_;
+    bool isBusy_;
+    std::thread::id worker_;
 
     void dispatch_thread_handler(void);
 };
diff --git a/src/common/dispatchqueue.cpp b/src/common/dispatchqueue.cpp
index d7a8444..bf53366 100644
--- a/src/common/dispatchqueue.cpp
+++ b/src/common/dispatchqueue.cpp
@@ -58,11 +58,29 @@ void DispatchQueue::dump()
 
     std::queue<DispatchFn> empty;
     std::swap(q_, empty);
+
+    if (isBusy_) {
+        // The worker has already taken an item off the queue: the caller can't touch shared state until it's done. (If
+        // the item itself is what dumps the queue, then the worker sets the finished flag, after the item.)
+        if (std::this_thread::get_id() != worker_) {
+            cvFinished_.wait(lock, [this] { return isFinished_ || quit_; });
+        }
+
+        return;
+    }
+
     isFinished_ = true;
     lock.unlock();
     cvFinished_.notify_all();
 }
 
+bool DispatchQueue::isFinished()
+{
+    std::lock_guard<std::mutex> lock(lock_);
+
+    return isFinished_;
+}
+
 void DispatchQueue::dispatch(const DispatchFn& op)
 {
     std::unique_lock<std::mutex> lock(lock_);
@@ -88,6 +106,8 @@ void DispatchQueue::dispatch_thread_handler(void)
 {
     std::unique_lock<std::mutex> lock(lock_);
 
+    worker_ = std::this_thread::get_id();
+
     do {
         // Wait until we have data or a quit signal
         cv_.wait(lock, [this] { return (q_.size() || quit_); });
@@ -99,6 +119,7 @@ void DispatchQueue::dispatch_thread_handler(void)
 
         const auto op = std::move(q_.front());
         q_.pop();
+        isBusy_ = true;
 
         // unlock now that we're done messing with the queue
         lock.unlock();
@@ -107,6 +128,8 @@ void DispatchQueue::dispatch_thread_handler(void)
 
         lock.lock();
 
+        isBusy_ = false;
+
         if (q_.empty()) {
             isFinished_ = true;
             cvFinished_.notify_all();
-- 
2.43.0


From e3f41f9d3119cf41df0925069bf413878bdf3de1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:25 +0000
Subject: [PATCH 019/106] fix: QEngineCPU::UniformlyControlledSingleBit()
 skipped a pending normalization that scales up

---
 src/qengine/state.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/qengine/state.cpp b/src/qengine/state.cpp
index 18ea9df..65c2762 100644
--- a/src/qengine/state.cpp
+++ b/src/qengine/state.cpp
@@ -778,10 +778,12 @@ void QEngineCPU::UniformlyControlledSingleBit(const std::vector<bitLenInt>& cont
 
     const bitCapIntOcl mtrxSkipValueMaskOcl = (bitCapIntOcl)mtrxSkipValueMask;
 
+    Finish();
+
     const real1 nrm = (runningNorm > ZERO_R1) ? ONE_R1 / (real1)sqrt(runningNorm) : ONE_R1;
 
     ParallelFunc fn;
-    if (doNormalize && ((ONE_R1 - nrm) > FP_NORM_EPSILON)) {
+    if (doNormalize && (abs(ONE_R1 - nrm) > FP_NORM_EPSILON)) {
         fn = [&](const bitCapIntOcl& lcv, const unsigned& cpu) {
             bitCapIntOcl offset = 0U;
             for (size_t j = 0U; j < controls.size(); ++j) {
@@ -847,8 +849,6 @@ void QEngineCPU::UniformlyControlledSingleBit(const std::vector<bitLenInt>& cont
         };
     }
 
-    Finish();
-
     par_for_skip(0U, maxQPowerOcl, targetPower, 1U, fn);
 
     if (doNormalize) {
-- 
2.43.0


From 7b03f9be8ba218e9be37697de97915c0da0b9f36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:21 +0000
Subject: [PATCH 020/106] fix: QInterface::VarianceFloatsFactorized() of 2 or
 more qubits wasn't the variance

---
 src/qinterface/qinterface.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/qinterface/qinterface.cpp b/src/qinterface/qinterface.cpp
index 0804b1f..b5d728f 100644
--- a/src/qinterface/qinterface.cpp
+++ b/src/qinterface/qinterface.cpp
@@ -644,11 +644,12 @@ real1_f QInterface::VarianceFloatsFactorized(const std::vector<bitLenInt>& bits,
 
     real1_f expectation = ZERO_R1_F;
     for (bitCapInt lcv = ZERO_BCI; bi_compare(lcv, maxQPower) < 0; bi_increment(&lcv, 1U)) {
-        real1_f weight = ONE_R1_F;
+        real1_f weight = ZERO_R1_F;
         for (size_t p = 0U; p < bits.size(); ++p) {
-            weight *= (bi_compare_0(lcv & bitPowers[p]) == 0) ? weights[p << 1U] : weights[(p << 1U) | 1U];
+            weight += (bi_compare_0(lcv & bitPowers[p]) != 0) ? weights[(p << 1U) | 1U] : weights[p << 1U];
         }
-        expectation += weight * ProbAll(lcv);
+        const real1_f diff = weight - mean;
+        expectation += diff * diff * ProbAll(lcv);
     }
 
     return expectation;
-- 
2.43.0


From 26b761e04f7ba66dcf46c66f01e5f1bf200cdea3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:22 +0000
Subject: [PATCH 021/106] fix: (3-parameter) Expectation/VarianceUnitaryAll()
 used the wrong inverse basis transformation

---
 src/qinterface/qinterface.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qinterface/qinterface.cpp b/src/qinterface/qinterface.cpp
index b5d728f..cb4fcc3 100644
--- a/src/qinterface/qinterface.cpp
+++ b/src/qinterface/qinterface.cpp
@@ -523,7 +523,7 @@ real1_f QInterface::ExpVarUnitaryAll(bool isExp, const std::vector<bitLenInt>& b
 
     for (size_t i = 0U; i < bits.size(); ++i) {
         const size_t i3 = 3U * i;
-        U(bits[i], -basisOps[i3], -basisOps[i3 + 1U], -basisOps[i3 + 2U]);
+        U(bits[i], -basisOps[i3], -basisOps[i3 + 2U], -basisOps[i3 + 1U]);
     }
 
     const real1_f toRet =
-- 
2.43.0


From ea9163a012ca3ee63a716aaec85c7f7486c25ca4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:48 +0000
Subject: [PATCH 022/106] fix: QEngineCPU::Copy() shared its state vector with
 a pending normalization, which was then applied twice

---
 src/qengine/utility.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/qengine/utility.cpp b/src/qengine/utility.cpp
index 2b5873a..86ac333 100644
--- a/src/qengine/utility.cpp
+++ b/src/qengine/utility.cpp
@@ -43,6 +43,12 @@ QEnginePtr QEngineCPU::CloneEmpty()
 
 QInterfacePtr QEngineCPU::Copy()
 {
+    // The copy shares the state vector, so no gate or normalization can be left pending.
+    if (doNormalize) {
+        NormalizeState();
+    }
+    Finish();
+
     QEngineCPUPtr clone = std::dynamic_pointer_cast<QEngineCPU>(CloneEmpty());
     clone->runningNorm = runningNorm;
     clone->stateVec = stateVec;
-- 
2.43.0


From 60648e021fcb83f1b1fa557dcb421910afeddd3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:52 +0000
Subject: [PATCH 023/106] fix: QPager's constructor ignored the initial
 permutation and left the register without any amplitude

---
 src/qpager.cpp | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/src/qpager.cpp b/src/qpager.cpp
index 329bb99..029a9d5 100644
--- a/src/qpager.cpp
+++ b/src/qpager.cpp
@@ -51,17 +51,13 @@ QPager::QPager(std::vector<QInterfaceEngine> eng, bitLenInt qBitCount, const bit
         return;
     }
 
-    const bitCapInt initState = maxQPower + ONE_BCI;
-    const bitCapIntOcl initStateOcl = (bitCapIntOcl)initState;
-    bitCapIntOcl pagePerm = basePageMaxQPower;
+    const bitCapIntOcl initState = (bitCapIntOcl)_initState & (maxQPowerOcl - 1U);
+    bitCapIntOcl pagePerm = 0U;
     for (bitCapIntOcl i = 0U; i < basePageCount; ++i) {
-        if (bi_compare(initState, pagePerm) < 0) {
+        qPages.push_back(MakeEngine(baseQubitsPerPage, i));
+        if ((initState >= pagePerm) && (initState < (pagePerm + basePageMaxQPower))) {
             // Init state is in this page.
-            qPages.push_back(MakeEngine(baseQubitsPerPage, i));
-            qPages.back()->SetPermutation(initStateOcl - (pagePerm - basePageMaxQPower));
-        } else {
-            // Init state is in a higher page.
-            qPages.push_back(MakeEngine(baseQubitsPerPage, i));
+            qPages.back()->SetPermutation(initState - pagePerm, phaseFactor);
         }
         pagePerm += basePageMaxQPower;
     }
@@ -73,6 +69,7 @@ QPager::QPager(QEnginePtr enginePtr, std::vector<QInterfaceEngine> eng, bitLenIn
     bitLenInt qubitThreshold, real1_f sep_thresh)
     : QEngine(qBitCount, rgp, false, false, useHostMem, useHardwareRNG, norm_thresh)
     , isSparse(useSparseStateVec)
+    , useTGadget(true)
     , maxPageSetting(-1)
     , maxPageQubits(-1)
     , thresholdQubitsPerPage(qubitThreshold)
-- 
2.43.0


From bcd2e7fb7994234ab89dc9552317fe94de3fc4e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:52 +0000
Subject: [PATCH 024/106] fix: QPager didn't update its OCL-width state vector
 size on Compose()/Decompose()/Dispose()

---
 include/qpager.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/qpager.hpp b/include/qpager.hpp
index 7a73271..3977c16 100644
--- a/include/qpager.hpp
+++ b/include/qpager.hpp
@@ -51,7 +51,7 @@ protected:
 
     void SetQubitCount(bitLenInt qb)
     {
-        QInterface::SetQubitCount(qb);
+        QEngine::SetQubitCount(qb);
         baseQubitsPerPage = (qubitCount < thresholdQubitsPerPage) ? qubitCount : thresholdQubitsPerPage;
         basePageCount = pow2Ocl(qubitCount - baseQubitsPerPage);
         basePageMaxQPower = pow2Ocl(baseQubitsPerPage);
-- 
2.43.0


From 758aef877a95b831fb5a83e869abf75427c1f0dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:52 +0000
Subject: [PATCH 025/106] fix: QPager::Decompose(start, length) decomposed
 qubitCount qubits instead of length

---
 src/qpager.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/qpager.cpp b/src/qpager.cpp
index 029a9d5..fb1023d 100644
--- a/src/qpager.cpp
+++ b/src/qpager.cpp
@@ -709,8 +709,9 @@ bitLenInt QPager::ComposeEither(QPagerPtr toCopy, bool willDestroy)
 
 QInterfacePtr QPager::Decompose(bitLenInt start, bitLenInt length)
 {
-    QPagerPtr dest = std::make_shared<QPager>(engines, qubitCount, ZERO_BCI, rand_generator, ONE_CMPLX, doNormalize,
-        randGlobalPhase, false, 0, !hardware_rand_generator ? false : true, isSparse, (real1_f)amplitudeFloor);
+    QPagerPtr dest = std::make_shared<QPager>(engines, length, ZERO_BCI, rand_generator, ONE_CMPLX, doNormalize,
+        randGlobalPhase, false, 0, !hardware_rand_generator ? false : true, isSparse, (real1_f)amplitudeFloor,
+        deviceIDs, thresholdQubitsPerPage);
 
     Decompose(start, dest);
 
-- 
2.43.0


From 1ea31c4c4f935eb6a6a7505f5fdc3563c0a7f763 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:52 +0000
Subject: [PATCH 026/106] fix: QUnit::CUniformParityRZ() controlled its own
 target, used stale unit indices, and phased qubit 0

---
 src/qunit.cpp | 26 ++++++++++----------------
 1 file changed, 10 insertions(+), 16 deletions(-)

diff --git a/src/qunit.cpp b/src/qunit.cpp
index a77d95f..a2df869 100644
--- a/src/qunit.cpp
+++ b/src/qunit.cpp
@@ -1265,7 +1265,9 @@ void QUnit::CUniformParityRZ(const std::vector<bitLenInt>& cControls, const bitC
         if (controls.empty()) {
             return Phase(phaseFac, phaseFac, 0U);
         } else {
-            return MCPhase(controls, phaseFac, phaseFac, 0U);
+            const bitLenInt target = controls.back();
+            controls.pop_back();
+            return MCPhase(controls, ONE_CMPLX, phaseFac, target);
         }
     }
 
@@ -1287,11 +1289,13 @@ void QUnit::CUniformParityRZ(const std::vector<bitLenInt>& cControls, const bitC
         }
     }
 
-    for (const bitLenInt& eIndex : eIndices) {
-        shards[eIndex].isPhaseDirty = true;
-    }
+    std::vector<bitLenInt> allIndices(eIndices);
+    allIndices.insert(allIndices.end(), controls.begin(), controls.end());
+    QInterfacePtr unit = Entangle(allIndices);
 
-    QInterfacePtr unit = Entangle(eIndices);
+    for (const bitLenInt& index : allIndices) {
+        shards[index].isPhaseDirty = true;
+    }
 
     bitCapInt mappedMask = ZERO_BCI;
     for (const bitLenInt& eIndex : eIndices) {
@@ -1301,19 +1305,9 @@ void QUnit::CUniformParityRZ(const std::vector<bitLenInt>& cControls, const bitC
     if (controls.empty()) {
         std::dynamic_pointer_cast<QParity>(unit)->UniformParityRZ(mappedMask, flipResult ? -angle : angle);
     } else {
-        std::vector<bitLenInt*> ebits(controls.size());
-        for (size_t i = 0U; i < controls.size(); ++i) {
-            ebits[i] = &controls[i];
-        }
-
-        Entangle(ebits);
-        unit = Entangle({ controls[0U], eIndices[0U] });
-
         std::vector<bitLenInt> controlsMapped(controls.size());
         for (size_t i = 0U; i < controls.size(); ++i) {
-            QEngineShard& cShard = shards[controls[i]];
-            controlsMapped[i] = cShard.mapped;
-            cShard.isPhaseDirty = true;
+            controlsMapped[i] = shards[controls[i]].mapped;
         }
 
         std::dynamic_pointer_cast<QParity>(unit)->CUniformParityRZ(
-- 
2.43.0


From 97c604937af151d010b56edafe1c7ebc85eec560 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:52 +0000
Subject: [PATCH 027/106] fix: QUnit::UniformlyControlledSingleBit() ignored
 skipped matrix powers

---
 src/qunit.cpp | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/src/qunit.cpp b/src/qunit.cpp
index a2df869..b0858ba 100644
--- a/src/qunit.cpp
+++ b/src/qunit.cpp
@@ -1915,7 +1915,27 @@ void QUnit::UniformlyControlledSingleBit(const std::vector<bitLenInt>& controls,
 {
     // If there are no controls, this is equivalent to the single bit gate.
     if (controls.empty()) {
-        return Mtrx(mtrxs, qubitIndex);
+        return Mtrx(mtrxs + ((bitCapIntOcl)mtrxSkipValueMask * 4U), qubitIndex);
+    }
+
+    if (!mtrxSkipPowers.empty()) {
+        // Gather the matrices that aren't skipped, since the controls might still be trimmed, below.
+        const bitCapIntOcl mtrxCount = pow2Ocl(controls.size());
+        std::unique_ptr<complex[]> usedMtrxs(new complex[mtrxCount * 4U]);
+        for (bitCapIntOcl j = 0U; j < mtrxCount; ++j) {
+            bitCapIntOcl i = 0U;
+            bitCapIntOcl iHigh = j;
+            for (const bitCapInt& skipPower : mtrxSkipPowers) {
+                const bitCapIntOcl iLow = iHigh & ((bitCapIntOcl)skipPower - 1U);
+                i |= iLow;
+                iHigh = (iHigh ^ iLow) << 1U;
+            }
+            i |= iHigh | (bitCapIntOcl)mtrxSkipValueMask;
+            std::copy(mtrxs + (i << 2U), mtrxs + ((i + 1U) << 2U), usedMtrxs.get() + (j << 2U));
+        }
+
+        return UniformlyControlledSingleBit(
+            controls, qubitIndex, usedMtrxs.get(), std::vector<bitCapInt>(), ZERO_BCI);
     }
 
     if (qubitIndex >= qubitCount) {
-- 
2.43.0


From a9a71d0cb1b2e745ecdab383daa797a6292e00b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:43 +0000
Subject: [PATCH 028/106] fix: QUnit INCC/DECC dropped the carry when carry-in
 and operand sum to the register size

---
 src/qunit.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/qunit.cpp b/src/qunit.cpp
index b0858ba..5eb8676 100644
--- a/src/qunit.cpp
+++ b/src/qunit.cpp
@@ -3118,6 +3118,10 @@ void QUnit::INC(const bitCapInt& toMod, bitLenInt start, bitLenInt length)
 void QUnit::INCC(const bitCapInt& toAdd, bitLenInt inOutStart, bitLenInt length, bitLenInt carryIndex)
 {
     if (M(carryIndex)) {
+        if (bi_compare_0((toAdd + 1U) & pow2Mask(length)) == 0) {
+            // Every register value carries out, to itself.
+            return;
+        }
         X(carryIndex);
         INT(toAdd + 1, inOutStart, length, carryIndex, true);
     } else {
@@ -3130,6 +3134,10 @@ void QUnit::DECC(const bitCapInt& toSub, bitLenInt inOutStart, bitLenInt length,
 {
     bitCapInt invToSub = pow2(length) - toSub;
     if (M(carryIndex)) {
+        if (bi_compare_0(toSub & pow2Mask(length)) == 0) {
+            // Every register value carries out, to itself.
+            return;
+        }
         X(carryIndex);
     } else {
         --invToSub;
-- 
2.43.0


From 85bf7ac5c23b6964a8aa808997b81ff4e5f525b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:37 +0000
Subject: [PATCH 029/106] fix: QUnit arithmetic marked buffered qubits dirty
 before converting their basis

---
 src/qunit.cpp | 47 +++++++++++++++++++++--------------------------
 1 file changed, 21 insertions(+), 26 deletions(-)

diff --git a/src/qunit.cpp b/src/qunit.cpp
index 5eb8676..beab2eb 100644
--- a/src/qunit.cpp
+++ b/src/qunit.cpp
@@ -2833,12 +2833,10 @@ void QUnit::INCx(INCxFn fn, const bitCapInt& toMod, bitLenInt start, bitLenInt l
         throw std::invalid_argument("QUnit::INCx flagIndex parameter must be within allocated qubit bounds!");
     }
 
-    DirtyShardRange(start, length);
-    DirtyShardRangePhase(start, length);
-    shards[flagIndex].MakeDirty();
-
     EntangleRange(start, length);
     QInterfacePtr unit = Entangle({ start, flagIndex });
+    DirtyShardRange(start, length);
+    shards[flagIndex].MakeDirty();
     ((*std::dynamic_pointer_cast<QAlu>(unit)).*fn)(toMod, shards[start].mapped, length, shards[flagIndex].mapped);
 }
 
@@ -2858,14 +2856,12 @@ void QUnit::INCxx(
     }
 
     // Make sure the flag bits are entangled in the same QU.
+    EntangleRange(start, length);
+    QInterfacePtr unit = Entangle({ start, flag1Index, flag2Index });
     DirtyShardRange(start, length);
-    DirtyShardRangePhase(start, length);
     shards[flag1Index].MakeDirty();
     shards[flag2Index].MakeDirty();
 
-    EntangleRange(start, length);
-    QInterfacePtr unit = Entangle({ start, flag1Index, flag2Index });
-
     ((*std::dynamic_pointer_cast<QAlu>(unit)).*fn)(
         toMod, shards[start].mapped, length, shards[flag1Index].mapped, shards[flag2Index].mapped);
 }
@@ -3042,12 +3038,12 @@ void QUnit::INT(const bitCapInt& _toMod, bitLenInt start, bitLenInt length, bitL
 
                 // If toAdd == inReg, this prevents superposition of the carry-out. The carry out of the truth table
                 // is independent of the superposed output value of the quantum bit.
-                DirtyShardRange(start, partLength);
                 EntangleRange(start, partLength);
+                DirtyShardRange(start, partLength);
                 if (controlLen) {
                     allBits[controlLen] = start;
-                    DirtyShardIndexVector(allBits);
                     QInterfacePtr unit = Entangle(ebits);
+                    DirtyShardIndexVector(allBits);
                     std::vector<bitLenInt> lControls(controlLen);
                     for (bitLenInt cIndex = 0U; cIndex < controlLen; ++cIndex) {
                         lControls[cIndex] = shards[controls[cIndex]].mapped;
@@ -3085,19 +3081,19 @@ void QUnit::INT(const bitCapInt& _toMod, bitLenInt start, bitLenInt length, bitL
             // implement, once the QEngine methods were in place.
             throw std::logic_error("ERROR: Controlled-with-carry arithmetic is not implemented!");
         } else {
-            DirtyShardRange(start, length);
-            shards[carryIndex].MakeDirty();
             EntangleRange(start, length);
             QInterfacePtr unit = Entangle({ start, carryIndex });
+            DirtyShardRange(start, length);
+            shards[carryIndex].MakeDirty();
             unit->INCC(toMod, shards[start].mapped, length, shards[carryIndex].mapped);
         }
     } else {
-        DirtyShardRange(start, length);
         EntangleRange(start, length);
+        DirtyShardRange(start, length);
         if (controlLen) {
             allBits[controlLen] = start;
-            DirtyShardIndexVector(allBits);
             QInterfacePtr unit = Entangle(ebits);
+            DirtyShardIndexVector(allBits);
             std::vector<bitLenInt> lControls(controlLen);
             for (bitLenInt cIndex = 0U; cIndex < controlLen; ++cIndex) {
                 lControls[cIndex] = shards[controls[cIndex]].mapped;
@@ -3272,12 +3268,11 @@ void QUnit::MUL(const bitCapInt& toMul, bitLenInt inOutStart, bitLenInt carrySta
         return SetReg(carryStart, length, (res >> length) & lengthMask);
     }
 
-    DirtyShardRange(inOutStart, length);
-    DirtyShardRange(carryStart, length);
-
     // Otherwise, form the potentially entangled representation:
     std::dynamic_pointer_cast<QAlu>(EntangleRange(inOutStart, length, carryStart, length))
         ->MUL(toMul, shards[inOutStart].mapped, shards[carryStart].mapped, length);
+    DirtyShardRange(inOutStart, length);
+    DirtyShardRange(carryStart, length);
 }
 
 void QUnit::DIV(const bitCapInt& toDiv, bitLenInt inOutStart, bitLenInt carryStart, bitLenInt length)
@@ -3308,12 +3303,11 @@ void QUnit::DIV(const bitCapInt& toDiv, bitLenInt inOutStart, bitLenInt carrySta
         return;
     }
 
-    DirtyShardRange(inOutStart, length);
-    DirtyShardRange(carryStart, length);
-
     // Otherwise, form the potentially entangled representation:
     std::dynamic_pointer_cast<QAlu>(EntangleRange(inOutStart, length, carryStart, length))
         ->DIV(toDiv, shards[inOutStart].mapped, shards[carryStart].mapped, length);
+    DirtyShardRange(inOutStart, length);
+    DirtyShardRange(carryStart, length);
 }
 
 void QUnit::POWModNOut(
@@ -3350,8 +3344,6 @@ void QUnit::POWModNOut(
 QInterfacePtr QUnit::CMULEntangle(std::vector<bitLenInt> controlVec, bitLenInt start, bitLenInt carryStart,
     bitLenInt length, std::vector<bitLenInt>* controlsMapped)
 {
-    DirtyShardRangePhase(start, length);
-    DirtyShardRange(carryStart, length);
     EntangleRange(start, length);
     EntangleRange(carryStart, length);
 
@@ -3370,6 +3362,9 @@ QInterfacePtr QUnit::CMULEntangle(std::vector<bitLenInt> controlVec, bitLenInt s
 
     QInterfacePtr unit = Entangle(ebits);
 
+    DirtyShardRangePhase(start, length);
+    DirtyShardRange(carryStart, length);
+
     if (controlVec.size()) {
         controlsMapped->resize(controlVec.size());
         for (size_t i = 0U; i < controlVec.size(); ++i) {
@@ -3672,8 +3667,8 @@ void QUnit::Hash(bitLenInt start, bitLenInt length, const unsigned char* values)
         return SetReg(start, length, value);
     }
 
-    DirtyShardRange(start, length);
     std::dynamic_pointer_cast<QAlu>(EntangleRange(start, length))->Hash(shards[start].mapped, length, values);
+    DirtyShardRange(start, length);
 }
 
 void QUnit::PhaseFlipIfLess(const bitCapInt& greaterPerm, bitLenInt start, bitLenInt length)
@@ -3691,9 +3686,9 @@ void QUnit::PhaseFlipIfLess(const bitCapInt& greaterPerm, bitLenInt start, bitLe
         return;
     }
 
-    DirtyShardRange(start, length);
     std::dynamic_pointer_cast<QAlu>(EntangleRange(start, length))
         ->PhaseFlipIfLess(greaterPerm, shards[start].mapped, length);
+    DirtyShardRange(start, length);
 }
 
 void QUnit::CPhaseFlipIfLess(const bitCapInt& greaterPerm, bitLenInt start, bitLenInt length, bitLenInt flagIndex)
@@ -3714,11 +3709,11 @@ void QUnit::CPhaseFlipIfLess(const bitCapInt& greaterPerm, bitLenInt start, bitL
         return;
     }
 
-    DirtyShardRange(start, length);
-    shards[flagIndex].isPhaseDirty = true;
     EntangleRange(start, length);
     std::dynamic_pointer_cast<QAlu>(Entangle({ start, flagIndex }))
         ->CPhaseFlipIfLess(greaterPerm, shards[start].mapped, length, shards[flagIndex].mapped);
+    DirtyShardRange(start, length);
+    shards[flagIndex].isPhaseDirty = true;
 }
 #endif
 
-- 
2.43.0


From a94bab37deea28703263aecdf32c6a36930e2686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:55 +0000
Subject: [PATCH 030/106] fix: Printing a nonzero bitCapInt never terminated

---
 src/common/functions.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common/functions.cpp b/src/common/functions.cpp
index 29acbf0..83f4c00 100644
--- a/src/common/functions.cpp
+++ b/src/common/functions.cpp
@@ -288,7 +288,7 @@ std::ostream& operator<<(std::ostream& os, const bitCapInt& b)
     // Calculate the base-10 digits, from lowest to highest.
     std::vector<std::string> digits;
     bitCapInt _b = b;
-    while (bi_compare_0(b) != 0) {
+    while (bi_compare_0(_b) != 0) {
         bitCapInt quo;
 #ifdef __SIZEOF_INT128__
         uint64_t rem;
-- 
2.43.0


From 72bfc2d4ada696715b2508fa0a2ba7b8345fc31d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:55 +0000
Subject: [PATCH 031/106] fix: popCountOcl() ignored the high 32 bits of its
 argument

---
 include/common/qrack_functions.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/common/qrack_functions.hpp b/include/common/qrack_functions.hpp
index dac76b7..7a7429e 100644
--- a/include/common/qrack_functions.hpp
+++ b/include/common/qrack_functions.hpp
@@ -118,7 +118,7 @@ inline bitLenInt popCountOcl(bitCapIntOcl n)
 #if CPP_STD >= 20
     return (bitLenInt)std::popcount(n);
 #elif (defined(__GNUC__) || defined(__clang__)) && !TARGET_OS_IPHONE && !TARGET_IPHONE_SIMULATOR
-    return __builtin_popcount(n);
+    return (bitLenInt)__builtin_popcountll((unsigned long long)n);
 #else
     bitLenInt popCount;
     for (popCount = 0U; n; ++popCount) {
-- 
2.43.0


From 13fa2027a05c2506a55b49949115dec5b0d793d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:55 +0000
Subject: [PATCH 032/106] fix: log2() of a bitCapInt of more than 64 bits was
 wrong

---
 include/common/qrack_functions.hpp | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/include/common/qrack_functions.hpp b/include/common/qrack_functions.hpp
index 7a7429e..72218a7 100644
--- a/include/common/qrack_functions.hpp
+++ b/include/common/qrack_functions.hpp
@@ -129,7 +129,21 @@ inline bitLenInt popCountOcl(bitCapIntOcl n)
 }
 
 #if (QBCAPPOW < 7) || ((QBCAPPOW < 8) && defined(__SIZEOF_INT128__))
-inline int bi_log2(const bitCapInt& n) { return log2Ocl(n); }
+inline int bi_log2(const bitCapInt& n)
+{
+#if QBCAPPOW > UINTPOW
+    // bitCapInt is wider than bitCapIntOcl.
+    int pw = 0;
+    bitCapInt p = n;
+    while (p != (bitCapInt)((bitCapIntOcl)p)) {
+        p >>= 8U * sizeof(bitCapIntOcl);
+        pw += 8 * (int)sizeof(bitCapIntOcl);
+    }
+    return pw + (int)log2Ocl((bitCapIntOcl)p);
+#else
+    return log2Ocl(n);
+#endif
+}
 #endif
 inline bitLenInt log2(bitCapInt n) { return (bitLenInt)bi_log2(n); }
 
-- 
2.43.0


From 0b4e1c8dfcf30aaac3589b805730398f7b4c50f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:55 +0000
Subject: [PATCH 033/106] fix: BigInteger addition and subtraction lost the
 left operand's top word, and carries between words

---
 include/common/big_integer.hpp | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/include/common/big_integer.hpp b/include/common/big_integer.hpp
index 2aee61f..ae0503e 100644
--- a/include/common/big_integer.hpp
+++ b/include/common/big_integer.hpp
@@ -165,12 +165,12 @@ inline int bi_compare_1(const BigInteger& left)
 inline BigInteger operator+(const BigInteger& left, const BigInteger& right)
 {
     BigInteger result;
-    result.bits[0U] = 0U;
-    for (int i = 0; i < BIG_INTEGER_MAX_WORD_INDEX; ++i) {
-        result.bits[i] += left.bits[i] + right.bits[i];
-        result.bits[i + 1] = (result.bits[i] < left.bits[i]) ? 1 : 0;
+    BIG_INTEGER_WORD carry = 0U;
+    for (int i = 0; i < BIG_INTEGER_WORD_SIZE; ++i) {
+        const BIG_INTEGER_WORD sum = left.bits[i] + right.bits[i];
+        result.bits[i] = sum + carry;
+        carry = ((sum < left.bits[i]) || (result.bits[i] < sum)) ? 1U : 0U;
     }
-    result.bits[BIG_INTEGER_MAX_WORD_INDEX] += right.bits[BIG_INTEGER_MAX_WORD_INDEX];
     return result;
 }
 
@@ -190,12 +190,12 @@ inline void bi_add_ip(BigInteger* left, const BigInteger& right)
 inline BigInteger operator-(const BigInteger& left, const BigInteger& right)
 {
     BigInteger result;
-    result.bits[0U] = 0U;
-    for (int i = 0; i < BIG_INTEGER_MAX_WORD_INDEX; ++i) {
-        result.bits[i] += left.bits[i] - right.bits[i];
-        result.bits[i + 1] = (result.bits[i] > left.bits[i]) ? -1 : 0;
+    BIG_INTEGER_WORD borrow = 0U;
+    for (int i = 0; i < BIG_INTEGER_WORD_SIZE; ++i) {
+        const BIG_INTEGER_WORD diff = left.bits[i] - right.bits[i];
+        result.bits[i] = diff - borrow;
+        borrow = ((diff > left.bits[i]) || (result.bits[i] > diff)) ? 1U : 0U;
     }
-    result.bits[BIG_INTEGER_MAX_WORD_INDEX] -= right.bits[BIG_INTEGER_MAX_WORD_INDEX];
     return result;
 }
 
-- 
2.43.0


From c2bc73f042d267842679e811e2399f033a7666f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:55 +0000
Subject: [PATCH 034/106] fix: bi_decrement() borrowed from the lowest word,
 instead of the next

---
 include/common/big_integer.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/common/big_integer.hpp b/include/common/big_integer.hpp
index ae0503e..8daead2 100644
--- a/include/common/big_integer.hpp
+++ b/include/common/big_integer.hpp
@@ -238,7 +238,7 @@ inline void bi_decrement(BigInteger* pBigInt, const BIG_INTEGER_WORD& value)
         return;
     }
 
-    for (int i = 0; i < BIG_INTEGER_WORD_SIZE; i++) {
+    for (int i = 1; i < BIG_INTEGER_WORD_SIZE; i++) {
         temp = pBigInt->bits[i]--;
         if (temp >= pBigInt->bits[i]) {
             break;
-- 
2.43.0


From 98cd631fda3e8789adc609c7b83bd3a1a03589d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:55 +0000
Subject: [PATCH 035/106] fix: In-place word shifts of BigInteger overwrote
 words before moving them, and wrote out of bounds

---
 include/common/big_integer.hpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/include/common/big_integer.hpp b/include/common/big_integer.hpp
index 8daead2..ba01e2e 100644
--- a/include/common/big_integer.hpp
+++ b/include/common/big_integer.hpp
@@ -272,16 +272,15 @@ inline BigInteger bi_lshift_word(const BigInteger& left, BIG_INTEGER_WORD rightM
 
 inline void bi_lshift_word_ip(BigInteger* left, BIG_INTEGER_WORD rightMult)
 {
-    rightMult &= 63U;
-
     if (!rightMult) {
         return;
     }
 
-    for (int i = rightMult; i < BIG_INTEGER_WORD_SIZE; ++i) {
-        left->bits[i] = left->bits[i - rightMult];
+    const int mult = (rightMult < (BIG_INTEGER_WORD)BIG_INTEGER_WORD_SIZE) ? (int)rightMult : BIG_INTEGER_WORD_SIZE;
+    for (int i = BIG_INTEGER_MAX_WORD_INDEX; i >= mult; --i) {
+        left->bits[i] = left->bits[i - mult];
     }
-    for (BIG_INTEGER_WORD i = 0U; i < rightMult; ++i) {
+    for (int i = 0; i < mult; ++i) {
         left->bits[i] = 0U;
     }
 }
@@ -306,10 +305,11 @@ inline void bi_rshift_word_ip(BigInteger* left, const BIG_INTEGER_WORD& rightMul
         return;
     }
 
-    for (int i = rightMult; i < BIG_INTEGER_WORD_SIZE; ++i) {
-        left->bits[i - rightMult] = left->bits[i];
+    const int mult = (rightMult < (BIG_INTEGER_WORD)BIG_INTEGER_WORD_SIZE) ? (int)rightMult : BIG_INTEGER_WORD_SIZE;
+    for (int i = mult; i < BIG_INTEGER_WORD_SIZE; ++i) {
+        left->bits[i - mult] = left->bits[i];
     }
-    for (BIG_INTEGER_WORD i = 0U; i < rightMult; ++i) {
+    for (int i = 0; i < mult; ++i) {
         left->bits[BIG_INTEGER_MAX_WORD_INDEX - i] = 0U;
     }
 }
-- 
2.43.0


From fadb2bd4a6bc26269803eb06525baafd7476e9ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:55 +0000
Subject: [PATCH 036/106] fix: bi_div_mod() subtracted multiples of the divisor
 greater than the remainder

---
 src/common/big_integer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common/big_integer.cpp b/src/common/big_integer.cpp
index 2155e6b..a87d0d2 100644
--- a/src/common/big_integer.cpp
+++ b/src/common/big_integer.cpp
@@ -280,7 +280,7 @@ void bi_div_mod(const BigInteger& left, const BigInteger& right, BigInteger* quo
     BigInteger bi1 = 1U;
     int rightLog2 = bi_log2(right);
     BigInteger rightTest = bi1 << rightLog2;
-    if (bi_compare(right, rightTest) < 0) {
+    if (bi_compare(right, rightTest) > 0) {
         ++rightLog2;
     }
     BigInteger rem;
-- 
2.43.0


From 7d84d6fc11e17a1bce1391cb6f58dfbb7df8d968 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:55 +0000
Subject: [PATCH 037/106] fix: BigInteger multiplication by 0 returned the left
 operand

---
 src/common/big_integer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common/big_integer.cpp b/src/common/big_integer.cpp
index a87d0d2..8a255c9 100644
--- a/src/common/big_integer.cpp
+++ b/src/common/big_integer.cpp
@@ -62,7 +62,7 @@ BigInteger operator*(const BigInteger& left, const BigInteger& right)
 {
     int rightLog2 = bi_log2(right);
 
-    if (rightLog2 == 0) {
+    if (bi_compare_1(right) == 0) {
         // right == 1
         return left;
     }
-- 
2.43.0


From d74f254ab0b374a523066bc4482887b1457796e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:27 +0000
Subject: [PATCH 038/106] fix: BigInteger multiplication dropped partial
 products that still overlap the low bits

---
 src/common/big_integer.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/common/big_integer.cpp b/src/common/big_integer.cpp
index 8a255c9..f4cc03d 100644
--- a/src/common/big_integer.cpp
+++ b/src/common/big_integer.cpp
@@ -60,14 +60,12 @@ BigInteger operator*(const BigInteger& left, BIG_INTEGER_HALF_WORD right)
 // Complexity - O(log of bits)
 BigInteger operator*(const BigInteger& left, const BigInteger& right)
 {
-    int rightLog2 = bi_log2(right);
-
     if (bi_compare_1(right) == 0) {
         // right == 1
         return left;
     }
 
-    int maxI = BIG_INTEGER_BITS - rightLog2;
+    constexpr int maxI = (int)BIG_INTEGER_BITS;
 
     BigInteger result;
     bi_set_0(&result);
-- 
2.43.0


From 5ae657368d80208870d728dc21362027ed82038a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:03 +0000
Subject: [PATCH 039/106] fix: count the qubits of gates appended to an
 uncollapsed QCircuit

---
 src/qcircuit.cpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/qcircuit.cpp b/src/qcircuit.cpp
index 65c619a..93a6895 100644
--- a/src/qcircuit.cpp
+++ b/src/qcircuit.cpp
@@ -100,13 +100,7 @@ std::istream& operator>>(std::istream& is, QCircuitPtr& c)
 
 bool QCircuit::AppendGate(QCircuitGatePtr nGate)
 {
-    if (!isCollapsed) {
-        gates.push_back(nGate);
-
-        return false;
-    }
-
-    if (nGate->IsIdentity()) {
+    if (isCollapsed && nGate->IsIdentity()) {
         return true;
     }
 
@@ -120,6 +114,12 @@ bool QCircuit::AppendGate(QCircuitGatePtr nGate)
         }
     }
 
+    if (!isCollapsed) {
+        gates.push_back(nGate);
+
+        return false;
+    }
+
     std::set<bitLenInt> nQubits(nGate->controls);
     nQubits.insert(nGate->target);
     bool didCommute = false;
-- 
2.43.0


From 3ec4f67ae7efce65edf27c7bf20bf77f005b9455 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:03 +0000
Subject: [PATCH 040/106] fix: QCircuit Append and Combine copy gates instead
 of sharing them with the source circuit

---
 include/qcircuit.hpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/include/qcircuit.hpp b/include/qcircuit.hpp
index 6faa580..a6693db 100644
--- a/include/qcircuit.hpp
+++ b/include/qcircuit.hpp
@@ -708,7 +708,11 @@ public:
         if (circuit->qubitCount > qubitCount) {
             qubitCount = circuit->qubitCount;
         }
-        gates.insert(gates.end(), circuit->gates.begin(), circuit->gates.end());
+        std::list<QCircuitGatePtr> nGates;
+        for (auto gIt = circuit->gates.begin(); gIt != circuit->gates.end(); ++gIt) {
+            nGates.push_back((*gIt)->Clone());
+        }
+        gates.splice(gates.end(), nGates);
     }
 
     /**
@@ -720,7 +724,11 @@ public:
         if (circuit->qubitCount > qubitCount) {
             qubitCount = circuit->qubitCount;
         }
+        std::list<QCircuitGatePtr> nGates;
         for (auto gIt = circuit->gates.begin(); gIt != circuit->gates.end(); ++gIt) {
+            nGates.push_back((*gIt)->Clone());
+        }
+        for (auto gIt = nGates.begin(); gIt != nGates.end(); ++gIt) {
             AppendGate(*gIt);
         }
     }
-- 
2.43.0


From a40e6aaa6625187fc29e840092efe38494e0472a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:03 +0000
Subject: [PATCH 041/106] fix: keep the near-Clifford setting in the past light
 cone of a QCircuit

---
 include/qcircuit.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/qcircuit.hpp b/include/qcircuit.hpp
index a6693db..049f4c3 100644
--- a/include/qcircuit.hpp
+++ b/include/qcircuit.hpp
@@ -812,7 +812,7 @@ public:
         // Restore the original order of this QCircuit's gates.
         gates.reverse();
 
-        return std::make_shared<QCircuit>(qubitCount, nGates, isCollapsed);
+        return std::make_shared<QCircuit>(qubitCount, nGates, isCollapsed, isNearClifford);
     }
 
 #if ENABLE_ALU
-- 
2.43.0


From 1d4fa9ee4561f9a577a5221eaf6603f32082e956 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:36 +0000
Subject: [PATCH 042/106] fix: generic ProbReg sums over the right permutations

---
 src/qinterface/qinterface.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/qinterface/qinterface.cpp b/src/qinterface/qinterface.cpp
index cb4fcc3..53cd22b 100644
--- a/src/qinterface/qinterface.cpp
+++ b/src/qinterface/qinterface.cpp
@@ -263,11 +263,11 @@ real1_f QInterface::ProbReg(bitLenInt start, bitLenInt length, const bitCapInt&
 {
     const bitCapIntOcl startMask = pow2Ocl(start) - 1U;
     const bitCapIntOcl maxLcv = (bitCapIntOcl)(maxQPower >> length);
-    const bitCapIntOcl p = (bitCapIntOcl)permutation;
+    const bitCapIntOcl p = (bitCapIntOcl)permutation << start;
     real1 prob = ZERO_R1;
     for (bitCapIntOcl lcv = 0U; lcv < maxLcv; ++lcv) {
         bitCapIntOcl i = lcv & startMask;
-        i |= ((lcv ^ i) | p) << length;
+        i |= ((lcv ^ i) << length) | p;
         prob += ProbAll(i);
     }
 
-- 
2.43.0


From 19e6a276b1e37b27f31592e7e4b9df4cb0bb535c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:44 +0000
Subject: [PATCH 043/106] fix: generic CProb and ACProb return the conditional
 probability

---
 include/qinterface.hpp        | 26 ++++++++++++++++++--------
 include/qstabilizerhybrid.hpp | 27 ++++++++++++++++++---------
 include/qunit.hpp             | 26 ++++++++++++++++++--------
 3 files changed, 54 insertions(+), 25 deletions(-)

diff --git a/include/qinterface.hpp b/include/qinterface.hpp
index f1aefb3..4befe1f 100644
--- a/include/qinterface.hpp
+++ b/include/qinterface.hpp
@@ -2470,11 +2470,16 @@ public:
      */
     virtual real1_f CProb(bitLenInt control, bitLenInt target)
     {
-        AntiCNOT(control, target);
-        const real1_f prob = Prob(target);
-        AntiCNOT(control, target);
+        const real1_f controlProb = Prob(control);
+        if (controlProb <= FP_NORM_EPSILON) {
+            return ZERO_R1_F;
+        }
+        const real1_f targetProb = Prob(target);
+        CNOT(control, target);
+        const real1_f parityProb = Prob(target);
+        CNOT(control, target);
 
-        return prob;
+        return clampProb((controlProb + targetProb - parityProb) / (2 * controlProb));
     }
     /**
      * Direct measure of bit probability to be in |1> state, if control bit is |0>.
@@ -2483,11 +2488,16 @@ public:
      */
     virtual real1_f ACProb(bitLenInt control, bitLenInt target)
     {
-        CNOT(control, target);
-        const real1_f prob = Prob(target);
-        CNOT(control, target);
+        const real1_f controlProb = ONE_R1_F - Prob(control);
+        if (controlProb <= FP_NORM_EPSILON) {
+            return ZERO_R1_F;
+        }
+        const real1_f targetProb = Prob(target);
+        AntiCNOT(control, target);
+        const real1_f parityProb = Prob(target);
+        AntiCNOT(control, target);
 
-        return prob;
+        return clampProb((controlProb + targetProb - parityProb) / (2 * controlProb));
     }
 
     /**
diff --git a/include/qstabilizerhybrid.hpp b/include/qstabilizerhybrid.hpp
index 06d8c68..5793dfe 100644
--- a/include/qstabilizerhybrid.hpp
+++ b/include/qstabilizerhybrid.hpp
@@ -452,20 +452,29 @@ public:
 
     real1_f CProbRdm(bitLenInt control, bitLenInt target)
     {
-        AntiCNOT(control, target);
-        const real1_f prob = ProbRdm(target);
-        AntiCNOT(control, target);
+        const real1_f controlProb = ProbRdm(control);
+        if (controlProb <= FP_NORM_EPSILON) {
+            return ZERO_R1_F;
+        }
+        const real1_f targetProb = ProbRdm(target);
+        CNOT(control, target);
+        const real1_f parityProb = ProbRdm(target);
+        CNOT(control, target);
 
-        return prob;
+        return clampProb((controlProb + targetProb - parityProb) / (2 * controlProb));
     }
-
     real1_f ACProbRdm(bitLenInt control, bitLenInt target)
     {
-        CNOT(control, target);
-        const real1_f prob = ProbRdm(target);
-        CNOT(control, target);
+        const real1_f controlProb = ONE_R1_F - ProbRdm(control);
+        if (controlProb <= FP_NORM_EPSILON) {
+            return ZERO_R1_F;
+        }
+        const real1_f targetProb = ProbRdm(target);
+        AntiCNOT(control, target);
+        const real1_f parityProb = ProbRdm(target);
+        AntiCNOT(control, target);
 
-        return prob;
+        return clampProb((controlProb + targetProb - parityProb) / (2 * controlProb));
     }
 
     /**
diff --git a/include/qunit.hpp b/include/qunit.hpp
index ee3be55..de12630 100644
--- a/include/qunit.hpp
+++ b/include/qunit.hpp
@@ -149,19 +149,29 @@ public:
     }
     virtual real1_f CProbRdm(bitLenInt control, bitLenInt target)
     {
-        AntiCNOT(control, target);
-        const real1_f prob = ProbRdm(target);
-        AntiCNOT(control, target);
+        const real1_f controlProb = ProbRdm(control);
+        if (controlProb <= FP_NORM_EPSILON) {
+            return ZERO_R1_F;
+        }
+        const real1_f targetProb = ProbRdm(target);
+        CNOT(control, target);
+        const real1_f parityProb = ProbRdm(target);
+        CNOT(control, target);
 
-        return prob;
+        return clampProb((controlProb + targetProb - parityProb) / (2 * controlProb));
     }
     virtual real1_f ACProbRdm(bitLenInt control, bitLenInt target)
     {
-        CNOT(control, target);
-        const real1_f prob = ProbRdm(target);
-        CNOT(control, target);
+        const real1_f controlProb = ONE_R1_F - ProbRdm(control);
+        if (controlProb <= FP_NORM_EPSILON) {
+            return ZERO_R1_F;
+        }
+        const real1_f targetProb = ProbRdm(target);
+        AntiCNOT(control, target);
+        const real1_f parityProb = ProbRdm(target);
+        AntiCNOT(control, target);
 
-        return prob;
+        return clampProb((controlProb + targetProb - parityProb) / (2 * controlProb));
     }
 
     virtual void SetQuantumState(const complex* inputState);
-- 
2.43.0


From f459430cb58047ececee4c59a74cb3898b6e3492 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:00 +0000
Subject: [PATCH 044/106] fix: generic INCS and DECS flip the phase on signed
 overflow as documented by the engines

---
 include/qinterface.hpp        | 10 +--------
 src/qinterface/arithmetic.cpp | 41 +++++++++++++++++++++++++++++++++++
 2 files changed, 42 insertions(+), 9 deletions(-)

diff --git a/include/qinterface.hpp b/include/qinterface.hpp
index 4befe1f..204ca2c 100644
--- a/include/qinterface.hpp
+++ b/include/qinterface.hpp
@@ -2187,15 +2187,7 @@ public:
     }
 
     /** Add a classical integer to the register, with sign and without carry. */
-    virtual void INCS(const bitCapInt& toAdd, bitLenInt start, bitLenInt length, bitLenInt overflowIndex)
-    {
-        const bitCapInt signMask = pow2(length - 1U);
-        INC(signMask, start, length);
-        INCDECC(toAdd & ~signMask, start, length, overflowIndex);
-        if (bi_compare_0(toAdd & signMask) == 0) {
-            DEC(signMask, start, length);
-        }
-    }
+    virtual void INCS(const bitCapInt& toAdd, bitLenInt start, bitLenInt length, bitLenInt overflowIndex);
 
     /** Subtract a classical integer from the register, with sign and without carry. */
     virtual void DECS(const bitCapInt& toSub, bitLenInt start, bitLenInt length, bitLenInt overflowIndex)
diff --git a/src/qinterface/arithmetic.cpp b/src/qinterface/arithmetic.cpp
index b785999..0aba593 100644
--- a/src/qinterface/arithmetic.cpp
+++ b/src/qinterface/arithmetic.cpp
@@ -75,6 +75,47 @@ void QInterface::INCDECC(const bitCapInt& toAdd, bitLenInt start, bitLenInt leng
     }
 }
 
+/** Add a classical integer to the register, with sign and without carry. (The phase flips on signed overflow, if the
+ * overflow qubit is set.) */
+void QInterface::INCS(const bitCapInt& toAdd, bitLenInt start, bitLenInt length, bitLenInt overflowIndex)
+{
+    if (!length) {
+        return;
+    }
+
+    INC(toAdd, start, length);
+
+    // Signed overflow leaves the sign bit different from that of the addend, and then the magnitude of the sum (of its
+    // complement, for a negative addend) is less than that of the addend.
+    const bitLenInt signBit = length - 1U;
+    const bitCapInt lengthMask = pow2(length) - ONE_BCI;
+    bitCapInt magnitude = toAdd & lengthMask;
+    const bool isNegative = bi_and_1(magnitude >> signBit) != 0;
+    if (isNegative) {
+        magnitude = (pow2(length) - magnitude) & lengthMask;
+    }
+
+    for (bitLenInt i = 0U; i < length; ++i) {
+        if (bi_and_1(magnitude >> i) == 0) {
+            continue;
+        }
+        // Compare equal above bit "i," and less at bit "i":
+        std::vector<bitLenInt> controls;
+        bitCapInt perm = ZERO_BCI;
+        for (bitLenInt j = i; j < signBit; ++j) {
+            if (((j != i) && (bi_and_1(magnitude >> j) != 0)) != isNegative) {
+                bi_or_ip(&perm, pow2(controls.size()));
+            }
+            controls.push_back(start + j);
+        }
+        if (!isNegative) {
+            bi_or_ip(&perm, pow2(controls.size()));
+        }
+        controls.push_back(start + signBit);
+        UCPhase(controls, ONE_CMPLX, -ONE_CMPLX, overflowIndex, perm);
+    }
+}
+
 /** Add integer (without sign, with controls) */
 void QInterface::CINC(const bitCapInt& toAdd, bitLenInt start, bitLenInt length, const std::vector<bitLenInt>& controls)
 {
-- 
2.43.0


From e71d4671e75ba4631c26fa36c72ca0d06359e095 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:23 +0000
Subject: [PATCH 045/106] fix: paged multiplication and modular power reset
 their output register across all pages

---
 src/qpager.cpp | 33 ++++++++++++++++++---------------
 1 file changed, 18 insertions(+), 15 deletions(-)

diff --git a/src/qpager.cpp b/src/qpager.cpp
index fb1023d..e08896d 100644
--- a/src/qpager.cpp
+++ b/src/qpager.cpp
@@ -1173,8 +1173,9 @@ void QPager::INCDECBCDC(const bitCapInt& toAdd, bitLenInt start, bitLenInt lengt
 #endif
 void QPager::MUL(const bitCapInt& toMul, bitLenInt inOutStart, bitLenInt carryStart, bitLenInt length)
 {
-    CombineAndOp([&](QEnginePtr engine) { engine->MUL(toMul, inOutStart, carryStart, length); },
-        { static_cast<bitLenInt>(inOutStart + length - 1U), static_cast<bitLenInt>(carryStart + length - 1U) });
+    // The output register reset is not local to a page.
+    CombineEngines();
+    qPages[0U]->MUL(toMul, inOutStart, carryStart, length);
 }
 void QPager::DIV(const bitCapInt& toDiv, bitLenInt inOutStart, bitLenInt carryStart, bitLenInt length)
 {
@@ -1184,8 +1185,9 @@ void QPager::DIV(const bitCapInt& toDiv, bitLenInt inOutStart, bitLenInt carrySt
 void QPager::MULModNOut(
     const bitCapInt& toMul, const bitCapInt& modN, bitLenInt inStart, bitLenInt outStart, bitLenInt length)
 {
-    CombineAndOp([&](QEnginePtr engine) { engine->MULModNOut(toMul, modN, inStart, outStart, length); },
-        { static_cast<bitLenInt>(inStart + length - 1U), static_cast<bitLenInt>(outStart + length - 1U) });
+    // The output register reset is not local to a page.
+    CombineEngines();
+    qPages[0U]->MULModNOut(toMul, modN, inStart, outStart, length);
 }
 void QPager::IMULModNOut(
     const bitCapInt& toMul, const bitCapInt& modN, bitLenInt inStart, bitLenInt outStart, bitLenInt length)
@@ -1196,8 +1198,9 @@ void QPager::IMULModNOut(
 void QPager::POWModNOut(
     const bitCapInt& base, const bitCapInt& modN, bitLenInt inStart, bitLenInt outStart, bitLenInt length)
 {
-    CombineAndOp([&](QEnginePtr engine) { engine->POWModNOut(base, modN, inStart, outStart, length); },
-        { static_cast<bitLenInt>(inStart + length - 1U), static_cast<bitLenInt>(outStart + length - 1U) });
+    // The output register reset is not local to a page.
+    CombineEngines();
+    qPages[0U]->POWModNOut(base, modN, inStart, outStart, length);
 }
 void QPager::CMUL(const bitCapInt& toMul, bitLenInt inOutStart, bitLenInt carryStart, bitLenInt length,
     const std::vector<bitLenInt>& controls)
@@ -1206,9 +1209,9 @@ void QPager::CMUL(const bitCapInt& toMul, bitLenInt inOutStart, bitLenInt carryS
         return MUL(toMul, inOutStart, carryStart, length);
     }
 
-    CombineAndOpControlled([&](QEnginePtr engine) { engine->CMUL(toMul, inOutStart, carryStart, length, controls); },
-        { static_cast<bitLenInt>(inOutStart + length - 1U), static_cast<bitLenInt>(carryStart + length - 1U) },
-        controls);
+    // The output register reset is not local to a page.
+    CombineEngines();
+    qPages[0U]->CMUL(toMul, inOutStart, carryStart, length, controls);
 }
 void QPager::CDIV(const bitCapInt& toDiv, bitLenInt inOutStart, bitLenInt carryStart, bitLenInt length,
     const std::vector<bitLenInt>& controls)
@@ -1228,9 +1231,9 @@ void QPager::CMULModNOut(const bitCapInt& toMul, const bitCapInt& modN, bitLenIn
         return MULModNOut(toMul, modN, inStart, outStart, length);
     }
 
-    CombineAndOpControlled(
-        [&](QEnginePtr engine) { engine->CMULModNOut(toMul, modN, inStart, outStart, length, controls); },
-        { static_cast<bitLenInt>(inStart + length - 1U), static_cast<bitLenInt>(outStart + length - 1U) }, controls);
+    // The output register reset is not local to a page.
+    CombineEngines();
+    qPages[0U]->CMULModNOut(toMul, modN, inStart, outStart, length, controls);
 }
 void QPager::CIMULModNOut(const bitCapInt& toMul, const bitCapInt& modN, bitLenInt inStart, bitLenInt outStart,
     bitLenInt length, const std::vector<bitLenInt>& controls)
@@ -1250,9 +1253,9 @@ void QPager::CPOWModNOut(const bitCapInt& base, const bitCapInt& modN, bitLenInt
         return POWModNOut(base, modN, inStart, outStart, length);
     }
 
-    CombineAndOpControlled(
-        [&](QEnginePtr engine) { engine->CPOWModNOut(base, modN, inStart, outStart, length, controls); },
-        { static_cast<bitLenInt>(inStart + length - 1U), static_cast<bitLenInt>(outStart + length - 1U) }, controls);
+    // The output register reset is not local to a page.
+    CombineEngines();
+    qPages[0U]->CPOWModNOut(base, modN, inStart, outStart, length, controls);
 }
 
 bitCapInt QPager::IndexedLDA(bitLenInt indexStart, bitLenInt indexLength, bitLenInt valueStart, bitLenInt valueLength,
-- 
2.43.0


From 03b0fd665054f6f5e81ef14fa7ea140e54060659 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:17 +0000
Subject: [PATCH 046/106] fix: paged Decompose and Dispose combine the pages
 before separating the factors

---
 src/qpager.cpp | 42 +++++++-----------------------------------
 1 file changed, 7 insertions(+), 35 deletions(-)

diff --git a/src/qpager.cpp b/src/qpager.cpp
index e08896d..a456914 100644
--- a/src/qpager.cpp
+++ b/src/qpager.cpp
@@ -720,54 +720,26 @@ QInterfacePtr QPager::Decompose(bitLenInt start, bitLenInt length)
 
 void QPager::Decompose(bitLenInt start, QPagerPtr dest)
 {
-    const bitLenInt length = dest->GetQubitCount();
-    CombineEngines(length + 1U);
-
-    if ((start + length) > qubitsPerPage()) {
-        ROR(start, 0, qubitCount);
-        Decompose(0, dest);
-
-        return ROL(start, 0, qubitCount);
-    }
-
+    // The phase convention of the separated factors is only consistent across pages if they are combined.
+    CombineEngines();
     dest->CombineEngines();
 
-    bool isDecomposed = false;
-    for (QEnginePtr& qPage : qPages) {
-        if (!isDecomposed && !qPage->IsZeroAmplitude()) {
-            qPage->Decompose(start, dest->qPages[0U]);
-            dest->qPages[0U]->UpdateRunningNorm();
-            dest->qPages[0U]->NormalizeState();
-            isDecomposed = true;
-        } else {
-            qPage->Dispose(start, length);
-        }
-    }
+    qPages[0U]->Decompose(start, dest->qPages[0U]);
 
-    SetQubitCount(qubitCount - length);
+    SetQubitCount(qubitCount - dest->GetQubitCount());
 
-    CombineEngines(thresholdQubitsPerPage);
     SeparateEngines();
+    dest->SeparateEngines();
 }
 
 void QPager::Dispose(bitLenInt start, bitLenInt length)
 {
-    CombineEngines(length + 1U);
-
-    if ((start + length) > qubitsPerPage()) {
-        ROR(start, 0, qubitCount);
-        Dispose(0, length);
-
-        return ROL(start, 0, qubitCount);
-    }
+    CombineEngines();
 
-    for (const QEnginePtr& qPage : qPages) {
-        qPage->Dispose(start, length);
-    }
+    qPages[0U]->Dispose(start, length);
 
     SetQubitCount(qubitCount - length);
 
-    CombineEngines(thresholdQubitsPerPage);
     SeparateEngines();
 }
 
-- 
2.43.0


From 0fc4a0dcf0feb04120cc9dae55edb386743440e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:17 +0000
Subject: [PATCH 047/106] fix: generic Compose at an index returns that index

---
 src/qinterface/qinterface.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/qinterface/qinterface.cpp b/src/qinterface/qinterface.cpp
index 53cd22b..d16dd3d 100644
--- a/src/qinterface/qinterface.cpp
+++ b/src/qinterface/qinterface.cpp
@@ -403,10 +403,10 @@ bitLenInt QInterface::Compose(QInterfacePtr toCopy, bitLenInt start)
 
     const bitLenInt origSize = qubitCount;
     ROL(origSize - start, 0, qubitCount);
-    const bitLenInt result = Compose(toCopy);
+    Compose(toCopy);
     ROR(origSize - start, 0, qubitCount);
 
-    return result;
+    return start;
 }
 
 std::map<QInterfacePtr, bitLenInt> QInterface::Compose(std::vector<QInterfacePtr> toCopy)
-- 
2.43.0


From 6f0e0112e53d54d67fc5acb1cefc8cb21dfc6ce2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:28 +0000
Subject: [PATCH 048/106] fix: paged state comparison uses one global phase for
 all pages

---
 src/qpager.cpp | 36 ++++++------------------------------
 1 file changed, 6 insertions(+), 30 deletions(-)

diff --git a/src/qpager.cpp b/src/qpager.cpp
index a456914..61d0430 100644
--- a/src/qpager.cpp
+++ b/src/qpager.cpp
@@ -1623,36 +1623,12 @@ real1_f QPager::SumSqrDiff(QPagerPtr toCompare)
         return ONE_R1_F;
     }
 
-    SeparateEngines(toCompare->qubitsPerPage());
-    toCompare->SeparateEngines(qubitsPerPage());
-    CombineEngines(toCompare->qubitsPerPage());
-    toCompare->CombineEngines(qubitsPerPage());
-
-    real1_f toRet = ZERO_R1_F;
-#if ENABLE_PTHREAD
-    const unsigned numCores = GetConcurrencyLevel();
-    const bitCapIntOcl fCount = (qPages.size() < numCores) ? qPages.size() : numCores;
-    std::vector<std::future<real1_f>> futures(fCount);
-#endif
-    for (bitCapIntOcl i = 0U; i < qPages.size(); ++i) {
-        QEnginePtr lEngine = qPages[i];
-        QEnginePtr rEngine = toCompare->qPages[i];
-#if ENABLE_PTHREAD
-        const bitCapIntOcl iF = i % fCount;
-        if (i != iF) {
-            toRet += futures[iF].get();
-        }
-        futures[iF] = std::async(std::launch::async, [lEngine, rEngine]() { return lEngine->SumSqrDiff(rEngine); });
-#else
-        toRet += lEngine->SumSqrDiff(rEngine);
-#endif
-    }
-
-#if ENABLE_PTHREAD
-    for (std::future<real1_f>& future : futures) {
-        toRet += future.get();
-    }
-#endif
+    // The comparison is up to one global phase, which is common to all of the pages.
+    CombineEngines();
+    toCompare->CombineEngines();
+    const real1_f toRet = qPages[0U]->SumSqrDiff(toCompare->qPages[0U]);
+    SeparateEngines();
+    toCompare->SeparateEngines();
 
     return toRet;
 }
-- 
2.43.0


From e3c9ffb47352c8eac2ec9523e30624bcbd39d992 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:28 +0000
Subject: [PATCH 049/106] fix: page masks of controlled gates with a high
 control are not truncated

---
 src/qpager.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qpager.cpp b/src/qpager.cpp
index 61d0430..c04a5b0 100644
--- a/src/qpager.cpp
+++ b/src/qpager.cpp
@@ -562,7 +562,7 @@ void QPager::SemiMetaControlled(
 {
     const bitLenInt qpp = qubitsPerPage();
 
-    std::vector<bitLenInt> sortedMasks(controls.size());
+    std::vector<bitCapIntOcl> sortedMasks(controls.size());
 
     bitCapIntOcl controlMask = 0U;
     for (size_t i = 0U; i < controls.size(); ++i) {
-- 
2.43.0


From 392f76e3c5cd4699de041b1fc8a08d76c3cdc87b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:37 +0000
Subject: [PATCH 050/106] fix: a copy of a paged simulator does not share its
 pages

---
 src/qpager.cpp | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/src/qpager.cpp b/src/qpager.cpp
index c04a5b0..151e800 100644
--- a/src/qpager.cpp
+++ b/src/qpager.cpp
@@ -1601,14 +1601,8 @@ QEnginePtr QPager::CloneEmpty()
 
 QInterfacePtr QPager::Copy()
 {
-    SeparateEngines();
-    QPagerPtr clone = std::make_shared<QPager>(engines, qubitCount, ZERO_BCI, rand_generator, ONE_CMPLX, doNormalize,
-        randGlobalPhase, false, 0, !hardware_rand_generator ? false : true, isSparse, (real1_f)amplitudeFloor,
-        deviceIDs, thresholdQubitsPerPage);
-    for (bitCapIntOcl i = 0U; i < qPages.size(); ++i) {
-        clone->qPages[i] = std::dynamic_pointer_cast<QEngine>(qPages[i]->Copy());
-    }
-    return clone;
+    // Gates act in place on the pages, so a copy may not share their state vectors.
+    return Clone();
 }
 
 real1_f QPager::SumSqrDiff(QPagerPtr toCompare)
-- 
2.43.0


From 41248b59757913f4f65542a92632b62747b8b50f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:47 +0000
Subject: [PATCH 051/106] fix: generic engine conditional probability is
 normalized by the control probability

---
 src/qengine/qengine.cpp | 13 +------------
 1 file changed, 1 insertion(+), 12 deletions(-)

diff --git a/src/qengine/qengine.cpp b/src/qengine/qengine.cpp
index 9873a94..c50944f 100644
--- a/src/qengine/qengine.cpp
+++ b/src/qengine/qengine.cpp
@@ -456,18 +456,7 @@ void QEngine::FSim(real1_f theta, real1_f phi, bitLenInt qubit1, bitLenInt qubit
 
 real1_f QEngine::CtrlOrAntiProb(bool controlState, bitLenInt control, bitLenInt target)
 {
-    if (controlState) {
-        AntiCNOT(control, target);
-    } else {
-        CNOT(control, target);
-    }
-    const real1_f prob = Prob(target);
-    if (controlState) {
-        AntiCNOT(control, target);
-    } else {
-        CNOT(control, target);
-    }
-    return prob;
+    return controlState ? QInterface::CProb(control, target) : QInterface::ACProb(control, target);
 }
 
 void QEngine::ProbRegAll(bitLenInt start, bitLenInt length, real1* probsArray)
-- 
2.43.0


From e5d852f5554a9ef75ff5c0c5e3985eb2ba2391fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:47 +0000
Subject: [PATCH 052/106] fix: paged expectation and variance over all bits
 does not address bits outside of a page

---
 src/qpager.cpp | 42 +++---------------------------------------
 1 file changed, 3 insertions(+), 39 deletions(-)

diff --git a/src/qpager.cpp b/src/qpager.cpp
index 151e800..cfc6191 100644
--- a/src/qpager.cpp
+++ b/src/qpager.cpp
@@ -1507,48 +1507,12 @@ real1_f QPager::ProbMask(const bitCapInt& mask, const bitCapInt& permutation)
 
 real1_f QPager::ExpVarBitsAll(bool isExp, const std::vector<bitLenInt>& bits, const bitCapInt& offset)
 {
-    if (bits.size() != qubitCount) {
+    if (qPages.size() > 1U) {
+        // The bits can be outside of a page, and variance is not additive over pages.
         return QInterface::ExpVarBitsAll(isExp, bits, offset);
     }
 
-    for (bitCapIntOcl i = 0U; i < bits.size(); ++i) {
-        if (bits[i] != i) {
-            return QInterface::ExpVarBitsAll(isExp, bits, offset);
-        }
-    }
-
-    const bitCapIntOcl pagePower = (bitCapIntOcl)pageMaxQPower();
-    real1_f expectation = ZERO_R1_F;
-    bitCapIntOcl pagePerm = 0U;
-#if ENABLE_PTHREAD
-    const unsigned numCores = GetConcurrencyLevel();
-    const bitCapIntOcl fCount = (qPages.size() < numCores) ? qPages.size() : numCores;
-    std::vector<std::future<real1_f>> futures(fCount);
-#endif
-    for (bitCapIntOcl i = 0U; i < qPages.size(); ++i) {
-        QEnginePtr engine = qPages[i];
-#if ENABLE_PTHREAD
-        const bitCapIntOcl iF = i % fCount;
-        if (i != iF) {
-            expectation += futures[iF].get();
-        }
-        futures[iF] = std::async(std::launch::async, [engine, isExp, bits, pagePerm, offset]() {
-            return isExp ? engine->ExpectationBitsAll(bits, pagePerm + (bitCapIntOcl)offset)
-                         : engine->VarianceBitsAll(bits, pagePerm + (bitCapIntOcl)offset);
-        });
-#else
-        expectation += isExp ? engine->ExpectationBitsAll(bits, pagePerm + offset)
-                             : engine->VarianceBitsAll(bits, pagePerm + offset);
-#endif
-        pagePerm += pagePower;
-    }
-#if ENABLE_PTHREAD
-    for (std::future<real1_f>& future : futures) {
-        expectation += future.get();
-    }
-#endif
-
-    return expectation;
+    return isExp ? qPages[0U]->ExpectationBitsAll(bits, offset) : qPages[0U]->VarianceBitsAll(bits, offset);
 }
 
 void QPager::UpdateRunningNorm(real1_f norm_thresh)
-- 
2.43.0


From b489c6434c1ee70e84aca5da0048ff11e516564c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:59 +0000
Subject: [PATCH 053/106] fix: clones of a noisy simulator keep the qubit count
 and other base settings

---
 include/qinterface_noisy.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/qinterface_noisy.hpp b/include/qinterface_noisy.hpp
index d213da4..c5b4496 100644
--- a/include/qinterface_noisy.hpp
+++ b/include/qinterface_noisy.hpp
@@ -80,7 +80,9 @@ public:
         bitLenInt qubitThreshold = 0U, real1_f separation_thresh = _qrack_qunit_sep_thresh);
 
     QInterfaceNoisy(QInterfaceNoisy* o)
-        : noiseParam(o->noiseParam)
+        : QInterface(*o)
+        , logFidelity(o->logFidelity)
+        , noiseParam(o->noiseParam)
         , engine(o->engine)
         , engines(o->engines)
     {
-- 
2.43.0


From 348c53386f77ae552d51debde53c572316518cba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:59 +0000
Subject: [PATCH 054/106] fix: noisy simulators leave the qubit count of the
 wrapped engine to the engine when composing and decomposing

---
 include/qinterface_noisy.hpp | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/include/qinterface_noisy.hpp b/include/qinterface_noisy.hpp
index c5b4496..f369298 100644
--- a/include/qinterface_noisy.hpp
+++ b/include/qinterface_noisy.hpp
@@ -95,12 +95,6 @@ public:
     double GetUnitaryFidelity() { return (double)exp(logFidelity); }
     void ResetUnitaryFidelity() { logFidelity = 0.0; }
 
-    void SetQubitCount(bitLenInt qb)
-    {
-        QInterface::SetQubitCount(qb);
-        engine->SetQubitCount(qb);
-    }
-
     bool isOpenCL() { return engine->isOpenCL(); }
 
     void SetConcurrency(uint32_t threadCount)
@@ -152,7 +146,9 @@ public:
     QInterfacePtr Decompose(bitLenInt start, bitLenInt length)
     {
         QInterfaceNoisyPtr dest = std::make_shared<QInterfaceNoisy>(this);
-        engine->Decompose(start, dest->engine);
+        dest->engine = engine->Decompose(start, length);
+        dest->SetQubitCount(length);
+        SetQubitCount(qubitCount - length);
 
         return dest;
     }
-- 
2.43.0


From 1da9126dab5b1191b4b3036ee4de13d187d3cb03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:07 +0000
Subject: [PATCH 055/106] fix: QUnit controlled addition marks the right qubits
 as changed

---
 src/qunit.cpp | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/qunit.cpp b/src/qunit.cpp
index beab2eb..b3e6479 100644
--- a/src/qunit.cpp
+++ b/src/qunit.cpp
@@ -2958,10 +2958,15 @@ void QUnit::INT(const bitCapInt& _toMod, bitLenInt start, bitLenInt length, bitL
     std::copy(controls.begin(), controls.end(), allBits.begin());
     std::sort(allBits.begin(), allBits.begin() + controlLen);
 
-    std::vector<bitLenInt*> ebits(allBits.size());
-    for (size_t i = 0; i < ebits.size(); ++i) {
-        ebits[i] = &allBits[i];
-    }
+    // "Entangle()" replaces the indices it's given with mapped ones, so it gets its own copy of them.
+    const auto entangleControlled = [this, &allBits]() {
+        std::vector<bitLenInt> mappedBits(allBits);
+        std::vector<bitLenInt*> ebits(mappedBits.size());
+        for (size_t j = 0U; j < ebits.size(); ++j) {
+            ebits[j] = &mappedBits[j];
+        }
+        return Entangle(ebits);
+    };
 
     // Try ripple addition, to avoid entanglement.
     const bitLenInt origLength = length;
@@ -3042,7 +3047,7 @@ void QUnit::INT(const bitCapInt& _toMod, bitLenInt start, bitLenInt length, bitL
                 DirtyShardRange(start, partLength);
                 if (controlLen) {
                     allBits[controlLen] = start;
-                    QInterfacePtr unit = Entangle(ebits);
+                    QInterfacePtr unit = entangleControlled();
                     DirtyShardIndexVector(allBits);
                     std::vector<bitLenInt> lControls(controlLen);
                     for (bitLenInt cIndex = 0U; cIndex < controlLen; ++cIndex) {
@@ -3092,7 +3097,7 @@ void QUnit::INT(const bitCapInt& _toMod, bitLenInt start, bitLenInt length, bitL
         DirtyShardRange(start, length);
         if (controlLen) {
             allBits[controlLen] = start;
-            QInterfacePtr unit = Entangle(ebits);
+            QInterfacePtr unit = entangleControlled();
             DirtyShardIndexVector(allBits);
             std::vector<bitLenInt> lControls(controlLen);
             for (bitLenInt cIndex = 0U; cIndex < controlLen; ++cIndex) {
-- 
2.43.0


From a902694e701ec0217d2ceea98452526380694c37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:20 +0000
Subject: [PATCH 056/106] fix: QUnit reads the probability of a separable qubit
 in Z basis, after its basis might have been switched

---
 include/qunit.hpp | 12 +++++++++++-
 src/qunit.cpp     | 12 ++++++------
 2 files changed, 17 insertions(+), 7 deletions(-)

diff --git a/include/qunit.hpp b/include/qunit.hpp
index de12630..6cc4dfe 100644
--- a/include/qunit.hpp
+++ b/include/qunit.hpp
@@ -458,7 +458,7 @@ public:
         }
 
         ToPermBasisProb(qubit);
-        return ProbBase(qubit);
+        return ProbBaseZ(qubit);
     }
     virtual real1_f ProbAll(const bitCapInt& perm) { return clampProb((real1_f)norm(GetAmplitudeOrProb(perm, true))); }
     virtual real1_f ProbAllRdm(bool roundRz, const bitCapInt& perm)
@@ -615,6 +615,16 @@ protected:
         shard.amp1 = -shard.amp1;
     }
     virtual real1_f ProbBase(bitLenInt qubit);
+    /// ProbBase() might leave a separable qubit in X or Y basis. This always leaves it (and reads it) in Z basis.
+    real1_f ProbBaseZ(bitLenInt qubit)
+    {
+        const real1_f prob = ProbBase(qubit);
+        if (shards[qubit].pauliBasis == PauliZ) {
+            return prob;
+        }
+        RevertBasis1Qb(qubit);
+        return ProbBase(qubit);
+    }
 
     virtual bool TrySeparateClifford(bitLenInt qubit);
 
diff --git a/src/qunit.cpp b/src/qunit.cpp
index b3e6479..3eb43e1 100644
--- a/src/qunit.cpp
+++ b/src/qunit.cpp
@@ -48,13 +48,13 @@
 #define CACHED_Z(shard) ((shard.pauliBasis == PauliZ) && !DIRTY(shard) && !QUEUED_PHASE(shard))
 #define CACHED_ZERO(q)                                                                                                 \
     (CACHED_Z(shards[q]) && !(shards[q].unit && shards[q].unit->isClifford() && shards[q].unit->GetTInjection()) &&    \
-        (ProbBase(q) <= FP_NORM_EPSILON))
+        (ProbBase(q) <= FP_NORM_EPSILON) && (shards[q].pauliBasis == PauliZ))
 #define CACHED_ONE(q)                                                                                                  \
     (CACHED_Z(shards[q]) && !(shards[q].unit && shards[q].unit->isClifford() && shards[q].unit->GetTInjection()) &&    \
-        ((ONE_R1_F - ProbBase(q)) <= FP_NORM_EPSILON))
+        ((ONE_R1_F - ProbBase(q)) <= FP_NORM_EPSILON) && (shards[q].pauliBasis == PauliZ))
 #define CACHED_PLUS(q)                                                                                                 \
     (CACHED_X(shards[q]) && !(shards[q].unit && shards[q].unit->isClifford() && shards[q].unit->GetTInjection()) &&    \
-        (ProbBase(q) <= FP_NORM_EPSILON))
+        (ProbBase(q) <= FP_NORM_EPSILON) && (shards[q].pauliBasis == PauliX))
 // "UNSAFE" variants here do not check whether the bit has cached 2-qubit gates.
 #define UNSAFE_CACHED_ZERO_OR_ONE(shard)                                                                               \
     (!shard.isProbDirty && (shard.pauliBasis == PauliZ) && (IS_NORM_0(shard.amp0) || IS_NORM_0(shard.amp1)))
@@ -2575,7 +2575,7 @@ bool QUnit::TrimControls(const std::vector<bitLenInt>& controls, std::vector<bit
             continue;
         }
 
-        ProbBase(control);
+        ProbBaseZ(control);
 
         // This might determine that we can just skip out of the whole gate, in which case we return.
         if (IS_NORM_0(shard.amp1)) {
@@ -2604,7 +2604,7 @@ bool QUnit::TrimControls(const std::vector<bitLenInt>& controls, std::vector<bit
 
         RevertBasis1Qb(control);
 
-        ProbBase(control);
+        ProbBaseZ(control);
 
         // This might determine that we can just skip out of the whole gate, in which case we return.
         if (IS_NORM_0(shard.amp1)) {
@@ -2630,7 +2630,7 @@ bool QUnit::TrimControls(const std::vector<bitLenInt>& controls, std::vector<bit
 
         ToPermBasisProb(control);
 
-        ProbBase(control);
+        ProbBaseZ(control);
 
         bool isEigenstate = false;
         // This might determine that we can just skip out of the whole gate, in which case we return.
-- 
2.43.0


From 4f6fd5d53b38d30caada4aecb455c6c59ae9ac36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:20 +0000
Subject: [PATCH 057/106] fix: QUnit expectation and variance of bits first
 return to Z basis

---
 include/qunit.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/qunit.hpp b/include/qunit.hpp
index 6cc4dfe..250a394 100644
--- a/include/qunit.hpp
+++ b/include/qunit.hpp
@@ -670,6 +670,10 @@ protected:
         ThrowIfQbIdArrayIsBad(bits, qubitCount,
             "QUnit::ExpectationFactorized parameter qubits vector values must be within allocated qubit bounds!");
 
+        if (shards[0U].unit && (shards[0U].unit->GetQubitCount() == qubitCount)) {
+            ToPermBasisProb();
+        }
+
         if (shards[0U].unit && (shards[0U].unit->GetQubitCount() == qubitCount)) {
             OrderContiguous(shards[0U].unit);
             return isExp  ? isFloat
-- 
2.43.0


From a61f1efdacf17d8a1c0258022bf5afc6c9786da8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:20 +0000
Subject: [PATCH 058/106] fix: QUnit state comparison of single qubits ignores
 global phase

---
 src/qunit.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/qunit.cpp b/src/qunit.cpp
index 3eb43e1..2fa3fff 100644
--- a/src/qunit.cpp
+++ b/src/qunit.cpp
@@ -3831,7 +3831,8 @@ real1_f QUnit::SumSqrDiff(QUnitPtr toCompare)
             oAmps[1U] = thatShard.amp1;
         }
 
-        return (real1_f)(norm(mAmps[0U] - oAmps[0U]) + norm(mAmps[1U] - oAmps[1U]));
+        return (real1_f)clampProb(
+            (real1_f)(ONE_R1 - norm(conj(mAmps[0U]) * oAmps[0U] + conj(mAmps[1U]) * oAmps[1U])));
     }
 
     if (CheckBitsPermutation(0U, qubitCount) && toCompare->CheckBitsPermutation(0U, qubitCount)) {
-- 
2.43.0


From d9e079257292bd8dce6ac82afe0b1f27d86ce492 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:20 +0000
Subject: [PATCH 059/106] fix: QUnit MultiShotMeasureMask maps each qubit, and
 samples unbiased pairs

---
 src/qunit.cpp | 26 +++++++++++---------------
 1 file changed, 11 insertions(+), 15 deletions(-)

diff --git a/src/qunit.cpp b/src/qunit.cpp
index 2fa3fff..089c943 100644
--- a/src/qunit.cpp
+++ b/src/qunit.cpp
@@ -1617,7 +1617,7 @@ std::map<bitCapInt, int> QUnit::MultiShotMeasureMask(const std::vector<bitCapInt
 
                 auto pickIter = topLevelResults.begin();
                 int count = pickIter->second;
-                while (pick > count) {
+                while (pick >= count) {
                     ++pickIter;
                     count += pickIter->second;
                 }
@@ -1705,15 +1705,16 @@ void QUnit::MultiShotMeasureMask(const std::vector<bitCapInt>& qPowers, unsigned
     if (qPowers.size() != shards.size()) {
         ToPermBasisProb();
 
-        QInterfacePtr unit = shards[log2(qPowers[0U])].unit;
+        const size_t qubit0 = log2(qPowers[0U]);
+        if (qubit0 >= qubitCount) {
+            throw std::invalid_argument("QUnit::MultiShotMeasureMask parameter qPowers array values must be within "
+                                        "allocated qubit bounds!");
+        }
+
+        QInterfacePtr unit = shards[qubit0].unit;
         if (unit) {
             std::vector<bitCapInt> mappedIndices(qPowers.size());
-            for (bitLenInt j = 0U; j < qubitCount; ++j) {
-                if (qPowers[0U] >= pow2(j)) {
-                    mappedIndices[0U] = pow2(shards[j].mapped);
-                    break;
-                }
-            }
+            mappedIndices[0U] = pow2(shards[qubit0].mapped);
             for (size_t i = 1U; i < qPowers.size(); ++i) {
                 const size_t qubit = log2(qPowers[i]);
                 if (qubit >= qubitCount) {
@@ -1725,12 +1726,7 @@ void QUnit::MultiShotMeasureMask(const std::vector<bitCapInt>& qPowers, unsigned
                     unit = nullptr;
                     break;
                 }
-                for (bitLenInt j = 0U; j < qubitCount; ++j) {
-                    if (qPowers[i] >= pow2(j)) {
-                        mappedIndices[i] = pow2(shards[j].mapped);
-                        break;
-                    }
-                }
+                mappedIndices[i] = pow2(shards[qubit].mapped);
             }
 
             if (unit) {
@@ -1745,7 +1741,7 @@ void QUnit::MultiShotMeasureMask(const std::vector<bitCapInt>& qPowers, unsigned
     std::map<bitCapInt, int>::iterator it = results.begin();
     while (it != results.end() && (j < shots)) {
         for (int i = 0; i < it->second; ++i) {
-            shotsArray[j] = (unsigned)(bitCapIntOcl)it->first;
+            shotsArray[j] = (unsigned long long)(bitCapIntOcl)it->first;
             ++j;
         }
 
-- 
2.43.0


From 39f15212f9249303e5f50f811bf20948dd9b2776 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:20 +0000
Subject: [PATCH 060/106] fix: QUnit Decompose, Dispose and TryDecompose keep
 qubit mappings consistent

---
 src/qunit.cpp | 106 +++++++++++++++++++++++++-------------------------
 1 file changed, 52 insertions(+), 54 deletions(-)

diff --git a/src/qunit.cpp b/src/qunit.cpp
index 089c943..43d4157 100644
--- a/src/qunit.cpp
+++ b/src/qunit.cpp
@@ -312,7 +312,19 @@ bool QUnit::Detach(bitLenInt start, bitLenInt length, QUnitPtr dest, bool isTry,
     // After ordering all subunits contiguously, since the top level mapping is a contiguous array, all subunit sets are
     // also contiguous. From the lowest index bits, they are mapped simply for the length count of bits involved in the
     // entire subunit.
-    std::map<QInterfacePtr, bitLenInt> decomposedUnits;
+    std::map<QInterfacePtr, bitLenInt> subStarts;
+    std::map<QInterfacePtr, QInterfacePtr> decomposedUnits;
+    const auto emulate = [](QEngineShard& shard) {
+        complex amps[2U];
+        shard.unit->GetQuantumState(amps);
+        shard.amp0 = amps[0U];
+        shard.amp1 = amps[1U];
+        shard.isProbDirty = false;
+        shard.isPhaseDirty = false;
+        shard.unit = nullptr;
+        shard.mapped = 0U;
+        shard.ClampAmps();
+    };
     for (bitLenInt i = 0U; i < length; ++i) {
         QEngineShard& shard = shards[start + i];
         QInterfacePtr unit = shard.unit;
@@ -321,80 +333,66 @@ bool QUnit::Detach(bitLenInt start, bitLenInt length, QUnitPtr dest, bool isTry,
             continue;
         }
 
+        const bitLenInt subLen = subunits[unit];
         if (decomposedUnits.find(unit) == decomposedUnits.end()) {
-            decomposedUnits[unit] = start + i;
-            const bitLenInt subLen = subunits[unit];
             const bitLenInt origLen = unit->GetQubitCount();
-            if (subLen != origLen) {
+            if (subLen == origLen) {
+                subStarts[unit] = 0U;
+                decomposedUnits[unit] = unit;
+            } else {
+                const bitLenInt subStart = shard.mapped;
+                QInterfacePtr nUnit = unit;
                 if (dest || isTry) {
-                    QInterfacePtr nUnit = MakeEngine(subLen, ZERO_BCI);
+                    nUnit = MakeEngine(subLen, ZERO_BCI);
                     if (isTry) {
-                        if (!shard.unit->TryDecompose(shard.mapped, nUnit, tol)) {
+                        if (!unit->TryDecompose(subStart, nUnit, tol)) {
                             Copy(copy);
                             return false;
                         }
                     } else {
-                        shard.unit->Decompose(shard.mapped, nUnit);
+                        unit->Decompose(subStart, nUnit);
                     }
-                    shard.unit = nUnit;
                 } else {
-                    shard.unit->Dispose(shard.mapped, subLen);
-                }
-
-                if ((subLen == 1U) && dest) {
-                    complex amps[2U];
-                    shard.unit->GetQuantumState(amps);
-                    shard.amp0 = amps[0U];
-                    shard.amp1 = amps[1U];
-                    shard.isProbDirty = false;
-                    shard.isPhaseDirty = false;
-                    shard.unit = nullptr;
-                    shard.mapped = 0U;
-                    shard.ClampAmps();
-                }
-
-                if (subLen == (origLen - 1U)) {
-                    bitLenInt mapped = shards[decomposedUnits[unit]].mapped;
-                    if (!mapped) {
-                        mapped += subLen;
-                    } else {
-                        mapped = 0U;
-                    }
-                    for (QEngineShard& shard : shards) {
-                        if (!((shard.unit == unit) && (shard.mapped == mapped))) {
-                            continue;
-                        }
-
-                        complex amps[2U];
-                        shard.unit->GetQuantumState(amps);
-                        shard.amp0 = amps[0U];
-                        shard.amp1 = amps[1U];
-                        shard.isProbDirty = false;
-                        shard.isPhaseDirty = false;
-                        shard.unit = nullptr;
-                        shard.mapped = 0U;
-                        shard.ClampAmps();
-
-                        break;
-                    }
+                    unit->Dispose(subStart, subLen);
                 }
+                subStarts[unit] = subStart;
+                decomposedUnits[unit] = nUnit;
             }
-        } else {
-            shard.unit = shards[decomposedUnits[unit]].unit;
         }
 
-        if (dest) {
-            dest->shards[i] = shard;
+        if (!dest) {
+            continue;
+        }
+
+        QEngineShard& dShard = dest->shards[i];
+        dShard = shard;
+        dShard.unit = decomposedUnits[unit];
+        dShard.mapped -= subStarts[unit];
+
+        if ((subLen == 1U) && (dShard.unit != unit)) {
+            emulate(dShard);
         }
     }
 
     // Find the rest of the qubits.
-    for (auto&& shard : shards) {
+    for (bitLenInt i = 0U; i < qubitCount; ++i) {
+        if ((i >= start) && (i < (start + length))) {
+            continue;
+        }
+
+        QEngineShard& shard = shards[i];
         const auto subunit = subunits.find(shard.unit);
-        if (subunit != subunits.end() &&
-            shard.mapped >= (shards[decomposedUnits[shard.unit]].mapped + subunit->second)) {
+        if (subunit == subunits.end()) {
+            continue;
+        }
+
+        if (shard.mapped >= (subStarts[shard.unit] + subunit->second)) {
             shard.mapped -= subunit->second;
         }
+
+        if (shard.unit->GetQubitCount() == 1U) {
+            emulate(shard);
+        }
     }
 
     shards.erase(start, start + length);
-- 
2.43.0


From 44180700d545ba30cdabe41d2ef51c4dd273cc1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:15 +0000
Subject: [PATCH 061/106] fix: QUnit Decompose and Dispose do not leave gate
 buffers pointing to moved qubits

---
 src/qunit.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/qunit.cpp b/src/qunit.cpp
index 43d4157..3d673ac 100644
--- a/src/qunit.cpp
+++ b/src/qunit.cpp
@@ -283,8 +283,9 @@ bool QUnit::Detach(bitLenInt start, bitLenInt length, QUnitPtr dest, bool isTry,
         throw std::invalid_argument("QUnit::Detach range is out-of-bounds!");
     }
 
-    for (bitLenInt i = 0U; i < length; ++i) {
-        RevertBasis2Qb(start + i);
+    // 2-qubit buffers point to their partner shards, which are moved when the range is erased.
+    for (bitLenInt i = 0U; i < qubitCount; ++i) {
+        RevertBasis2Qb(i);
     }
 
     // Move "emulated" bits immediately into the destination, which is initialized.
-- 
2.43.0


From 13feebc1fa6de28d0931a08d926b3c3cd406dbfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:45 +0000
Subject: [PATCH 062/106] fix: QUnit sampling without collapse keeps buffered
 gates

---
 src/qunit.cpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/qunit.cpp b/src/qunit.cpp
index 3d673ac..ac85e8b 100644
--- a/src/qunit.cpp
+++ b/src/qunit.cpp
@@ -1378,7 +1378,8 @@ bool QUnit::ForceM(bitLenInt qubit, bool res, bool doForce, bool doApply)
         RevertBasis1Qb(qubit);
         RevertBasis2Qb(qubit, ONLY_INVERT, ONLY_TARGETS);
     } else {
-        ToPermBasisMeasure(qubit);
+        // (The state isn't collapsed, so no buffered gate can be discarded.)
+        ToPermBasisProb(qubit);
     }
 
     QEngineShard& shard = shards[qubit];
@@ -1456,10 +1457,8 @@ bitCapInt QUnit::ForceMReg(bitLenInt start, bitLenInt length, const bitCapInt& r
         return MAll();
     }
 
-    // This will discard all buffered gates that don't affect Z basis probability,
-    // so it's safe to call ToPermBasis() without performance penalty, afterward.
     if (!doApply) {
-        ToPermBasisMeasure(start, length);
+        ToPermBasisProb(start, length);
     }
 
     return QInterface::ForceMReg(start, length, result, doForce, doApply);
-- 
2.43.0


From d741f8ef948feabb068932476bb380c54a8b3264 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:45 +0000
Subject: [PATCH 063/106] fix: QUnit SetReg flushes gates buffered on the set
 qubits

---
 src/qunit.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/qunit.cpp b/src/qunit.cpp
index ac85e8b..b0a2022 100644
--- a/src/qunit.cpp
+++ b/src/qunit.cpp
@@ -1750,6 +1750,11 @@ void QUnit::MultiShotMeasureMask(const std::vector<bitCapInt>& qPowers, unsigned
 /// Set register bits to given permutation
 void QUnit::SetReg(bitLenInt start, bitLenInt length, const bitCapInt& value)
 {
+    // (Even after measurement, the qubits might be targets of buffered phase gates, that act on their controls.)
+    for (bitLenInt i = 0U; i < length; ++i) {
+        RevertBasis2Qb(i + start);
+    }
+
     MReg(start, length);
 
     for (bitLenInt i = 0U; i < length; ++i) {
-- 
2.43.0


From fb602319a093b5bdca935555830fb6c97284af8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:45 +0000
Subject: [PATCH 064/106] fix: QUnit normalizes a unit by the probability of
 the separated qubit

---
 src/qunit.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qunit.cpp b/src/qunit.cpp
index b0a2022..a19034f 100644
--- a/src/qunit.cpp
+++ b/src/qunit.cpp
@@ -1336,7 +1336,7 @@ bool QUnit::SeparateBit(bool value, bitLenInt qubit)
         return true;
     }
 
-    const real1_f prob = HALF_R1_F - unit->Prob(shard.mapped);
+    const real1_f prob = HALF_R1_F - unit->Prob(mapped);
     unit->Dispose(mapped, 1U, value ? ONE_BCI : ZERO_BCI);
 
     if (!unit->isBinaryDecisionTree() && ((HALF_R1 - abs(prob)) > FP_NORM_EPSILON)) {
-- 
2.43.0


From 632ab953e00f4336cadc9893721d6653864ff260 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:45 +0000
Subject: [PATCH 065/106] fix: a copy of a QUnit does not share engines or gate
 buffers with the original

---
 include/qunit.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/qunit.hpp b/include/qunit.hpp
index 250a394..8a8631c 100644
--- a/include/qunit.hpp
+++ b/include/qunit.hpp
@@ -63,7 +63,9 @@ protected:
         logFidelity = orig->logFidelity;
         devID = orig->devID;
         phaseFactor = orig->phaseFactor;
-        shards = orig->shards;
+        // (This flushes 2-qubit buffers, which point to shards of the original, and it doesn't share any engine.)
+        QUnitPtr copy = std::dynamic_pointer_cast<QUnit>(orig->Copy());
+        shards = copy->shards;
         deviceIDs = orig->deviceIDs;
         engines = orig->engines;
     }
-- 
2.43.0


From c5d9270678628069b61c83aec0b3aead990c14af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:16 +0000
Subject: [PATCH 066/106] fix: QUnit Copy() doesn't share state vectors, since
 its gates act on them in place

---
 src/qunit.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/qunit.cpp b/src/qunit.cpp
index a19034f..5b8b772 100644
--- a/src/qunit.cpp
+++ b/src/qunit.cpp
@@ -3910,7 +3910,8 @@ QInterfacePtr QUnit::CloneBody(QUnitPtr copyPtr, bool isCopy)
         }
 
         if (dupeEngines.find(unit) == dupeEngines.end()) {
-            dupeEngines[unit] = isCopy ? unit->Copy() : unit->Clone();
+            // (A unit's gates act in place, so even a "copy" may not share its state vector.)
+            dupeEngines[unit] = unit->Clone();
         }
 
         copyPtr->shards[i].unit = dupeEngines[unit];
-- 
2.43.0


From 9c4b637dc258a40185649fb1bea09278d5d80e8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:25 +0000
Subject: [PATCH 067/106] fix: ForceMParity normalizes its result, as
 GetAmplitude and others do not

---
 src/qengine/state.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/qengine/state.cpp b/src/qengine/state.cpp
index 65c2762..8c3ab1c 100644
--- a/src/qengine/state.cpp
+++ b/src/qengine/state.cpp
@@ -1564,9 +1564,8 @@ bool QEngineCPU::ForceMParity(const bitCapInt& mask, bool result, bool doForce)
 
     runningNorm = oddChance;
 
-    if (!doNormalize) {
-        NormalizeState();
-    }
+    // (The norm can be far from 1, and not everything that reads the state normalizes first.)
+    NormalizeState();
 
     return result;
 }
-- 
2.43.0


From e42ae80b90070b47c4779d525caa41250c50c5d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:01 +0000
Subject: [PATCH 068/106] fix: QUnit doesn't reorder gate buffers while one of
 them is being applied

---
 include/qunit.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/qunit.hpp b/include/qunit.hpp
index 8a8631c..7b3af30 100644
--- a/include/qunit.hpp
+++ b/include/qunit.hpp
@@ -1011,6 +1011,10 @@ protected:
 
     void Flush0Eigenstate(bitLenInt i)
     {
+        if (freezeBasis2Qb) {
+            // A buffer is being applied, and its caller relies on which buffers are controls and which targets.
+            return;
+        }
         QEngineShard& shard = shards[i];
         shard.DumpControlOf();
         if (randGlobalPhase) {
@@ -1020,6 +1024,10 @@ protected:
     }
     void Flush1Eigenstate(bitLenInt i)
     {
+        if (freezeBasis2Qb) {
+            // A buffer is being applied, and its caller relies on which buffers are controls and which targets.
+            return;
+        }
         QEngineShard& shard = shards[i];
         shard.DumpAntiControlOf();
         if (randGlobalPhase) {
-- 
2.43.0


From 4cb1c431a0c984db7372e47a8f5df34de7fc9ac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:07 +0000
Subject: [PATCH 069/106] fix: QStabilizer separates any separable range
 exactly, and keeps valid destabilizers

---
 include/qstabilizer.hpp |   4 ++
 src/qstabilizer.cpp     | 117 +++++++++++++++++++++++++---------------
 2 files changed, 78 insertions(+), 43 deletions(-)

diff --git a/include/qstabilizer.hpp b/include/qstabilizer.hpp
index 7164e8c..c850d1e 100644
--- a/include/qstabilizer.hpp
+++ b/include/qstabilizer.hpp
@@ -242,6 +242,10 @@ protected:
     real1_f getVariance(const real1_f& mean, const real1_f& nrm, const std::vector<bitCapInt>& bitPowers,
         const std::vector<real1_f>& weights);
 
+    bool separateRows(const bitLenInt& start, const bitLenInt& length);
+
+    void fixDestabilizers();
+
     void DecomposeDispose(const bitLenInt start, const bitLenInt length, QStabilizerPtr toCopy);
 
     real1_f ApproxCompareHelper(
diff --git a/src/qstabilizer.cpp b/src/qstabilizer.cpp
index 45e9ac0..885f230 100644
--- a/src/qstabilizer.cpp
+++ b/src/qstabilizer.cpp
@@ -1627,56 +1627,87 @@ bool QStabilizer::CanDecomposeDispose(const bitLenInt start, const bitLenInt len
 
     Finish();
 
-    // We want to have the maximum number of 0 cross terms possible.
-    gaussian();
+    return separateRows(start, length);
+}
 
+/**
+ * Row-reduces so that, if the range of qubits is separable, its stabilizer generators take the rows of the range, (and
+ * act on no other qubit,) while all other generators act on no qubit of the range. Returns "true" if it is separable.
+ */
+bool QStabilizer::separateRows(const bitLenInt& start, const bitLenInt& length)
+{
+    // For brevity:
+    const bitLenInt& n = qubitCount;
+    const bitLenInt maxLcv = n << 1U;
     const bitLenInt end = start + length;
+    bitLenInt i = n;
 
-    for (bitLenInt i = 0U; i < start; ++i) {
-        const bitLenInt i2 = i + qubitCount;
-        const BoolVector& xi = x[i];
-        const BoolVector& zi = z[i];
-        const BoolVector& xi2 = x[i2];
-        const BoolVector& zi2 = z[i2];
-        for (bitLenInt j = start; j < end; ++j) {
-            if (xi[j] || zi[j] || xi2[j] || zi2[j]) {
-                return false;
+    const auto eliminate = [&](std::vector<BoolVector>& pauli, bitLenInt j, bitLenInt first) {
+        // Find a generator containing the Pauli operator in jth column
+        for (bitLenInt k = i; k < maxLcv; ++k) {
+            if (!pauli[k][j]) {
+                continue;
             }
-        }
-    }
 
-    for (bitLenInt i = end; i < qubitCount; ++i) {
-        const bitLenInt i2 = i + qubitCount;
-        const BoolVector& xi = x[i];
-        const BoolVector& zi = z[i];
-        const BoolVector& xi2 = x[i2];
-        const BoolVector& zi2 = z[i2];
-        for (bitLenInt j = start; j < end; ++j) {
-            if (xi[j] || zi[j] || xi2[j] || zi2[j]) {
-                return false;
+            rowswap(i, k);
+            rowswap(i - n, k - n);
+            for (bitLenInt k2 = first; k2 < maxLcv; ++k2) {
+                if ((k2 != i) && pauli[k2][j]) {
+                    rowmult(k2, i);
+                    rowmult(i - n, k2 - n);
+                }
             }
+            ++i;
+
+            return;
         }
+    };
+
+    // Generators that act on any other qubit go to the top.
+    for (bitLenInt j = 0U; j < n; ++j) {
+        if ((j < start) || (j >= end)) {
+            eliminate(x, j, i + 1U);
+            eliminate(z, j, i + 1U);
+        }
+    }
+
+    if ((maxLcv - i) != length) {
+        return false;
     }
 
-    for (bitLenInt i = start; i < end; ++i) {
-        const bitLenInt i2 = i + qubitCount;
-        const BoolVector& xi = x[i];
-        const BoolVector& zi = z[i];
-        const BoolVector& xi2 = x[i2];
-        const BoolVector& zi2 = z[i2];
-        for (bitLenInt j = 0U; j < start; ++j) {
-            if (xi[j] || zi[j] || xi2[j] || zi2[j]) {
-                return false;
+    // All generators left act only on the range. Remove the range from the others.
+    for (bitLenInt j = start; j < end; ++j) {
+        eliminate(x, j, n);
+        eliminate(z, j, n);
+    }
+
+    const bitLenInt rest = n - length;
+    std::rotate(x.begin() + start, x.begin() + rest, x.begin() + n);
+    std::rotate(z.begin() + start, z.begin() + rest, z.begin() + n);
+    std::rotate(r.begin() + start, r.begin() + rest, r.begin() + n);
+    std::rotate(x.begin() + n + start, x.begin() + n + rest, x.begin() + maxLcv);
+    std::rotate(z.begin() + n + start, z.begin() + n + rest, z.begin() + maxLcv);
+    std::rotate(r.begin() + n + start, r.begin() + n + rest, r.begin() + maxLcv);
+
+    return true;
+}
+
+/**
+ * Makes the destabilizers commute with each other, without any change to which generator each of them anticommutes with
+ */
+void QStabilizer::fixDestabilizers()
+{
+    for (bitLenInt i = 1U; i < qubitCount; ++i) {
+        for (bitLenInt k = 0U; k < i; ++k) {
+            bool isAnti = false;
+            for (bitLenInt j = 0U; j < qubitCount; ++j) {
+                isAnti ^= (x[i][j] && z[k][j]) != (z[i][j] && x[k][j]);
             }
-        }
-        for (bitLenInt j = end; j < qubitCount; ++j) {
-            if (xi[j] || zi[j] || xi2[j] || zi2[j]) {
-                return false;
+            if (isAnti) {
+                rowmult(i, qubitCount + k);
             }
         }
     }
-
-    return true;
 }
 
 void QStabilizer::DecomposeDispose(const bitLenInt start, const bitLenInt length, QStabilizerPtr dest)
@@ -1696,12 +1727,8 @@ void QStabilizer::DecomposeDispose(const bitLenInt start, const bitLenInt length
 
     const AmplitudeEntry ampEntry = (randGlobalPhase || dest) ? AmplitudeEntry(ZERO_BCI, ONE_CMPLX) : GetAnyAmplitude();
 
-    // We want to have the maximum number of 0 cross terms possible.
-    gaussian();
-
-    // We assume that the bits to "decompose" the representation of already have 0 cross-terms in their generators
-    // outside inter- "dest" cross terms. (Usually, we're "decomposing" the representation of a just-measured single
-    // qubit.)
+    // The generators of a separable range of bits can be reduced to have no cross terms with any other bits.
+    separateRows(start, length);
 
     const bitCapInt oMaxQMask = pow2Mask(qubitCount);
     const bitLenInt end = start + length;
@@ -1728,6 +1755,8 @@ void QStabilizer::DecomposeDispose(const bitLenInt start, const bitLenInt length
         std::copy(r.begin() + j, r.begin() + j + length, dest->r.begin());
         j = qubitCount + start;
         std::copy(r.begin() + j, r.begin() + j + length, dest->r.begin() + length);
+        // (Destabilizers can have had cross terms.)
+        dest->fixDestabilizers();
     }
 
     x.erase(x.begin() + secondStart, x.begin() + secondEnd);
@@ -1748,6 +1777,8 @@ void QStabilizer::DecomposeDispose(const bitLenInt start, const bitLenInt length
         zi.erase(zi.begin() + start, zi.begin() + end);
     }
 
+    fixDestabilizers();
+
     if (randGlobalPhase || dest) {
         return;
     }
-- 
2.43.0


From 0b45cf3521d74a9eed0432646ac7790fc4d80251 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:17 +0000
Subject: [PATCH 070/106] fix: QUnitClifford gates with an eigenstate control
 act on the mapped target

---
 include/qunitclifford.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/qunitclifford.hpp b/include/qunitclifford.hpp
index 2c78c77..995227e 100644
--- a/include/qunitclifford.hpp
+++ b/include/qunitclifford.hpp
@@ -106,12 +106,14 @@ protected:
         const real1_f p = Prob(control);
         if (p < (ONE_R1_F / 4)) {
             if (isAnti) {
-                fn(shards[target].unit, target, mtrx);
+                fn(shards[target].unit, shards[target].mapped, mtrx);
+                CombinePhaseOffsets(shards[target].unit);
             }
             return;
         } else if (p > (3 * ONE_R1_F / 4)) {
             if (!isAnti) {
-                fn(shards[target].unit, target, mtrx);
+                fn(shards[target].unit, shards[target].mapped, mtrx);
+                CombinePhaseOffsets(shards[target].unit);
             }
             return;
         }
-- 
2.43.0


From 8c3fd0b428ad090e1144e53ce040cc11452f2a23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:17 +0000
Subject: [PATCH 071/106] fix: QUnitClifford Decompose gives the destination
 its own qubit mapping

---
 src/qunitclifford.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qunitclifford.cpp b/src/qunitclifford.cpp
index 3cc79bd..adb916e 100644
--- a/src/qunitclifford.cpp
+++ b/src/qunitclifford.cpp
@@ -249,7 +249,7 @@ void QUnitClifford::Detach(bitLenInt start, bitLenInt length, QUnitCliffordPtr d
         }
 
         if (dest) {
-            dest->shards[i] = shard;
+            dest->shards[i] = CliffordShard(shard.mapped - shards[decomposedUnits[unit]].mapped, shard.unit);
         }
     }
 
-- 
2.43.0


From 03a32ac546b1fa974f492af35f4bda3007329c42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:27 +0000
Subject: [PATCH 072/106] fix: QUnitClifford ExpectationBitsFactorized adds its
 offset only once

---
 src/qunitclifford.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/qunitclifford.cpp b/src/qunitclifford.cpp
index adb916e..c048af5 100644
--- a/src/qunitclifford.cpp
+++ b/src/qunitclifford.cpp
@@ -65,8 +65,11 @@ real1_f QUnitClifford::ExpVarBitsFactorized(
 
     real1_f expectation = ZERO_R1;
     if (isExp) {
+        bitCapInt nOffset = offset;
         for (const auto& p : qubitMap) {
-            expectation += p.first->ExpectationBitsFactorized(p.second, permMap[p.first], offset);
+            expectation += p.first->ExpectationBitsFactorized(p.second, permMap[p.first], nOffset);
+            // (The offset should be applied exactly once.)
+            nOffset = ZERO_BCI;
         }
     } else {
         for (const auto& p : qubitMap) {
-- 
2.43.0


From 775f2d1593bd17e11230a6fbf9a90c00d7193561 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:27 +0000
Subject: [PATCH 073/106] fix: QUnitClifford ProbMask multiplies the
 probabilities of separable units

---
 src/qunitclifford.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/qunitclifford.cpp b/src/qunitclifford.cpp
index c048af5..92dd287 100644
--- a/src/qunitclifford.cpp
+++ b/src/qunitclifford.cpp
@@ -173,12 +173,12 @@ real1_f QUnitClifford::ProbMask(const bitCapInt& mask, const bitCapInt& perm)
         }
     }
 
-    real1 expectation = ZERO_R1;
+    real1 prob = ONE_R1;
     for (const auto& p : maskMap) {
-        expectation += (real1)p.first->ProbMask(p.second, permMap[p.first]);
+        prob *= (real1)p.first->ProbMask(p.second, permMap[p.first]);
     }
 
-    return (real1_f)expectation;
+    return (real1_f)prob;
 }
 
 void QUnitClifford::SetPermutation(const bitCapInt& perm, const complex& phaseFac)
-- 
2.43.0


From f14dddfd4fdbe9c05a967022769f2a5095548efa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:27 +0000
Subject: [PATCH 074/106] fix: QUnitClifford MultiShotMeasureMask maps each
 qubit, and samples unbiased pairs

---
 src/qunitclifford.cpp | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/qunitclifford.cpp b/src/qunitclifford.cpp
index 92dd287..b95d8c3 100644
--- a/src/qunitclifford.cpp
+++ b/src/qunitclifford.cpp
@@ -602,11 +602,8 @@ std::map<bitCapInt, int> QUnitClifford::MultiShotMeasureMask(const std::vector<b
 
     bitLenInt index;
     std::vector<bitLenInt> qIndices(qPowers.size());
-    std::map<bitLenInt, bitCapInt> iQPowers;
     for (size_t i = 0U; i < qPowers.size(); ++i) {
-        index = log2(qPowers[i]);
-        qIndices[i] = index;
-        iQPowers[index] = pow2(i);
+        qIndices[i] = log2(qPowers[i]);
     }
 
     ThrowIfQbIdArrayIsBad(qIndices, qubitCount,
@@ -620,7 +617,7 @@ std::map<bitCapInt, int> QUnitClifford::MultiShotMeasureMask(const std::vector<b
         CliffordShard& shard = shards[index];
 
         subQPowers[shard.unit].push_back(pow2(shard.mapped));
-        subIQPowers[shard.unit].push_back(iQPowers[index]);
+        subIQPowers[shard.unit].push_back(pow2(i));
     }
 
     std::map<bitCapInt, int> combinedResults;
@@ -682,7 +679,7 @@ std::map<bitCapInt, int> QUnitClifford::MultiShotMeasureMask(const std::vector<b
 
                 auto pickIter = topLevelResults.begin();
                 int count = pickIter->second;
-                while (pick > count) {
+                while (pick >= count) {
                     ++pickIter;
                     count += pickIter->second;
                 }
-- 
2.43.0


From 01e1deec62fd365a58a1c92c9735d8a5e5d5a439 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:48 +0000
Subject: [PATCH 075/106] fix: QStabilizer Z() no longer searches amplitudes
 (exponentially) for a random global phase

---
 src/qstabilizer.cpp | 18 +++++-------------
 1 file changed, 5 insertions(+), 13 deletions(-)

diff --git a/src/qstabilizer.cpp b/src/qstabilizer.cpp
index 885f230..c23b8d3 100644
--- a/src/qstabilizer.cpp
+++ b/src/qstabilizer.cpp
@@ -582,7 +582,7 @@ AmplitudeEntry QStabilizer::GetAnyAmplitude()
 
     // log_2 of number of nonzero basis states
     const bitLenInt g = gaussian();
-    const real1_f nrm = sqrt(ONE_R1_F / pow2Ocl(g));
+    const real1_f nrm = sqrt(ONE_R1_F / (real1_f)bi_to_double(pow2(g)));
 
     seed(g);
 
@@ -1274,7 +1274,7 @@ void QStabilizer::Z(bitLenInt t)
         },
         { t });
 
-    if (randGlobalPhase) {
+    if (!randGlobalPhase) {
         SetPhaseOffset(phaseOffset + std::arg(ampEntry.amplitude) - std::arg(GetAmplitude(ampEntry.permutation)));
     }
 }
@@ -1303,11 +1303,7 @@ void QStabilizer::S(bitLenInt t)
         },
         { t });
 
-    if (randGlobalPhase) {
-        return;
-    }
-
-    if (randGlobalPhase) {
+    if (!randGlobalPhase) {
         SetPhaseOffset(phaseOffset + std::arg(ampEntry.amplitude) - std::arg(GetAmplitude(ampEntry.permutation)));
     }
 }
@@ -1336,11 +1332,7 @@ void QStabilizer::IS(bitLenInt t)
         },
         { t });
 
-    if (randGlobalPhase) {
-        return;
-    }
-
-    if (randGlobalPhase) {
+    if (!randGlobalPhase) {
         SetPhaseOffset(phaseOffset + std::arg(ampEntry.amplitude) - std::arg(GetAmplitude(ampEntry.permutation)));
     }
 }
@@ -1505,7 +1497,7 @@ bool QStabilizer::ForceM(bitLenInt t, bool result, bool doForce, bool doApply)
                 }
             }
             const AmplitudeEntry entry = getBasisAmp(nrm);
-            const complex oAmp = GetAmplitude(entry.permutation);
+            const complex oAmp = clone->GetAmplitude(entry.permutation);
             if (norm(oAmp) > FP_NORM_EPSILON) {
                 SetPhaseOffset(phaseOffset + std::arg(oAmp) - std::arg(entry.amplitude));
                 return result;
-- 
2.43.0


From ff77df2021ea31356b653d7bdfe572a398d8c059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:05 +0000
Subject: [PATCH 076/106] fix: BigInteger is zero when value-initialized, as
 the built-in types it stands for are

---
 include/common/big_integer.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/common/big_integer.hpp b/include/common/big_integer.hpp
index ba01e2e..e62ed03 100644
--- a/include/common/big_integer.hpp
+++ b/include/common/big_integer.hpp
@@ -69,7 +69,10 @@ typedef struct BigInteger {
 
     inline BigInteger()
     {
-        // Intentionally left blank.
+        // Like the built-in integer types, this is zero when it is value-initialized, (as a new map element is).
+        for (int i = 0; i < BIG_INTEGER_WORD_SIZE; ++i) {
+            bits[i] = 0U;
+        }
     }
 
     inline BigInteger(const BigInteger& val)
-- 
2.43.0


From 61994dff6ab2d0c0a319cc8c3c23ec2881fdccf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:38 +0000
Subject: [PATCH 077/106] fix: samples share a pseudorandom generator between
 threads only if it is thread-safe

---
 include/qinterface.hpp        | 19 +++++++++++++++++++
 src/qinterface/qinterface.cpp |  4 ++--
 src/qstabilizerhybrid.cpp     |  4 ++--
 3 files changed, 23 insertions(+), 4 deletions(-)

diff --git a/include/qinterface.hpp b/include/qinterface.hpp
index 204ca2c..e903062 100644
--- a/include/qinterface.hpp
+++ b/include/qinterface.hpp
@@ -188,6 +188,25 @@ protected:
         XMask(xMask);
     }
 
+    /// Take (independent) samples in parallel if the threads can share the random number generator, or else in order
+    void par_for_shots(const unsigned shots, ParallelFunc fn)
+    {
+#if ENABLE_RNDFILE && !ENABLE_DEVRAND
+        const bool isParallel = false;
+#else
+        const bool isParallel = !!hardware_rand_generator;
+#endif
+        if (isParallel) {
+            par_for(0U, shots, fn);
+
+            return;
+        }
+
+        for (unsigned shot = 0U; shot < shots; ++shot) {
+            fn(shot, 0U);
+        }
+    }
+
     virtual bitCapInt SampleClone(const std::vector<bitCapInt>& qPowers)
     {
         QInterfacePtr clone = Clone();
diff --git a/src/qinterface/qinterface.cpp b/src/qinterface/qinterface.cpp
index d16dd3d..19b385d 100644
--- a/src/qinterface/qinterface.cpp
+++ b/src/qinterface/qinterface.cpp
@@ -811,7 +811,7 @@ std::map<bitCapInt, int> QInterface::MultiShotMeasureMask(const std::vector<bitC
 
     std::map<bitCapInt, int> results;
     std::mutex resultsMutex;
-    par_for(0U, shots, [&](const bitCapIntOcl& shot, const unsigned& cpu) {
+    par_for_shots(shots, [&](const bitCapIntOcl& shot, const unsigned& cpu) {
         const bitCapInt sample = SampleClone(qPowers);
         std::lock_guard<std::mutex> lock(resultsMutex);
         ++(results[sample]);
@@ -827,7 +827,7 @@ void QInterface::MultiShotMeasureMask(
         return;
     }
 
-    par_for(0U, shots, [&](const bitCapIntOcl& shot, const unsigned& cpu) {
+    par_for_shots(shots, [&](const bitCapIntOcl& shot, const unsigned& cpu) {
         shotsArray[shot] = (unsigned)(bitCapIntOcl)SampleClone(qPowers);
     });
 }
diff --git a/src/qstabilizerhybrid.cpp b/src/qstabilizerhybrid.cpp
index ce245d6..0a91ba4 100644
--- a/src/qstabilizerhybrid.cpp
+++ b/src/qstabilizerhybrid.cpp
@@ -1723,7 +1723,7 @@ std::map<bitCapInt, int> QStabilizerHybrid::MultiShotMeasureMask(const std::vect
 
     if (!IsProbBuffered()) {
         std::mutex resultsMutex;
-        par_for(0U, shots, [&](const bitCapIntOcl& shot, const unsigned& cpu) {
+        par_for_shots(shots, [&](const bitCapIntOcl& shot, const unsigned& cpu) {
             const bitCapInt sample = SampleClone(qPowers);
             std::lock_guard<std::mutex> lock(resultsMutex);
             ++(results[sample]);
@@ -1826,7 +1826,7 @@ void QStabilizerHybrid::MultiShotMeasureMask(
     }
 
     if (!IsProbBuffered()) {
-        return par_for(0U, shots, [&](const bitCapIntOcl& shot, const unsigned& cpu) {
+        return par_for_shots(shots, [&](const bitCapIntOcl& shot, const unsigned& cpu) {
             shotsArray[shot] = (bitCapIntOcl)SampleClone(qPowers);
         });
     }
-- 
2.43.0


From 6ccc3a6f0515dddc6821a64f06f531588012aa3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:38 +0000
Subject: [PATCH 078/106] fix: gates of QEngineCPU no longer race with queued
 gates on the running norm

---
 include/qengine_cpu.hpp |  8 ++++++--
 src/qengine/state.cpp   | 15 +++++++++++++--
 2 files changed, 19 insertions(+), 4 deletions(-)

diff --git a/include/qengine_cpu.hpp b/include/qengine_cpu.hpp
index e7894ae..7286c17 100644
--- a/include/qengine_cpu.hpp
+++ b/include/qengine_cpu.hpp
@@ -110,11 +110,15 @@ public:
 
     void QueueSetDoNormalize(bool doNorm)
     {
-        Dispatch(1U, [this, doNorm] { doNormalize = doNorm; });
+        // (Gates read this on the calling thread.)
+        Finish();
+        doNormalize = doNorm;
     }
     void QueueSetRunningNorm(real1_f runningNrm)
     {
-        Dispatch(1U, [this, runningNrm] { runningNorm = runningNrm; });
+        // (Gates read this on the calling thread.)
+        Finish();
+        runningNorm = runningNrm;
     }
 
     void SetQuantumState(const complex* inputState);
diff --git a/src/qengine/state.cpp b/src/qengine/state.cpp
index 8c3ab1c..87e8934 100644
--- a/src/qengine/state.cpp
+++ b/src/qengine/state.cpp
@@ -463,6 +463,11 @@ void QEngineCPU::Apply2x2(bitCapIntOcl offset1, bitCapIntOcl offset2, const comp
                 ZeroAmplitudes();
             }
         });
+
+    if (doCalcNorm) {
+        // The next gate reads "runningNorm", (and whether there is a state vector at all,) before it is queued.
+        Finish();
+    }
 }
 #else
 
@@ -631,6 +636,11 @@ void QEngineCPU::Apply2x2(bitCapIntOcl offset1, bitCapIntOcl offset2, const comp
                 ZeroAmplitudes();
             }
         });
+
+    if (doCalcNorm) {
+        // The next gate reads "runningNorm", (and whether there is a state vector at all,) before it is queued.
+        Finish();
+    }
 }
 #endif
 
@@ -1643,9 +1653,10 @@ void QEngineCPU::ApplyM(const bitCapInt& regMask, const bitCapInt& result, const
                 stateVec->write(i, ZERO_CMPLX);
             }
         });
-
-        runningNorm = ONE_R1;
     });
+
+    // (Gates read this on the calling thread.)
+    runningNorm = ONE_R1;
 }
 
 void QEngineCPU::NormalizeState(real1_f nrm_f, real1_f norm_thresh_f, real1_f phaseArg)
-- 
2.43.0


From a33ad629f6a020cb5fb02ecb9bd07b4726ba047a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:34 +0000
Subject: [PATCH 079/106] fix: QPager initializes useGpuThreshold, which
 copying reads

---
 src/qpager.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/qpager.cpp b/src/qpager.cpp
index cfc6191..8238ca0 100644
--- a/src/qpager.cpp
+++ b/src/qpager.cpp
@@ -35,6 +35,7 @@ QPager::QPager(std::vector<QInterfaceEngine> eng, bitLenInt qBitCount, const bit
     bool useHardwareRNG, bool useSparseStateVec, real1_f norm_thresh, std::vector<int64_t> devList,
     bitLenInt qubitThreshold, real1_f sep_thresh)
     : QEngine(qBitCount, rgp, false, false, useHostMem, useHardwareRNG, norm_thresh)
+    , useGpuThreshold(false)
     , isSparse(useSparseStateVec)
     , useTGadget(true)
     , maxPageSetting(-1)
@@ -68,6 +69,7 @@ QPager::QPager(QEnginePtr enginePtr, std::vector<QInterfaceEngine> eng, bitLenIn
     bool useHardwareRNG, bool useSparseStateVec, real1_f norm_thresh, std::vector<int64_t> devList,
     bitLenInt qubitThreshold, real1_f sep_thresh)
     : QEngine(qBitCount, rgp, false, false, useHostMem, useHardwareRNG, norm_thresh)
+    , useGpuThreshold(false)
     , isSparse(useSparseStateVec)
     , useTGadget(true)
     , maxPageSetting(-1)
-- 
2.43.0


From 97b81aba0121dda65c9b27a95a9a42e5c8ad26fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:53 +0000
Subject: [PATCH 080/106] fix: C API arithmetic maps its qubits into a range by
 their current positions

---
 src/pinvoke_api.cpp | 104 +++++++++++++-------------------------------
 1 file changed, 30 insertions(+), 74 deletions(-)

diff --git a/src/pinvoke_api.cpp b/src/pinvoke_api.cpp
index d31c97a..9be7895 100644
--- a/src/pinvoke_api.cpp
+++ b/src/pinvoke_api.cpp
@@ -465,23 +465,32 @@ void SwapShardValues(bitLenInt v1, bitLenInt v2, std::map<uintq, bitLenInt>& sim
     std::swap(it1->second, it2->second);
 }
 
-uintq MapArithmetic(QInterfacePtr simulator, uintq n, uintq* q)
+/// Swap the qubits of the list into the contiguous range from "start". (Any swap might move qubits later in the list.)
+void MapToRange(QInterfacePtr simulator, uintq start, uintq n, uintq* q)
 {
-    uintq start = GetSimShardId(simulator, q[0U]);
-    std::unique_ptr<bitLenInt[]> bitArray(new bitLenInt[n]);
     for (uintq i = 0U; i < n; ++i) {
-        bitArray[i] = GetSimShardId(simulator, q[i]);
-        if (start > bitArray[i]) {
-            start = bitArray[i];
-        }
+        const bitLenInt pos = GetSimShardId(simulator, q[i]);
+        simulator->Swap(start + i, pos);
+        SwapShardValues(start + i, pos, shards[simulator.get()]);
     }
-    for (uintq i = 0U; i < n; ++i) {
-        simulator->Swap(start + i, bitArray[i]);
-        SwapShardValues(start + i, bitArray[i], shards[simulator.get()]);
+}
+
+uintq MinShardId(QInterfacePtr simulator, uintq n, uintq* q)
+{
+    uintq start = GetSimShardId(simulator, q[0U]);
+    for (uintq i = 1U; i < n; ++i) {
+        start = std::min(start, (uintq)GetSimShardId(simulator, q[i]));
     }
     return start;
 }
 
+uintq MapArithmetic(QInterfacePtr simulator, uintq n, uintq* q)
+{
+    const uintq start = MinShardId(simulator, n, q);
+    MapToRange(simulator, start, n, q);
+    return start;
+}
+
 struct MapArithmeticResult2 {
     uintq start1;
     uintq start2;
@@ -493,85 +502,32 @@ struct MapArithmeticResult2 {
     }
 };
 
-MapArithmeticResult2 MapArithmetic2(QInterfacePtr simulator, uintq n, uintq* q1, uintq* q2)
-{
-    uintq start1 = GetSimShardId(simulator, q1[0U]);
-    uintq start2 = GetSimShardId(simulator, q2[0U]);
-    std::unique_ptr<bitLenInt[]> bitArray1(new bitLenInt[n]);
-    std::unique_ptr<bitLenInt[]> bitArray2(new bitLenInt[n]);
-    for (uintq i = 0U; i < n; ++i) {
-        bitArray1[i] = GetSimShardId(simulator, q1[i]);
-        if (start1 > bitArray1[i]) {
-            start1 = bitArray1[i];
-        }
-        bitArray2[i] = GetSimShardId(simulator, q2[i]);
-        if (start2 > bitArray2[i]) {
-            start2 = bitArray2[i];
-        }
-    }
-    bool isReversed = (start2 < start1);
-    if (isReversed) {
-        std::swap(start1, start2);
-        bitArray1.swap(bitArray2);
-    }
-    for (uintq i = 0U; i < n; ++i) {
-        simulator->Swap(start1 + i, bitArray1[i]);
-        SwapShardValues(start1 + i, bitArray1[i], shards[simulator.get()]);
-    }
-    if ((start1 + n) > start2) {
-        start2 = start1 + n;
-    }
-    for (uintq i = 0U; i < n; ++i) {
-        simulator->Swap(start2 + i, bitArray2[i]);
-        SwapShardValues(start2 + i, bitArray2[i], shards[simulator.get()]);
-    }
-    if (isReversed) {
-        std::swap(start1, start2);
-    }
-    return MapArithmeticResult2(start1, start2);
-}
-
 MapArithmeticResult2 MapArithmetic3(QInterfacePtr simulator, uintq n1, uintq* q1, uintq n2, uintq* q2)
 {
-    uintq start1 = GetSimShardId(simulator, q1[0U]);
-    uintq start2 = GetSimShardId(simulator, q2[0U]);
-    std::unique_ptr<bitLenInt[]> bitArray1(new bitLenInt[n1]);
-    std::unique_ptr<bitLenInt[]> bitArray2(new bitLenInt[n2]);
-    for (uintq i = 0U; i < n1; ++i) {
-        bitArray1[i] = GetSimShardId(simulator, q1[i]);
-        if (start1 > bitArray1[i]) {
-            start1 = bitArray1[i];
-        }
-    }
-    for (uintq i = 0U; i < n2; ++i) {
-        bitArray2[i] = GetSimShardId(simulator, q2[i]);
-        if (start2 > bitArray2[i]) {
-            start2 = bitArray2[i];
-        }
-    }
-    bool isReversed = (start2 < start1);
+    uintq start1 = MinShardId(simulator, n1, q1);
+    uintq start2 = MinShardId(simulator, n2, q2);
+    const bool isReversed = (start2 < start1);
     if (isReversed) {
         std::swap(start1, start2);
         std::swap(n1, n2);
-        bitArray1.swap(bitArray2);
-    }
-    for (uintq i = 0U; i < n1; ++i) {
-        simulator->Swap(start1 + i, bitArray1[i]);
-        SwapShardValues(start1 + i, bitArray1[i], shards[simulator.get()]);
+        std::swap(q1, q2);
     }
+    MapToRange(simulator, start1, n1, q1);
     if ((start1 + n1) > start2) {
         start2 = start1 + n1;
     }
-    for (uintq i = 0U; i < n2; ++i) {
-        simulator->Swap(start2 + i, bitArray2[i]);
-        SwapShardValues(start2 + i, bitArray2[i], shards[simulator.get()]);
-    }
+    MapToRange(simulator, start2, n2, q2);
     if (isReversed) {
         std::swap(start1, start2);
     }
     return MapArithmeticResult2(start1, start2);
 }
 
+MapArithmeticResult2 MapArithmetic2(QInterfacePtr simulator, uintq n, uintq* q1, uintq* q2)
+{
+    return MapArithmetic3(simulator, n, q1, n, q2);
+}
+
 void _darray_to_creal1_array(double* params, bitCapIntOcl componentCount, complex* amps)
 {
     for (bitCapIntOcl j = 0U; j < componentCount; ++j) {
-- 
2.43.0


From f0be2aeb0cd19952180691907deff20c668c2cc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:53 +0000
Subject: [PATCH 081/106] fix: C API combines the words of a big integer
 argument by their width

---
 src/pinvoke_api.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pinvoke_api.cpp b/src/pinvoke_api.cpp
index 9be7895..6123844 100644
--- a/src/pinvoke_api.cpp
+++ b/src/pinvoke_api.cpp
@@ -547,7 +547,7 @@ bitCapInt _combineA(uintq na, const uintq* a)
 #if QBCAPPOW > 6
     bitCapInt aTot = ZERO_BCI;
     for (uintq i = 0U; i < na; ++i) {
-        bi_lshift_ip(&aTot, bitsInCap);
+        bi_lshift_ip(&aTot, 8U * sizeof(uintq));
         bi_or_ip(&aTot, a[na - (i + 1U)]);
     }
 
-- 
2.43.0


From ad622f1c2905920d4d8af9aa1aadd2fbce4b4b40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:53 +0000
Subject: [PATCH 082/106] fix: C API qubit IDs are neither truncated nor used
 as positions

---
 src/pinvoke_api.cpp | 31 +++++++++++++++----------------
 1 file changed, 15 insertions(+), 16 deletions(-)

diff --git a/src/pinvoke_api.cpp b/src/pinvoke_api.cpp
index 6123844..62ba114 100644
--- a/src/pinvoke_api.cpp
+++ b/src/pinvoke_api.cpp
@@ -274,7 +274,7 @@ std::map<QCircuit*, std::mutex> circuitMutexes;
 std::vector<bool> circuitReservations;
 std::map<QCircuit*, std::string> circuitStrings;
 
-bitLenInt GetSimShardId(QInterfacePtr simulator, bitLenInt i)
+bitLenInt GetSimShardId(QInterfacePtr simulator, uintq i)
 {
     const auto& simShardsIt = shards.find(simulator.get());
     if (simShardsIt == shards.end()) {
@@ -354,7 +354,7 @@ void RevertPauliBasis(QInterfacePtr simulator, uintq len, int* bases, uintq* qub
     }
 }
 
-void removeIdentities(std::vector<int>* b, std::vector<bitLenInt>* qs)
+void removeIdentities(std::vector<int>* b, std::vector<uintq>* qs)
 {
     uintq i = 0U;
     while (i != b->size()) {
@@ -437,11 +437,11 @@ void MCRHelper(uintq sid, uintq b, double phi, uintq n, uintq* c, uintq q)
     }
 }
 
-inline std::size_t make_mask(std::vector<bitLenInt> const& qs)
+inline bitCapInt make_mask(QInterfacePtr simulator, std::vector<uintq> const& qs)
 {
-    std::size_t mask = 0U;
-    for (const std::size_t q : qs) {
-        mask = mask | pow2Ocl(q);
+    bitCapInt mask = ZERO_BCI;
+    for (const uintq q : qs) {
+        bi_or_ip(&mask, pow2(GetSimShardId(simulator, q)));
     }
     return mask;
 }
@@ -1179,7 +1179,7 @@ double _JointEnsembleProbabilityHelper(QInterfacePtr simulator, uintq n, int* b,
     }
 
     std::vector<int> bVec(b, b + n);
-    std::vector<bitLenInt> qVec(q, q + n);
+    std::vector<uintq> qVec(q, q + n);
 
     removeIdentities(&bVec, &qVec);
     n = (uintq)qVec.size();
@@ -1188,10 +1188,7 @@ double _JointEnsembleProbabilityHelper(QInterfacePtr simulator, uintq n, int* b,
         return 0.0;
     }
 
-    bitCapInt mask = ZERO_BCI;
-    for (bitLenInt i = 0U; i < (bitLenInt)n; ++i) {
-        bi_or_ip(&mask, pow2(GetSimShardId(simulator, qVec[i])));
-    }
+    const bitCapInt mask = make_mask(simulator, qVec);
 
     return (double)(doMeasure ? (QPARITY(simulator)->MParity(mask) ? ONE_R1 : ZERO_R1)
                               : QPARITY(simulator)->ProbParity(mask));
@@ -1955,7 +1952,7 @@ MICROSOFT_QUANTUM_DECL void Exp(
     SIMULATOR_LOCK_GUARD_VOID(sid)
 
     std::vector<int> bVec(b, b + n);
-    std::vector<bitLenInt> qVec(q, q + n);
+    std::vector<uintq> qVec(q, q + n);
 
     uintq someQubit = qVec.front();
 
@@ -1969,7 +1966,7 @@ MICROSOFT_QUANTUM_DECL void Exp(
         } else {
             TransformPauliBasis(simulator, n, b, q);
 
-            std::size_t mask = make_mask(qVec);
+            const bitCapInt mask = make_mask(simulator, qVec);
             QPARITY(simulator)->UniformParityRZ(mask, (real1_f)(-phi));
 
             RevertPauliBasis(simulator, n, b, q);
@@ -1993,7 +1990,7 @@ MICROSOFT_QUANTUM_DECL void MCExp(_In_ uintq sid, _In_ uintq n, _In_reads_(n) in
     SIMULATOR_LOCK_GUARD_VOID(sid)
 
     std::vector<int> bVec(b, b + n);
-    std::vector<bitLenInt> qVec(q, q + n);
+    std::vector<uintq> qVec(q, q + n);
 
     uintq someQubit = qVec.front();
 
@@ -2005,11 +2002,13 @@ MICROSOFT_QUANTUM_DECL void MCExp(_In_ uintq sid, _In_ uintq n, _In_reads_(n) in
         } else if (bVec.size() == 1U) {
             MCRHelper(sid, bVec.front(), -2. * phi, nc, cs, qVec.front());
         } else {
-            std::vector<bitLenInt> csVec(cs, cs + nc);
+            std::vector<bitLenInt> csVec(nc);
+            std::transform(
+                cs, cs + nc, csVec.begin(), [&](const uintq& c) { return GetSimShardId(simulator, c); });
 
             TransformPauliBasis(simulator, n, b, q);
 
-            std::size_t mask = make_mask(qVec);
+            const bitCapInt mask = make_mask(simulator, qVec);
             QPARITY(simulator)->CUniformParityRZ(csVec, mask, (real1_f)(-phi));
 
             RevertPauliBasis(simulator, n, b, q);
-- 
2.43.0


From 04274f2e8846a2fde3e3aa29799bd4facca6133d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:21 +0000
Subject: [PATCH 083/106] fix: C API Decompose and Dispose keep track of the
 qubits they move

---
 src/pinvoke_api.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/pinvoke_api.cpp b/src/pinvoke_api.cpp
index 62ba114..6f019fe 100644
--- a/src/pinvoke_api.cpp
+++ b/src/pinvoke_api.cpp
@@ -2231,15 +2231,15 @@ MICROSOFT_QUANTUM_DECL uintq Decompose(_In_ uintq sid, _In_ uintq n, _In_reads_(
     try {
         nQubitIndex = simulator->GetQubitCount() - n;
 
-        for (uintq i = 0U; i < n; ++i) {
-            simulator->Swap(GetSimShardId(simulator, q[i]), i + nQubitIndex);
-        }
+        MapToRange(simulator, nQubitIndex, n, q);
 
         simulator->Decompose(nQubitIndex, simulators[nSid]);
     } catch (const std::exception& ex) {
         std::cout << ex.what() << std::endl;
         simulatorErrors[sid] = 1;
         simulatorErrors[nSid] = 1;
+
+        return nSid;
     }
 
     for (uintq j = 0U; j < n; ++j) {
@@ -2262,13 +2262,13 @@ MICROSOFT_QUANTUM_DECL void Dispose(_In_ uintq sid, _In_ uintq n, _In_reads_(n)
     bitLenInt nQubitIndex = 0U;
     try {
         nQubitIndex = simulator->GetQubitCount() - n;
-        for (uintq i = 0U; i < n; ++i) {
-            simulator->Swap(GetSimShardId(simulator, q[i]), i + nQubitIndex);
-        }
+        MapToRange(simulator, nQubitIndex, n, q);
         simulator->Dispose(nQubitIndex, n);
     } catch (const std::exception& ex) {
         simulatorErrors[sid] = 1;
         std::cout << ex.what() << std::endl;
+
+        return;
     }
     for (uintq j = 0U; j < n; ++j) {
         std::map<uintq, bitLenInt>& simShards = shards[simulator.get()];
-- 
2.43.0


From 05c346cc7d9b8f89d2ab8f40d6a5c2d06ea4e059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:21 +0000
Subject: [PATCH 084/106] fix: C API Separate separates the listed qubits, and
 not the range before the last

---
 src/pinvoke_api.cpp | 17 +++++------------
 1 file changed, 5 insertions(+), 12 deletions(-)

diff --git a/src/pinvoke_api.cpp b/src/pinvoke_api.cpp
index 6f019fe..6c80cd8 100644
--- a/src/pinvoke_api.cpp
+++ b/src/pinvoke_api.cpp
@@ -3283,27 +3283,20 @@ MICROSOFT_QUANTUM_DECL void Separate(_In_ uintq sid, _In_ uintq n, _In_reads_(n)
 {
     SIMULATOR_LOCK_GUARD_VOID(sid)
 
-    std::vector<bitLenInt> bitArray(n);
-    for (uintq i = 0U; i < n; ++i) {
-        bitArray[i] = GetSimShardId(simulator, q[i]);
+    if (!n || (n >= simulator->GetQubitCount())) {
+        return;
     }
 
-    const bitLenInt end = simulator->GetQubitCount() - 1U;
-    for (uintq i = 0U; i < n; ++i) {
-        simulator->Swap(end - i, bitArray[i]);
-    }
+    const bitLenInt start = simulator->GetQubitCount() - n;
 
     try {
-        QInterfacePtr partSim = simulator->Decompose(end - n, n);
+        MapToRange(simulator, start, n, q);
+        QInterfacePtr partSim = simulator->Decompose(start, n);
         simulator->Compose(partSim);
     } catch (const std::exception& ex) {
         simulatorErrors[sid] = 1;
         std::cout << ex.what() << std::endl;
     }
-
-    for (uintq i = 0U; i < n; ++i) {
-        simulator->Swap(end - i, bitArray[i]);
-    }
 }
 
 MICROSOFT_QUANTUM_DECL double GetUnitaryFidelity(_In_ uintq sid)
-- 
2.43.0


From b724351a133cfaf99f2225cc96d139104f4b54d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:21 +0000
Subject: [PATCH 085/106] fix: C API circuits permute control states to sorted
 control order

---
 src/pinvoke_api.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pinvoke_api.cpp b/src/pinvoke_api.cpp
index 6c80cd8..df11efe 100644
--- a/src/pinvoke_api.cpp
+++ b/src/pinvoke_api.cpp
@@ -3751,7 +3751,8 @@ MICROSOFT_QUANTUM_DECL void qcircuit_append_mc(
     bitCapInt _p = ZERO_BCI;
     std::set<bitLenInt> ctrls;
     for (uintq i = 0U; i < n; ++i) {
-        bi_or_ip(&_p, ((p >> i) & 1U) << indices[i]);
+        // (The "i"-th control, in sorted order, is at "indices[i]" in the list.)
+        bi_or_ip(&_p, ((p >> indices[i]) & 1U) << i);
         ctrls.insert(c[i]);
     }
 
-- 
2.43.0


From 540d540ae8ee559faee4ebd283d0425e5eed284b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:14 +0000
Subject: [PATCH 086/106] fix: C API checks the bounds of simulator, neuron and
 circuit IDs

---
 src/pinvoke_api.cpp | 78 +++++++++++++++++++++++++++++++++++----------
 1 file changed, 61 insertions(+), 17 deletions(-)

diff --git a/src/pinvoke_api.cpp b/src/pinvoke_api.cpp
index df11efe..7dbd969 100644
--- a/src/pinvoke_api.cpp
+++ b/src/pinvoke_api.cpp
@@ -51,7 +51,7 @@
 #endif
 
 #define SIMULATOR_LOCK_GUARD_VOID(sid)                                                                                 \
-    if (sid > simulators.size()) {                                                                                     \
+    if (sid >= simulators.size()) {                                                                                    \
         std::cout << "Invalid argument: simulator ID not found!" << std::endl;                                         \
         metaError = 2;                                                                                                 \
         return;                                                                                                        \
@@ -63,7 +63,7 @@
     }
 
 #define SIMULATOR_LOCK_GUARD_TYPED(sid, def)                                                                           \
-    if (sid > simulators.size()) {                                                                                     \
+    if (sid >= simulators.size()) {                                                                                    \
         std::cout << "Invalid argument: simulator ID not found!" << std::endl;                                         \
         metaError = 2;                                                                                                 \
         return def;                                                                                                    \
@@ -108,7 +108,7 @@
 #endif
 
 #define NEURON_LOCK_GUARD_VOID(nid)                                                                                    \
-    if (nid > neurons.size()) {                                                                                        \
+    if (nid >= neurons.size()) {                                                                                       \
         std::cout << "Invalid argument: neuron ID not found!" << std::endl;                                            \
         metaError = 2;                                                                                                 \
         return;                                                                                                        \
@@ -121,7 +121,7 @@
     }
 
 #define NEURON_LOCK_GUARD_TYPED(nid, def)                                                                              \
-    if (nid > neurons.size()) {                                                                                        \
+    if (nid >= neurons.size()) {                                                                                       \
         std::cout << "Invalid argument: neuron ID not found!" << std::endl;                                            \
         metaError = 2;                                                                                                 \
         return def;                                                                                                    \
@@ -158,7 +158,7 @@
 #endif
 
 #define CIRCUIT_LOCK_GUARD_TYPED(cid, def)                                                                             \
-    if (cid > circuits.size()) {                                                                                       \
+    if (cid >= circuits.size()) {                                                                                      \
         std::cout << "Invalid argument: circuit ID not found!" << std::endl;                                           \
         metaError = 2;                                                                                                 \
         return def;                                                                                                    \
@@ -171,7 +171,7 @@
     }
 
 #define CIRCUIT_LOCK_GUARD_VOID(cid)                                                                                   \
-    if (cid > circuits.size()) {                                                                                       \
+    if (cid >= circuits.size()) {                                                                                      \
         std::cout << "Invalid argument: neuron ID not found!" << std::endl;                                            \
         metaError = 2;                                                                                                 \
         return;                                                                                                        \
@@ -187,12 +187,12 @@
 
 #if CPP_STD > 13
 #define CIRCUIT_AND_SIMULATOR_LOCK_GUARD_VOID(cid, sid)                                                                \
-    if (sid > simulators.size()) {                                                                                     \
+    if (sid >= simulators.size()) {                                                                                    \
         std::cout << "Invalid argument: simulator ID not found!" << std::endl;                                         \
         metaError = 2;                                                                                                 \
         return;                                                                                                        \
     }                                                                                                                  \
-    if (cid > circuits.size()) {                                                                                       \
+    if (cid >= circuits.size()) {                                                                                      \
         std::cout << "Invalid argument: neuron ID not found!" << std::endl;                                            \
         metaError = 2;                                                                                                 \
         return;                                                                                                        \
@@ -218,12 +218,12 @@
     }
 #else
 #define CIRCUIT_AND_SIMULATOR_LOCK_GUARD_VOID(cid, sid)                                                                \
-    if (sid > simulators.size()) {                                                                                     \
+    if (sid >= simulators.size()) {                                                                                    \
         std::cout << "Invalid argument: simulator ID not found!" << std::endl;                                         \
         metaError = 2;                                                                                                 \
         return;                                                                                                        \
     }                                                                                                                  \
-    if (cid > circuits.size()) {                                                                                       \
+    if (cid >= circuits.size()) {                                                                                      \
         std::cout << "Invalid argument: neuron ID not found!" << std::endl;                                            \
         metaError = 2;                                                                                                 \
         return;                                                                                                        \
@@ -569,6 +569,10 @@ MICROSOFT_QUANTUM_DECL int get_error(_In_ uintq sid)
         return 2;
     }
 
+    if (sid >= simulatorErrors.size()) {
+        return 2;
+    }
+
     return simulatorErrors[sid];
 }
 
@@ -807,7 +811,7 @@ MICROSOFT_QUANTUM_DECL uintq init_clone(_In_ uintq sid)
 {
     META_LOCK_GUARD()
 
-    if (sid > simulators.size()) {
+    if (sid >= simulators.size()) {
         std::cout << "Invalid argument: simulator ID not found!" << std::endl;
         metaError = 2;
 
@@ -860,7 +864,7 @@ uintq init_clone_size(uintq sid, uintq n)
 {
     META_LOCK_GUARD()
 
-    if (sid > simulators.size()) {
+    if (sid >= simulators.size()) {
         std::cout << "Invalid argument: simulator ID not found!" << std::endl;
         metaError = 2;
 
@@ -916,6 +920,14 @@ uintq init_clone_size(uintq sid, uintq n)
 MICROSOFT_QUANTUM_DECL void destroy(_In_ uintq sid)
 {
     META_LOCK_GUARD()
+
+    if (sid >= simulators.size()) {
+        std::cout << "Invalid argument: simulator ID not found!" << std::endl;
+        metaError = 2;
+
+        return;
+    }
+
     shards.erase(simulators[sid].get());
     simulatorMutexes.erase(simulators[sid].get());
     simulators[sid] = nullptr;
@@ -1239,7 +1251,7 @@ MICROSOFT_QUANTUM_DECL void allocateQubit(_In_ uintq sid, _In_ uintq qid)
 {
     META_LOCK_GUARD()
 
-    if (sid > simulators.size()) {
+    if (sid >= simulators.size()) {
         std::cout << "Invalid argument: simulator ID not found!" << std::endl;
         metaError = 2;
 
@@ -1280,7 +1292,7 @@ MICROSOFT_QUANTUM_DECL bool release(_In_ uintq sid, _In_ uintq q)
 {
     META_LOCK_GUARD()
 
-    if (sid > simulators.size()) {
+    if (sid >= simulators.size()) {
         std::cout << "Invalid argument: simulator ID not found!" << std::endl;
         metaError = 2;
 
@@ -2178,10 +2190,24 @@ MICROSOFT_QUANTUM_DECL void ACSWAP(_In_ uintq sid, _In_ uintq n, _In_reads_(n) u
 
 MICROSOFT_QUANTUM_DECL void Compose(_In_ uintq sid1, _In_ uintq sid2, uintq* q)
 {
+    if ((sid1 >= simulators.size()) || (sid2 >= simulators.size())) {
+        std::cout << "Invalid argument: simulator ID not found!" << std::endl;
+        metaError = 2;
+
+        return;
+    }
+
     if (!simulators[sid1] || !simulators[sid2]) {
         return;
     }
 
+    if (sid1 == sid2) {
+        metaError = 2;
+        std::cout << "Cannot 'Compose()' a simulator with itself!" << std::endl;
+
+        return;
+    }
+
     const std::lock_guard<std::mutex> simulatorLock1(simulatorMutexes[simulators[sid1].get()]);
     const std::lock_guard<std::mutex> simulatorLock2(simulatorMutexes[simulators[sid2].get()]);
 
@@ -2213,6 +2239,8 @@ MICROSOFT_QUANTUM_DECL void Compose(_In_ uintq sid1, _In_ uintq sid2, uintq* q)
         std::cout << ex.what() << std::endl;
         simulatorErrors[sid1] = 1;
         simulatorErrors[sid2] = 1;
+
+        return;
     }
     std::map<uintq, bitLenInt>& s = shards[simulator1.get()];
     for (bitLenInt i = 0; i < pQubitCount; ++i) {
@@ -3421,7 +3449,7 @@ MICROSOFT_QUANTUM_DECL uintq init_qneuron(
 {
     META_LOCK_GUARD()
 
-    if (sid > simulators.size()) {
+    if (sid >= simulators.size()) {
         std::cout << "Invalid argument: simulator ID not found!" << std::endl;
         metaError = 2;
 
@@ -3475,7 +3503,7 @@ MICROSOFT_QUANTUM_DECL uintq clone_qneuron(_In_ uintq nid)
 {
     META_LOCK_GUARD()
 
-    if (nid > neurons.size()) {
+    if (nid >= neurons.size()) {
         std::cout << "Invalid argument: neuron ID not found!" << std::endl;
         metaError = 2;
 
@@ -3515,6 +3543,14 @@ MICROSOFT_QUANTUM_DECL uintq clone_qneuron(_In_ uintq nid)
 MICROSOFT_QUANTUM_DECL void destroy_qneuron(_In_ uintq nid)
 {
     META_LOCK_GUARD()
+
+    if (nid >= neurons.size()) {
+        std::cout << "Invalid argument: neuron ID not found!" << std::endl;
+        metaError = 2;
+
+        return;
+    }
+
     neuronMutexes.erase(neurons[nid].get());
     neurons[nid] = nullptr;
     neuronErrors[nid] = 0;
@@ -3666,7 +3702,7 @@ uintq _init_qcircuit_copy(uintq cid, bool isInverse, std::set<bitLenInt> q)
 {
     META_LOCK_GUARD()
 
-    if (cid > circuits.size()) {
+    if (cid >= circuits.size()) {
         std::cout << "Invalid argument: circuit ID not found!" << std::endl;
         metaError = 2;
 
@@ -3716,6 +3752,14 @@ MICROSOFT_QUANTUM_DECL uintq qcircuit_past_light_cone(_In_ uintq cid, _In_ uintq
 MICROSOFT_QUANTUM_DECL void destroy_qcircuit(_In_ uintq cid)
 {
     META_LOCK_GUARD()
+
+    if (cid >= circuits.size()) {
+        std::cout << "Invalid argument: circuit ID not found!" << std::endl;
+        metaError = 2;
+
+        return;
+    }
+
     circuitMutexes.erase(circuits[cid].get());
     circuits[cid] = nullptr;
     circuitReservations[cid] = false;
-- 
2.43.0


From c1cc996e5a1b65a23276ed39e1c74e3f307a6569 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:14 +0000
Subject: [PATCH 087/106] fix: C API initialization, cloning, allocation and
 release of qubits that fail (or of an empty simulator) do not crash, and
 clones keep qubit IDs

---
 src/pinvoke_api.cpp | 76 +++++++++++++++++++++++++++++++++++++--------
 1 file changed, 63 insertions(+), 13 deletions(-)

diff --git a/src/pinvoke_api.cpp b/src/pinvoke_api.cpp
index 7dbd969..20b072d 100644
--- a/src/pinvoke_api.cpp
+++ b/src/pinvoke_api.cpp
@@ -670,7 +670,7 @@ MICROSOFT_QUANTUM_DECL uintq init_count_type(_In_ uintq q, _In_ bool tn, _In_ bo
         simulatorErrors[sid] = isSuccess ? 0 : 1;
     }
 
-    if (!q) {
+    if (!simulator) {
         return sid;
     }
 
@@ -724,7 +724,7 @@ MICROSOFT_QUANTUM_DECL uintq init_count(_In_ uintq q, _In_ bool hp)
         simulatorErrors[sid] = isSuccess ? 0 : 1;
     }
 
-    if (!q) {
+    if (!simulator) {
         return sid;
     }
 
@@ -795,7 +795,7 @@ MICROSOFT_QUANTUM_DECL uintq init_count_pager(_In_ uintq q, _In_ bool hp)
         simulatorErrors[sid] = isSuccess ? 0 : 1;
     }
 
-    if (!q) {
+    if (!simulator) {
         return sid;
     }
 
@@ -835,7 +835,10 @@ MICROSOFT_QUANTUM_DECL uintq init_clone(_In_ uintq sid)
     bool isSuccess = true;
     QInterfacePtr simulator;
     try {
-        simulator = oSimulator->Clone();
+        // (A simulator of which all qubits were released is empty.)
+        if (oSimulator) {
+            simulator = oSimulator->Clone();
+        }
     } catch (const std::exception& ex) {
         std::cout << ex.what() << std::endl;
         isSuccess = false;
@@ -855,7 +858,18 @@ MICROSOFT_QUANTUM_DECL uintq init_clone(_In_ uintq sid)
         simulatorErrors[nsid] = isSuccess ? 0 : 1;
     }
 
-    FillSimShards(simulator);
+    if (!simulator) {
+        return nsid;
+    }
+
+    // (The clone has the same qubit IDs.)
+    const auto& simShardsIt = shards.find(oSimulator.get());
+    if (simShardsIt == shards.end()) {
+        FillSimShards(simulator);
+    } else {
+        const std::map<uintq, bitLenInt> simShards = simShardsIt->second;
+        shards[simulator.get()] = simShards;
+    }
 
     return nsid;
 }
@@ -909,6 +923,10 @@ uintq init_clone_size(uintq sid, uintq n)
         simulatorErrors[nsid] = isSuccess ? 0 : 1;
     }
 
+    if (!simulator) {
+        return nsid;
+    }
+
     FillSimShards(simulator);
 
     return nsid;
@@ -1258,8 +1276,16 @@ MICROSOFT_QUANTUM_DECL void allocateQubit(_In_ uintq sid, _In_ uintq qid)
         return;
     }
 
-    QInterfacePtr nQubit = CreateQuantumInterface(
-        simulatorTypes[sid], 1U, ZERO_BCI, randNumGen, CMPLX_DEFAULT_ARG, false, true, simulatorHostPointer[sid]);
+    QInterfacePtr nQubit{ nullptr };
+    try {
+        nQubit = CreateQuantumInterface(
+            simulatorTypes[sid], 1U, ZERO_BCI, randNumGen, CMPLX_DEFAULT_ARG, false, true, simulatorHostPointer[sid]);
+    } catch (const std::exception& ex) {
+        simulatorErrors[sid] = 1;
+        std::cout << ex.what() << std::endl;
+
+        return;
+    }
 
     if (!simulators[sid]) {
         simulators[sid] = nQubit;
@@ -1280,6 +1306,8 @@ MICROSOFT_QUANTUM_DECL void allocateQubit(_In_ uintq sid, _In_ uintq qid)
     } catch (const std::exception& ex) {
         simulatorErrors[sid] = 1;
         std::cout << ex.what() << std::endl;
+
+        return;
     }
 
     shards[simulators[sid].get()][qid] = (qubitCount - 1U);
@@ -1303,16 +1331,38 @@ MICROSOFT_QUANTUM_DECL bool release(_In_ uintq sid, _In_ uintq q)
     std::unique_ptr<const std::lock_guard<std::mutex>> simulatorLock(
         new const std::lock_guard<std::mutex>(simulatorMutexes[simulator.get()]));
 
-    // Check that the qubit is in the |0> state, to within a small tolerance.
-    bool toRet = simulator->Prob(GetSimShardId(simulator, q)) < (ONE_R1 / 100);
+    if (!simulator) {
+        return false;
+    }
+
+    std::map<uintq, bitLenInt>& simShards = shards[simulator.get()];
+    const auto& shardIt = simShards.find(q);
+    if (shardIt == simShards.end()) {
+        simulatorErrors[sid] = 1;
+        std::cout << "Qubit ID is out-of-bounds!" << std::endl;
+
+        return false;
+    }
+    const bitLenInt oIndex = shardIt->second;
+
+    bool toRet = false;
+    try {
+        // Check that the qubit is in the |0> state, to within a small tolerance.
+        toRet = simulator->Prob(oIndex) < (ONE_R1 / 100);
+        if (simulator->GetQubitCount() > 1U) {
+            simulator->Dispose(oIndex, 1U);
+        }
+    } catch (const std::exception& ex) {
+        simulatorErrors[sid] = 1;
+        std::cout << ex.what() << std::endl;
+
+        return false;
+    }
 
-    if (simulator->GetQubitCount() == 1U) {
+    if (simShards.size() == 1U) {
         shards.erase(simulator.get());
         simulators[sid] = nullptr;
     } else {
-        std::map<uintq, bitLenInt>& simShards = shards[simulator.get()];
-        bitLenInt oIndex = simShards[q];
-        simulator->Dispose(oIndex, 1U);
         for (auto it = simShards.begin(); it != simShards.end(); ++it) {
             if (it->second > oIndex) {
                 --(it->second);
-- 
2.43.0


From a829360661c07b76947372c6fe8891a192111ebe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:47 +0000
Subject: [PATCH 088/106] fix: QUnit collapse of a separable qubit keeps its
 phase, if global phase isn't random

---
 src/qunit.cpp | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/qunit.cpp b/src/qunit.cpp
index 5b8b772..82891d1 100644
--- a/src/qunit.cpp
+++ b/src/qunit.cpp
@@ -1407,10 +1407,21 @@ bool QUnit::ForceM(bitLenInt qubit, bool res, bool doForce, bool doApply)
 
     logFidelity = log(GetUnitaryFidelity());
 
+    complex phase = GetNonunitaryPhase();
+    if (!randGlobalPhase && (shard.GetQubitCount() == 1U)) {
+        // Collapse doesn't change the phase of the remaining amplitude.
+        const complex amp = shard.unit ? shard.unit->GetAmplitude(result ? ONE_BCI : ZERO_BCI)
+                                       : (result ? shard.amp1 : shard.amp0);
+        const real1 nrm = abs(amp);
+        if (nrm > ZERO_R1) {
+            phase = amp / nrm;
+        }
+    }
+
     shard.isProbDirty = false;
     shard.isPhaseDirty = false;
-    shard.amp0 = result ? ZERO_CMPLX : GetNonunitaryPhase();
-    shard.amp1 = result ? GetNonunitaryPhase() : ZERO_CMPLX;
+    shard.amp0 = result ? ZERO_CMPLX : phase;
+    shard.amp1 = result ? phase : ZERO_CMPLX;
 
     if (shard.GetQubitCount() == 1U) {
         shard.unit = nullptr;
-- 
2.43.0


From f7eb9ba9b282e7216c7ac7acf5dbe31b52fcd5c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:28 +0000
Subject: [PATCH 089/106] fix: C API classical-quantum logic gates pass their
 arguments in order

---
 src/pinvoke_api.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/pinvoke_api.cpp b/src/pinvoke_api.cpp
index 20b072d..a7527f6 100644
--- a/src/pinvoke_api.cpp
+++ b/src/pinvoke_api.cpp
@@ -2430,7 +2430,7 @@ MICROSOFT_QUANTUM_DECL void CLAND(_In_ uintq sid, _In_ bool ci, _In_ uintq qi, _
 {
     SIMULATOR_LOCK_GUARD_VOID(sid)
     try {
-        simulator->CLAND(ci, GetSimShardId(simulator, qi), GetSimShardId(simulator, qo));
+        simulator->CLAND(GetSimShardId(simulator, qi), ci, GetSimShardId(simulator, qo));
     } catch (const std::exception& ex) {
         simulatorErrors[sid] = 1;
         std::cout << ex.what() << std::endl;
@@ -2441,7 +2441,7 @@ MICROSOFT_QUANTUM_DECL void CLOR(_In_ uintq sid, _In_ bool ci, _In_ uintq qi, _I
 {
     SIMULATOR_LOCK_GUARD_VOID(sid)
     try {
-        simulator->CLOR(ci, GetSimShardId(simulator, qi), GetSimShardId(simulator, qo));
+        simulator->CLOR(GetSimShardId(simulator, qi), ci, GetSimShardId(simulator, qo));
     } catch (const std::exception& ex) {
         simulatorErrors[sid] = 1;
         std::cout << ex.what() << std::endl;
@@ -2452,7 +2452,7 @@ MICROSOFT_QUANTUM_DECL void CLXOR(_In_ uintq sid, _In_ bool ci, _In_ uintq qi, _
 {
     SIMULATOR_LOCK_GUARD_VOID(sid)
     try {
-        simulator->CLXOR(ci, GetSimShardId(simulator, qi), GetSimShardId(simulator, qo));
+        simulator->CLXOR(GetSimShardId(simulator, qi), ci, GetSimShardId(simulator, qo));
     } catch (const std::exception& ex) {
         simulatorErrors[sid] = 1;
         std::cout << ex.what() << std::endl;
@@ -2463,7 +2463,7 @@ MICROSOFT_QUANTUM_DECL void CLNAND(_In_ uintq sid, _In_ bool ci, _In_ uintq qi,
 {
     SIMULATOR_LOCK_GUARD_VOID(sid)
     try {
-        simulator->CLNAND(ci, GetSimShardId(simulator, qi), GetSimShardId(simulator, qo));
+        simulator->CLNAND(GetSimShardId(simulator, qi), ci, GetSimShardId(simulator, qo));
     } catch (const std::exception& ex) {
         simulatorErrors[sid] = 1;
         std::cout << ex.what() << std::endl;
@@ -2474,7 +2474,7 @@ MICROSOFT_QUANTUM_DECL void CLNOR(_In_ uintq sid, _In_ bool ci, _In_ uintq qi, _
 {
     SIMULATOR_LOCK_GUARD_VOID(sid)
     try {
-        simulator->CLNOR(ci, GetSimShardId(simulator, qi), GetSimShardId(simulator, qo));
+        simulator->CLNOR(GetSimShardId(simulator, qi), ci, GetSimShardId(simulator, qo));
     } catch (const std::exception& ex) {
         simulatorErrors[sid] = 1;
         std::cout << ex.what() << std::endl;
@@ -2485,7 +2485,7 @@ MICROSOFT_QUANTUM_DECL void CLXNOR(_In_ uintq sid, _In_ bool ci, _In_ uintq qi,
 {
     SIMULATOR_LOCK_GUARD_VOID(sid)
     try {
-        simulator->CLXNOR(ci, GetSimShardId(simulator, qi), GetSimShardId(simulator, qo));
+        simulator->CLXNOR(GetSimShardId(simulator, qi), ci, GetSimShardId(simulator, qo));
     } catch (const std::exception& ex) {
         simulatorErrors[sid] = 1;
         std::cout << ex.what() << std::endl;
-- 
2.43.0


From 5832035f6e1e4dd9a6a5c14ea6cdc397fbc2a0d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:01 +0000
Subject: [PATCH 090/106] fix: C API calls from several threads no longer race
 on the registries of simulators, neurons and circuits

---
 src/pinvoke_api.cpp | 1014 +++++++++++++++++--------------------------
 1 file changed, 389 insertions(+), 625 deletions(-)

diff --git a/src/pinvoke_api.cpp b/src/pinvoke_api.cpp
index a7527f6..b9cbe17 100644
--- a/src/pinvoke_api.cpp
+++ b/src/pinvoke_api.cpp
@@ -17,6 +17,8 @@
 #include "hamiltonian.hpp"
 #endif
 
+#include <atomic>
+#include <deque>
 #include <fstream>
 #include <iomanip>
 #include <iostream>
@@ -28,50 +30,18 @@
 
 #define META_LOCK_GUARD() const std::lock_guard<std::mutex> metaLock(metaOperationMutex);
 
-// SIMULATOR_LOCK_GUARD variants will lock simulatorMutexes[nullptr], if the requested simulator doesn't exist.
-// This is CORRECT behavior. This will effectively emplace a mutex for nullptr key.
-#if CPP_STD > 13
-#define SIMULATOR_LOCK_GUARD(simulator)                                                                                \
-    std::unique_ptr<const std::lock_guard<std::mutex>> simulatorLock;                                                  \
-    if (true) {                                                                                                        \
-        std::lock(metaOperationMutex, simulatorMutexes[simulator]);                                                    \
-        const std::lock_guard<std::mutex> metaLock(metaOperationMutex, std::adopt_lock);                               \
-        simulatorLock =                                                                                                \
-            std::make_unique<const std::lock_guard<std::mutex>>(simulatorMutexes[simulator], std::adopt_lock);         \
-    }
-#else
-#define SIMULATOR_LOCK_GUARD(simulator)                                                                                \
-    std::unique_ptr<const std::lock_guard<std::mutex>> simulatorLock;                                                  \
-    if (true) {                                                                                                        \
-        std::lock(metaOperationMutex, simulatorMutexes[simulator]);                                                    \
-        const std::lock_guard<std::mutex> metaLock(metaOperationMutex, std::adopt_lock);                               \
-        simulatorLock = std::unique_ptr<const std::lock_guard<std::mutex>>(                                            \
-            new const std::lock_guard<std::mutex>(simulatorMutexes[simulator], std::adopt_lock));                      \
-    }
-#endif
-
+// A simulator, neuron, or circuit is locked before (and never after) metaOperationMutex.
 #define SIMULATOR_LOCK_GUARD_VOID(sid)                                                                                 \
-    if (sid >= simulators.size()) {                                                                                    \
-        std::cout << "Invalid argument: simulator ID not found!" << std::endl;                                         \
-        metaError = 2;                                                                                                 \
-        return;                                                                                                        \
-    }                                                                                                                  \
-    QInterfacePtr simulator = simulators[sid];                                                                         \
-    SIMULATOR_LOCK_GUARD(simulator.get())                                                                              \
-    if (!simulator) {                                                                                                  \
+    QInterfacePtr simulator;                                                                                           \
+    SharedLock simulatorLock;                                                                                          \
+    if (!LockSimulator(sid, simulator, simulatorLock)) {                                                               \
         return;                                                                                                        \
     }
 
 #define SIMULATOR_LOCK_GUARD_TYPED(sid, def)                                                                           \
-    if (sid >= simulators.size()) {                                                                                    \
-        std::cout << "Invalid argument: simulator ID not found!" << std::endl;                                         \
-        metaError = 2;                                                                                                 \
-        return def;                                                                                                    \
-    }                                                                                                                  \
-                                                                                                                       \
-    QInterfacePtr simulator = simulators[sid];                                                                         \
-    SIMULATOR_LOCK_GUARD(simulator.get())                                                                              \
-    if (!simulator) {                                                                                                  \
+    QInterfacePtr simulator;                                                                                           \
+    SharedLock simulatorLock;                                                                                          \
+    if (!LockSimulator(sid, simulator, simulatorLock)) {                                                               \
         return def;                                                                                                    \
     }
 
@@ -81,55 +51,19 @@
 
 #define SIMULATOR_LOCK_GUARD_INT(sid) SIMULATOR_LOCK_GUARD_TYPED(sid, 0U)
 
-#if CPP_STD > 13
-#define NEURON_LOCK_GUARD(neuron)                                                                                      \
-    std::unique_ptr<const std::lock_guard<std::mutex>> neuronLock;                                                     \
-    std::unique_ptr<const std::lock_guard<std::mutex>> simulatorLock;                                                  \
-    if (true) {                                                                                                        \
-        std::lock(metaOperationMutex, simulatorMutexes[neuronSimulators[neuron]], neuronMutexes[neuron.get()]);        \
-        const std::lock_guard<std::mutex> metaLock(metaOperationMutex, std::adopt_lock);                               \
-        neuronLock =                                                                                                   \
-            std::make_unique<const std::lock_guard<std::mutex>>(neuronMutexes[neuron.get()], std::adopt_lock);         \
-        simulatorLock = std::make_unique<const std::lock_guard<std::mutex>>(                                           \
-            simulatorMutexes[neuronSimulators[neuron]], std::adopt_lock);                                              \
-    }
-#else
-#define NEURON_LOCK_GUARD(neuron)                                                                                      \
-    std::unique_ptr<const std::lock_guard<std::mutex>> neuronLock;                                                     \
-    std::unique_ptr<const std::lock_guard<std::mutex>> simulatorLock;                                                  \
-    if (true) {                                                                                                        \
-        std::lock(metaOperationMutex, simulatorMutexes[neuronSimulators[neuron]], neuronMutexes[neuron.get()]);        \
-        const std::lock_guard<std::mutex> metaLock(metaOperationMutex, std::adopt_lock);                               \
-        neuronLock = std::unique_ptr<const std::lock_guard<std::mutex>>(                                               \
-            new const std::lock_guard<std::mutex>(neuronMutexes[neuron.get()], std::adopt_lock));                      \
-        simulatorLock = std::unique_ptr<const std::lock_guard<std::mutex>>(                                            \
-            new const std::lock_guard<std::mutex>(simulatorMutexes[neuronSimulators[neuron]], std::adopt_lock));       \
-    }
-#endif
-
 #define NEURON_LOCK_GUARD_VOID(nid)                                                                                    \
-    if (nid >= neurons.size()) {                                                                                       \
-        std::cout << "Invalid argument: neuron ID not found!" << std::endl;                                            \
-        metaError = 2;                                                                                                 \
-        return;                                                                                                        \
-    }                                                                                                                  \
-                                                                                                                       \
-    QNeuronPtr neuron = neurons[nid];                                                                                  \
-    NEURON_LOCK_GUARD(neuron)                                                                                          \
-    if (!neuron) {                                                                                                     \
+    QNeuronPtr neuron;                                                                                                 \
+    SharedLock neuronLock;                                                                                             \
+    SharedLock simulatorLock;                                                                                          \
+    if (!LockNeuron(nid, neuron, neuronLock, simulatorLock)) {                                                         \
         return;                                                                                                        \
     }
 
 #define NEURON_LOCK_GUARD_TYPED(nid, def)                                                                              \
-    if (nid >= neurons.size()) {                                                                                       \
-        std::cout << "Invalid argument: neuron ID not found!" << std::endl;                                            \
-        metaError = 2;                                                                                                 \
-        return def;                                                                                                    \
-    }                                                                                                                  \
-                                                                                                                       \
-    QNeuronPtr neuron = neurons[nid];                                                                                  \
-    NEURON_LOCK_GUARD(neuron)                                                                                          \
-    if (!neuron) {                                                                                                     \
+    QNeuronPtr neuron;                                                                                                 \
+    SharedLock neuronLock;                                                                                             \
+    SharedLock simulatorLock;                                                                                          \
+    if (!LockNeuron(nid, neuron, neuronLock, simulatorLock)) {                                                         \
         return def;                                                                                                    \
     }
 
@@ -137,180 +71,261 @@
 
 #define NEURON_LOCK_GUARD_INT(nid) NEURON_LOCK_GUARD_TYPED(nid, 0U)
 
-#if CPP_STD > 13
-#define CIRCUIT_LOCK_GUARD(circuit)                                                                                    \
-    std::unique_ptr<const std::lock_guard<std::mutex>> circuitLock;                                                    \
-    if (true) {                                                                                                        \
-        std::lock(metaOperationMutex, circuitMutexes[circuit.get()]);                                                  \
-        const std::lock_guard<std::mutex> metaLock(metaOperationMutex, std::adopt_lock);                               \
-        circuitLock =                                                                                                  \
-            std::make_unique<const std::lock_guard<std::mutex>>(circuitMutexes[circuit.get()], std::adopt_lock);       \
-    }
-#else
-#define CIRCUIT_LOCK_GUARD(circuit)                                                                                    \
-    std::unique_ptr<const std::lock_guard<std::mutex>> circuitLock;                                                    \
-    if (true) {                                                                                                        \
-        std::lock(metaOperationMutex, circuitMutexes[circuit.get()]);                                                  \
-        const std::lock_guard<std::mutex> metaLock(metaOperationMutex, std::adopt_lock);                               \
-        circuitLock = std::unique_ptr<const std::lock_guard<std::mutex>>(                                              \
-            new const std::lock_guard<std::mutex>(circuitMutexes[circuit.get()], std::adopt_lock));                    \
+#define CIRCUIT_LOCK_GUARD_VOID(cid)                                                                                   \
+    QCircuitPtr circuit;                                                                                               \
+    SharedLock circuitLock;                                                                                            \
+    if (!LockCircuit(cid, circuit, circuitLock)) {                                                                     \
+        return;                                                                                                        \
     }
-#endif
 
 #define CIRCUIT_LOCK_GUARD_TYPED(cid, def)                                                                             \
-    if (cid >= circuits.size()) {                                                                                      \
-        std::cout << "Invalid argument: circuit ID not found!" << std::endl;                                           \
-        metaError = 2;                                                                                                 \
-        return def;                                                                                                    \
-    }                                                                                                                  \
-                                                                                                                       \
-    QCircuitPtr circuit = circuits[cid];                                                                               \
-    CIRCUIT_LOCK_GUARD(circuit)                                                                                        \
-    if (!circuit) {                                                                                                    \
+    QCircuitPtr circuit;                                                                                               \
+    SharedLock circuitLock;                                                                                            \
+    if (!LockCircuit(cid, circuit, circuitLock)) {                                                                     \
         return def;                                                                                                    \
     }
 
-#define CIRCUIT_LOCK_GUARD_VOID(cid)                                                                                   \
-    if (cid >= circuits.size()) {                                                                                      \
-        std::cout << "Invalid argument: neuron ID not found!" << std::endl;                                            \
-        metaError = 2;                                                                                                 \
-        return;                                                                                                        \
-    }                                                                                                                  \
-                                                                                                                       \
-    QCircuitPtr circuit = circuits[cid];                                                                               \
-    CIRCUIT_LOCK_GUARD(circuit)                                                                                        \
-    if (!circuit) {                                                                                                    \
-        return;                                                                                                        \
-    }
-
 #define CIRCUIT_LOCK_GUARD_INT(cid) CIRCUIT_LOCK_GUARD_TYPED(cid, 0U)
 
-#if CPP_STD > 13
-#define CIRCUIT_AND_SIMULATOR_LOCK_GUARD_VOID(cid, sid)                                                                \
-    if (sid >= simulators.size()) {                                                                                    \
-        std::cout << "Invalid argument: simulator ID not found!" << std::endl;                                         \
-        metaError = 2;                                                                                                 \
-        return;                                                                                                        \
-    }                                                                                                                  \
-    if (cid >= circuits.size()) {                                                                                      \
-        std::cout << "Invalid argument: neuron ID not found!" << std::endl;                                            \
-        metaError = 2;                                                                                                 \
-        return;                                                                                                        \
-    }                                                                                                                  \
-                                                                                                                       \
-    QInterfacePtr simulator = simulators[sid];                                                                         \
-    QCircuitPtr circuit = circuits[cid];                                                                               \
-    std::unique_ptr<const std::lock_guard<std::mutex>> simulatorLock;                                                  \
-    std::unique_ptr<const std::lock_guard<std::mutex>> circuitLock;                                                    \
-    if (true) {                                                                                                        \
-        std::lock(metaOperationMutex, simulatorMutexes[simulator.get()], circuitMutexes[circuit.get()]);               \
-        const std::lock_guard<std::mutex> metaLock(metaOperationMutex, std::adopt_lock);                               \
-        simulatorLock =                                                                                                \
-            std::make_unique<const std::lock_guard<std::mutex>>(simulatorMutexes[simulator.get()], std::adopt_lock);   \
-        circuitLock =                                                                                                  \
-            std::make_unique<const std::lock_guard<std::mutex>>(circuitMutexes[circuit.get()], std::adopt_lock);       \
-    }                                                                                                                  \
-    if (!simulator) {                                                                                                  \
-        return;                                                                                                        \
-    }                                                                                                                  \
-    if (!circuit) {                                                                                                    \
-        return;                                                                                                        \
-    }
-#else
+// (Circuits are always locked before simulators.)
 #define CIRCUIT_AND_SIMULATOR_LOCK_GUARD_VOID(cid, sid)                                                                \
-    if (sid >= simulators.size()) {                                                                                    \
-        std::cout << "Invalid argument: simulator ID not found!" << std::endl;                                         \
-        metaError = 2;                                                                                                 \
-        return;                                                                                                        \
-    }                                                                                                                  \
-    if (cid >= circuits.size()) {                                                                                      \
-        std::cout << "Invalid argument: neuron ID not found!" << std::endl;                                            \
-        metaError = 2;                                                                                                 \
-        return;                                                                                                        \
-    }                                                                                                                  \
-                                                                                                                       \
-    QInterfacePtr simulator = simulators[sid];                                                                         \
-    QCircuitPtr circuit = circuits[cid];                                                                               \
-    std::unique_ptr<const std::lock_guard<std::mutex>> simulatorLock;                                                  \
-    std::unique_ptr<const std::lock_guard<std::mutex>> circuitLock;                                                    \
-    if (true) {                                                                                                        \
-        std::lock(metaOperationMutex, simulatorMutexes[simulator.get()], circuitMutexes[circuit.get()]);               \
-        const std::lock_guard<std::mutex> metaLock(metaOperationMutex, std::adopt_lock);                               \
-        simulatorLock = std::unique_ptr<const std::lock_guard<std::mutex>>(                                            \
-            new const std::lock_guard<std::mutex>(simulatorMutexes[simulator.get()], std::adopt_lock));                \
-        circuitLock = std::unique_ptr<const std::lock_guard<std::mutex>>(                                              \
-            new const std::lock_guard<std::mutex>(circuitMutexes[circuit.get()], std::adopt_lock));                    \
-    }                                                                                                                  \
-    if (!simulator) {                                                                                                  \
-        return;                                                                                                        \
-    }                                                                                                                  \
-    if (!circuit) {                                                                                                    \
-        return;                                                                                                        \
-    }
-#endif
+    CIRCUIT_LOCK_GUARD_VOID(cid)                                                                                       \
+    SIMULATOR_LOCK_GUARD_VOID(sid)
 
 #define QALU(qReg) std::dynamic_pointer_cast<QAlu>(qReg)
 #define QPARITY(qReg) std::dynamic_pointer_cast<QParity>(qReg)
 
 using namespace Qrack;
 
-qrack_rand_gen_ptr randNumGen = std::make_shared<qrack_rand_gen>(time(0));
+/// Elements stay in place, and can be used, while other threads append elements.
+template <typename T> class Registry {
+private:
+    mutable std::mutex registryMutex;
+    std::deque<T> items;
+
+public:
+    T& operator[](size_t i)
+    {
+        const std::lock_guard<std::mutex> lock(registryMutex);
+        return items[i];
+    }
+    size_t size() const
+    {
+        const std::lock_guard<std::mutex> lock(registryMutex);
+        return items.size();
+    }
+    template <typename V> void push_back(const V& v)
+    {
+        const std::lock_guard<std::mutex> lock(registryMutex);
+        items.emplace_back(v);
+    }
+};
+
+/// Lock on a mutex that is kept alive, while held or waited for
+struct SharedLock {
+    std::shared_ptr<std::mutex> mutex;
+    std::unique_lock<std::mutex> lock;
+};
+
 std::mutex metaOperationMutex;
-int metaError = 0;
-std::vector<int> simulatorErrors;
-std::vector<QInterfacePtr> simulators;
-std::vector<std::vector<QInterfaceEngine>> simulatorTypes;
-std::vector<bool> simulatorHostPointer;
-std::map<QInterface*, std::mutex> simulatorMutexes;
+std::mutex shardsMutex;
+std::mutex randMutex;
+std::atomic<int> metaError{ 0 };
+qrack_rand_gen_ptr randNumGen = std::make_shared<qrack_rand_gen>(time(0));
+Registry<std::atomic<int>> simulatorErrors;
+Registry<QInterfacePtr> simulators;
+Registry<std::vector<QInterfaceEngine>> simulatorTypes;
+Registry<bool> simulatorHostPointer;
+std::map<QInterface*, std::shared_ptr<std::mutex>> simulatorMutexes;
 std::vector<bool> simulatorReservations;
 std::map<QInterface*, std::map<uintq, bitLenInt>> shards;
-std::vector<int> neuronErrors;
-std::vector<QNeuronPtr> neurons;
+Registry<std::atomic<int>> neuronErrors;
+Registry<QNeuronPtr> neurons;
 std::map<QNeuronPtr, QInterface*> neuronSimulators;
-std::map<QNeuron*, std::mutex> neuronMutexes;
+std::map<QNeuron*, std::shared_ptr<std::mutex>> neuronMutexes;
 std::vector<bool> neuronReservations;
-std::vector<QCircuitPtr> circuits;
-std::map<QCircuit*, std::mutex> circuitMutexes;
+Registry<QCircuitPtr> circuits;
+std::map<QCircuit*, std::shared_ptr<std::mutex>> circuitMutexes;
 std::vector<bool> circuitReservations;
 std::map<QCircuit*, std::string> circuitStrings;
 
-bitLenInt GetSimShardId(QInterfacePtr simulator, uintq i)
+/// A random number generator for a new simulator (which can be used in parallel to any other simulator)
+qrack_rand_gen_ptr NewRandGen()
 {
-    const auto& simShardsIt = shards.find(simulator.get());
-    if (simShardsIt == shards.end()) {
-        const auto& simIt = std::find(simulators.begin(), simulators.end(), simulator);
-        if (simIt == simulators.end()) {
-            metaError = 1;
-            std::cout << "Could not find simulator ID!" << std::endl;
-        } else {
-            simulatorErrors[std::distance(simulators.begin(), simIt)] = 1;
-            std::cout << "Qubit ID is out-of-bounds!" << std::endl;
+    const std::lock_guard<std::mutex> lock(randMutex);
+    return std::make_shared<qrack_rand_gen>((*randNumGen)());
+}
+
+template <typename T>
+std::shared_ptr<std::mutex> GetMutex(std::map<T*, std::shared_ptr<std::mutex>>& mutexes, T* key)
+{
+    std::shared_ptr<std::mutex>& m = mutexes[key];
+    if (!m) {
+        m = std::make_shared<std::mutex>();
+    }
+    return m;
+}
+
+/// Lock item "id" (waiting for any other operation on it). Returns "false" if there is no such item.
+template <typename T>
+bool LockItem(uintq id, const char* name, Registry<std::shared_ptr<T>>& items,
+    std::map<T*, std::shared_ptr<std::mutex>>& mutexes, std::shared_ptr<T>& item, SharedLock& itemLock)
+{
+    while (true) {
+        if (true) {
+            META_LOCK_GUARD()
+            if (id >= items.size()) {
+                std::cout << "Invalid argument: " << name << " ID not found!" << std::endl;
+                metaError = 2;
+
+                return false;
+            }
+            item = items[id];
+            if (!item) {
+                return false;
+            }
+            itemLock.mutex = GetMutex(mutexes, item.get());
         }
 
-        return -1;
+        itemLock.lock = std::unique_lock<std::mutex>(*(itemLock.mutex));
+
+        META_LOCK_GUARD()
+        if (items[id] == item) {
+            return true;
+        }
+        // The item was destroyed (and its ID might have been reused) in the meantime.
+        itemLock.lock.unlock();
     }
+}
 
-    const auto& shardIt = simShardsIt->second.find(i);
-    if (shardIt == simShardsIt->second.end()) {
-        const auto& simIt = std::find(simulators.begin(), simulators.end(), simulator);
-        if (simIt == simulators.end()) {
-            metaError = 1;
-            std::cout << "Could not find simulator ID!" << std::endl;
-        } else {
-            simulatorErrors[std::distance(simulators.begin(), simIt)] = 1;
-            std::cout << "Qubit ID is out-of-bounds!" << std::endl;
+bool LockSimulator(uintq sid, QInterfacePtr& simulator, SharedLock& simulatorLock)
+{
+    return LockItem(sid, "simulator", simulators, simulatorMutexes, simulator, simulatorLock);
+}
+
+bool LockCircuit(uintq cid, QCircuitPtr& circuit, SharedLock& circuitLock)
+{
+    return LockItem(cid, "circuit", circuits, circuitMutexes, circuit, circuitLock);
+}
+
+/// (Neurons are always locked before simulators.)
+bool LockNeuron(uintq nid, QNeuronPtr& neuron, SharedLock& neuronLock, SharedLock& simulatorLock)
+{
+    if (!LockItem(nid, "neuron", neurons, neuronMutexes, neuron, neuronLock)) {
+        return false;
+    }
+
+    if (true) {
+        META_LOCK_GUARD()
+        simulatorLock.mutex = GetMutex(simulatorMutexes, neuronSimulators[neuron]);
+    }
+    simulatorLock.lock = std::unique_lock<std::mutex>(*(simulatorLock.mutex));
+
+    return true;
+}
+
+/// Take the lowest free ID. (Only call this with metaOperationMutex.)
+uintq ReserveId(std::vector<bool>& reservations)
+{
+    for (size_t i = 0U; i < reservations.size(); ++i) {
+        if (!reservations[i]) {
+            reservations[i] = true;
+            return (uintq)i;
         }
+    }
+    reservations.push_back(true);
 
-        return -1;
+    return (uintq)(reservations.size() - 1U);
+}
+
+/// Register a new neuron, and return its ID. (Only call this with metaOperationMutex.)
+uintq AddNeuron(QNeuronPtr neuron, QInterface* simulator)
+{
+    const uintq nid = ReserveId(neuronReservations);
+    neuronSimulators[neuron] = simulator;
+    if (nid == neurons.size()) {
+        neurons.push_back(neuron);
+        neuronErrors.push_back(0);
+    } else {
+        neurons[nid] = neuron;
+        neuronErrors[nid] = 0;
+    }
+
+    return nid;
+}
+
+/// Register a new circuit, and return its ID. (Only call this with metaOperationMutex.)
+uintq AddCircuit(QCircuitPtr circuit)
+{
+    const uintq cid = ReserveId(circuitReservations);
+    if (cid == circuits.size()) {
+        circuits.push_back(circuit);
+    } else {
+        circuits[cid] = circuit;
+    }
+
+    return cid;
+}
+
+std::map<uintq, bitLenInt>& SimShards(QInterface* simulator)
+{
+    const std::lock_guard<std::mutex> lock(shardsMutex);
+    return shards[simulator];
+}
+
+void EraseSimShards(QInterface* simulator)
+{
+    const std::lock_guard<std::mutex> lock(shardsMutex);
+    shards.erase(simulator);
+}
+
+/// Register a new simulator, and return its ID. (Only call this with metaOperationMutex.)
+uintq AddSimulator(QInterfacePtr simulator, const std::vector<QInterfaceEngine>& simulatorType, bool hp, bool isSuccess)
+{
+    const uintq sid = ReserveId(simulatorReservations);
+    if (sid == simulators.size()) {
+        simulators.push_back(simulator);
+        simulatorTypes.push_back(simulatorType);
+        simulatorHostPointer.push_back(hp);
+        simulatorErrors.push_back(isSuccess ? 0 : 1);
+    } else {
+        simulators[sid] = simulator;
+        simulatorTypes[sid] = simulatorType;
+        simulatorHostPointer[sid] = hp;
+        simulatorErrors[sid] = isSuccess ? 0 : 1;
     }
 
-    return shardIt->second;
+    return sid;
+}
+
+bitLenInt GetSimShardId(QInterfacePtr simulator, uintq i)
+{
+    const std::map<uintq, bitLenInt>& simShards = SimShards(simulator.get());
+    const auto& shardIt = simShards.find(i);
+    if (shardIt != simShards.end()) {
+        return shardIt->second;
+    }
+
+    META_LOCK_GUARD()
+    for (size_t sid = 0U; sid < simulators.size(); ++sid) {
+        if (simulators[sid] == simulator) {
+            simulatorErrors[sid] = 1;
+            std::cout << "Qubit ID is out-of-bounds!" << std::endl;
+
+            return -1;
+        }
+    }
+
+    metaError = 1;
+    std::cout << "Could not find simulator ID!" << std::endl;
+
+    return -1;
 }
 
 void FillSimShards(QInterfacePtr simulator)
 {
-    shards[simulator.get()] = {};
-    std::map<uintq, bitLenInt>& s = shards[simulator.get()];
+    std::map<uintq, bitLenInt>& s = SimShards(simulator.get());
+    s.clear();
     for (uintq i = 0U; i < simulator->GetQubitCount(); ++i) {
         s[i] = (bitLenInt)i;
     }
@@ -471,7 +486,7 @@ void MapToRange(QInterfacePtr simulator, uintq start, uintq n, uintq* q)
     for (uintq i = 0U; i < n; ++i) {
         const bitLenInt pos = GetSimShardId(simulator, q[i]);
         simulator->Swap(start + i, pos);
-        SwapShardValues(start + i, pos, shards[simulator.get()]);
+        SwapShardValues(start + i, pos, SimShards(simulator.get()));
     }
 }
 
@@ -564,8 +579,7 @@ extern "C" {
  */
 MICROSOFT_QUANTUM_DECL int get_error(_In_ uintq sid)
 {
-    if (metaError) {
-        metaError = 0;
+    if (metaError.exchange(0)) {
         return 2;
     }
 
@@ -590,16 +604,6 @@ MICROSOFT_QUANTUM_DECL uintq init_count_type(_In_ uintq q, _In_ bool tn, _In_ bo
 {
     META_LOCK_GUARD()
 
-    uintq sid = (uintq)simulators.size();
-
-    for (uintq i = 0U; i < simulators.size(); ++i) {
-        if (simulatorReservations[i] == false) {
-            sid = i;
-            simulatorReservations[i] = true;
-            break;
-        }
-    }
-
 #if ENABLE_OPENCL || ENABLE_CUDA
     bool isOcl = oc && (DEVICE_COUNT > 0);
     bool isOclMulti = oc && md && (DEVICE_COUNT > 1);
@@ -649,34 +653,18 @@ MICROSOFT_QUANTUM_DECL uintq init_count_type(_In_ uintq q, _In_ bool tn, _In_ bo
     if (q) {
         try {
             simulator =
-                CreateQuantumInterface(simulatorType, q, ZERO_BCI, randNumGen, CMPLX_DEFAULT_ARG, false, true, hp);
+                CreateQuantumInterface(simulatorType, q, ZERO_BCI, NewRandGen(), CMPLX_DEFAULT_ARG, false, true, hp);
         } catch (const std::exception& ex) {
             std::cout << ex.what() << std::endl;
             isSuccess = false;
         }
     }
 
-    if (sid == simulators.size()) {
-        simulatorReservations.push_back(true);
-        simulators.push_back(simulator);
-        simulatorTypes.push_back(simulatorType);
-        simulatorHostPointer.push_back(hp);
-        simulatorErrors.push_back(isSuccess ? 0 : 1);
-    } else {
-        simulatorReservations[sid] = true;
-        simulators[sid] = simulator;
-        simulatorTypes[sid] = simulatorType;
-        simulatorHostPointer[sid] = hp;
-        simulatorErrors[sid] = isSuccess ? 0 : 1;
-    }
-
-    if (!simulator) {
-        return sid;
+    if (simulator) {
+        FillSimShards(simulator);
     }
 
-    FillSimShards(simulator);
-
-    return sid;
+    return AddSimulator(simulator, simulatorType, hp, isSuccess);
 }
 
 /**
@@ -686,16 +674,6 @@ MICROSOFT_QUANTUM_DECL uintq init_count(_In_ uintq q, _In_ bool hp)
 {
     META_LOCK_GUARD()
 
-    uintq sid = (uintq)simulators.size();
-
-    for (uintq i = 0U; i < simulators.size(); ++i) {
-        if (simulatorReservations[i] == false) {
-            sid = i;
-            simulatorReservations[i] = true;
-            break;
-        }
-    }
-
     const std::vector<QInterfaceEngine> simulatorType{ QINTERFACE_TENSOR_NETWORK };
 
     bool isSuccess = true;
@@ -703,34 +681,18 @@ MICROSOFT_QUANTUM_DECL uintq init_count(_In_ uintq q, _In_ bool hp)
     if (q) {
         try {
             simulator =
-                CreateQuantumInterface(simulatorType, q, ZERO_BCI, randNumGen, CMPLX_DEFAULT_ARG, false, true, hp);
+                CreateQuantumInterface(simulatorType, q, ZERO_BCI, NewRandGen(), CMPLX_DEFAULT_ARG, false, true, hp);
         } catch (const std::exception& ex) {
             std::cout << ex.what() << std::endl;
             isSuccess = false;
         }
     }
 
-    if (sid == simulators.size()) {
-        simulatorReservations.push_back(true);
-        simulators.push_back(simulator);
-        simulatorTypes.push_back(simulatorType);
-        simulatorHostPointer.push_back(hp);
-        simulatorErrors.push_back(isSuccess ? 0 : 1);
-    } else {
-        simulatorReservations[sid] = true;
-        simulators[sid] = simulator;
-        simulatorTypes[sid] = simulatorType;
-        simulatorHostPointer[sid] = hp;
-        simulatorErrors[sid] = isSuccess ? 0 : 1;
-    }
-
-    if (!simulator) {
-        return sid;
+    if (simulator) {
+        FillSimShards(simulator);
     }
 
-    FillSimShards(simulator);
-
-    return sid;
+    return AddSimulator(simulator, simulatorType, hp, isSuccess);
 }
 
 /**
@@ -740,16 +702,6 @@ MICROSOFT_QUANTUM_DECL uintq init_count_pager(_In_ uintq q, _In_ bool hp)
 {
     META_LOCK_GUARD()
 
-    uintq sid = (uintq)simulators.size();
-
-    for (uintq i = 0U; i < simulators.size(); ++i) {
-        if (simulatorReservations[i] == false) {
-            sid = i;
-            simulatorReservations[i] = true;
-            break;
-        }
-    }
-
     const std::vector<QInterfaceEngine> simulatorType{ QINTERFACE_TENSOR_NETWORK, QINTERFACE_OPTIMAL };
 
     std::vector<int64_t> deviceList;
@@ -773,7 +725,7 @@ MICROSOFT_QUANTUM_DECL uintq init_count_pager(_In_ uintq q, _In_ bool hp)
     QInterfacePtr simulator{ nullptr };
     if (q) {
         try {
-            simulator = CreateQuantumInterface(simulatorType, q, ZERO_BCI, randNumGen, CMPLX_DEFAULT_ARG, false, true,
+            simulator = CreateQuantumInterface(simulatorType, q, ZERO_BCI, NewRandGen(), CMPLX_DEFAULT_ARG, false, true,
                 hp, -1, true, false, REAL1_EPSILON, deviceList, 0, FP_NORM_EPSILON_F);
         } catch (const std::exception& ex) {
             std::cout << ex.what() << std::endl;
@@ -781,27 +733,11 @@ MICROSOFT_QUANTUM_DECL uintq init_count_pager(_In_ uintq q, _In_ bool hp)
         }
     }
 
-    if (sid == simulators.size()) {
-        simulatorReservations.push_back(true);
-        simulators.push_back(simulator);
-        simulatorTypes.push_back(simulatorType);
-        simulatorHostPointer.push_back(hp);
-        simulatorErrors.push_back(isSuccess ? 0 : 1);
-    } else {
-        simulatorReservations[sid] = true;
-        simulators[sid] = simulator;
-        simulatorTypes[sid] = simulatorType;
-        simulatorHostPointer[sid] = hp;
-        simulatorErrors[sid] = isSuccess ? 0 : 1;
-    }
-
-    if (!simulator) {
-        return sid;
+    if (simulator) {
+        FillSimShards(simulator);
     }
 
-    FillSimShards(simulator);
-
-    return sid;
+    return AddSimulator(simulator, simulatorType, hp, isSuccess);
 }
 
 /**
@@ -809,34 +745,15 @@ MICROSOFT_QUANTUM_DECL uintq init_count_pager(_In_ uintq q, _In_ bool hp)
  */
 MICROSOFT_QUANTUM_DECL uintq init_clone(_In_ uintq sid)
 {
-    META_LOCK_GUARD()
-
-    if (sid >= simulators.size()) {
-        std::cout << "Invalid argument: simulator ID not found!" << std::endl;
-        metaError = 2;
-
-        return 0U;
-    }
-
-    QInterfacePtr oSimulator = simulators[sid];
-    std::unique_ptr<const std::lock_guard<std::mutex>> simulatorLock(
-        new const std::lock_guard<std::mutex>(simulatorMutexes[oSimulator.get()]));
-
-    uintq nsid = (uintq)simulators.size();
-
-    for (uintq i = 0U; i < simulators.size(); ++i) {
-        if (simulatorReservations[i] == false) {
-            nsid = i;
-            simulatorReservations[i] = true;
-            break;
-        }
-    }
+    QInterfacePtr oSimulator;
+    SharedLock simulatorLock;
+    const bool isFound = LockSimulator(sid, oSimulator, simulatorLock);
 
     bool isSuccess = true;
     QInterfacePtr simulator;
     try {
         // (A simulator of which all qubits were released is empty.)
-        if (oSimulator) {
+        if (isFound) {
             simulator = oSimulator->Clone();
         }
     } catch (const std::exception& ex) {
@@ -844,92 +761,45 @@ MICROSOFT_QUANTUM_DECL uintq init_clone(_In_ uintq sid)
         isSuccess = false;
     }
 
-    if (nsid == simulators.size()) {
-        simulatorReservations.push_back(true);
-        simulators.push_back(simulator);
-        simulatorTypes.push_back(simulatorTypes[sid]);
-        simulatorHostPointer.push_back(simulatorHostPointer[sid]);
-        simulatorErrors.push_back(isSuccess ? 0 : 1);
-    } else {
-        simulatorReservations[nsid] = true;
-        simulators[nsid] = simulator;
-        simulatorTypes[nsid] = simulatorTypes[sid];
-        simulatorHostPointer[nsid] = simulatorHostPointer[sid];
-        simulatorErrors[nsid] = isSuccess ? 0 : 1;
+    if (simulator) {
+        // (The clone has the same qubit IDs.)
+        SimShards(simulator.get()) = SimShards(oSimulator.get());
     }
 
-    if (!simulator) {
-        return nsid;
-    }
+    META_LOCK_GUARD()
 
-    // (The clone has the same qubit IDs.)
-    const auto& simShardsIt = shards.find(oSimulator.get());
-    if (simShardsIt == shards.end()) {
-        FillSimShards(simulator);
-    } else {
-        const std::map<uintq, bitLenInt> simShards = simShardsIt->second;
-        shards[simulator.get()] = simShards;
+    if (sid >= simulators.size()) {
+        return 0U;
     }
 
-    return nsid;
+    const std::vector<QInterfaceEngine> simulatorType = simulatorTypes[sid];
+
+    return AddSimulator(simulator, simulatorType, simulatorHostPointer[sid], isSuccess);
 }
 
+/// (Only call this with the lock on simulator "sid".)
 uintq init_clone_size(uintq sid, uintq n)
 {
     META_LOCK_GUARD()
 
-    if (sid >= simulators.size()) {
-        std::cout << "Invalid argument: simulator ID not found!" << std::endl;
-        metaError = 2;
-
-        return 0U;
-    }
-
-    QInterfacePtr oSimulator = simulators[sid];
-    std::unique_ptr<const std::lock_guard<std::mutex>> simulatorLock(
-        new const std::lock_guard<std::mutex>(simulatorMutexes[oSimulator.get()]));
-
-    uintq nsid = (uintq)simulators.size();
-
-    for (uintq i = 0U; i < simulators.size(); ++i) {
-        if (simulatorReservations[i] == false) {
-            nsid = i;
-            simulatorReservations[i] = true;
-            break;
-        }
-    }
+    const std::vector<QInterfaceEngine> simulatorType = simulatorTypes[sid];
+    const bool hp = simulatorHostPointer[sid];
 
     bool isSuccess = true;
     QInterfacePtr simulator;
     try {
-        simulator = CreateQuantumInterface(
-            simulatorTypes[sid], n, ZERO_BCI, randNumGen, CMPLX_DEFAULT_ARG, false, true, simulatorHostPointer[sid]);
+        simulator =
+            CreateQuantumInterface(simulatorType, n, ZERO_BCI, NewRandGen(), CMPLX_DEFAULT_ARG, false, true, hp);
     } catch (const std::exception& ex) {
         std::cout << ex.what() << std::endl;
         isSuccess = false;
     }
 
-    if (nsid == simulators.size()) {
-        simulatorReservations.push_back(true);
-        simulators.push_back(simulator);
-        simulatorTypes.push_back(simulatorTypes[sid]);
-        simulatorHostPointer.push_back(simulatorHostPointer[sid]);
-        simulatorErrors.push_back(isSuccess ? 0 : 1);
-    } else {
-        simulatorReservations[nsid] = true;
-        simulators[nsid] = simulator;
-        simulatorTypes[nsid] = simulatorTypes[sid];
-        simulatorHostPointer[nsid] = simulatorHostPointer[sid];
-        simulatorErrors[nsid] = isSuccess ? 0 : 1;
-    }
-
-    if (!simulator) {
-        return nsid;
+    if (simulator) {
+        FillSimShards(simulator);
     }
 
-    FillSimShards(simulator);
-
-    return nsid;
+    return AddSimulator(simulator, simulatorType, hp, isSuccess);
 }
 
 /**
@@ -937,18 +807,21 @@ uintq init_clone_size(uintq sid, uintq n)
  */
 MICROSOFT_QUANTUM_DECL void destroy(_In_ uintq sid)
 {
-    META_LOCK_GUARD()
+    // (Wait for any operation on the simulator to end.)
+    QInterfacePtr simulator;
+    SharedLock simulatorLock;
+    const bool isFound = LockSimulator(sid, simulator, simulatorLock);
 
-    if (sid >= simulators.size()) {
-        std::cout << "Invalid argument: simulator ID not found!" << std::endl;
-        metaError = 2;
+    META_LOCK_GUARD()
 
+    if (isFound) {
+        EraseSimShards(simulator.get());
+        simulatorMutexes.erase(simulator.get());
+        simulators[sid] = nullptr;
+    } else if (sid >= simulators.size() || simulators[sid]) {
         return;
     }
 
-    shards.erase(simulators[sid].get());
-    simulatorMutexes.erase(simulators[sid].get());
-    simulators[sid] = nullptr;
     simulatorErrors[sid] = 0;
     simulatorReservations[sid] = false;
 }
@@ -960,7 +833,7 @@ MICROSOFT_QUANTUM_DECL void seed(_In_ uintq sid, _In_ uintq s)
 {
     SIMULATOR_LOCK_GUARD_VOID(sid)
     try {
-        simulators[sid]->SetRandomSeed((unsigned)s);
+        simulator->SetRandomSeed((unsigned)s);
     } catch (const std::exception& ex) {
         simulatorErrors[sid] = 1;
         std::cout << ex.what() << std::endl;
@@ -974,7 +847,7 @@ MICROSOFT_QUANTUM_DECL void set_concurrency(_In_ uintq sid, _In_ uintq p)
 {
     SIMULATOR_LOCK_GUARD_VOID(sid)
     try {
-        simulators[sid]->SetConcurrency((unsigned)p);
+        simulator->SetConcurrency((unsigned)p);
     } catch (const std::exception& ex) {
         simulatorErrors[sid] = 1;
         std::cout << ex.what() << std::endl;
@@ -997,7 +870,7 @@ MICROSOFT_QUANTUM_DECL void qstabilizer_out_to_file(_In_ uintq sid, _In_ char* f
     ofile.precision(36);
 
     try {
-        ofile << std::dynamic_pointer_cast<QStabilizerHybrid>(simulators[sid]);
+        ofile << std::dynamic_pointer_cast<QStabilizerHybrid>(simulator);
     } catch (const std::exception& ex) {
         simulatorErrors[sid] = 1;
         std::cout << ex.what() << std::endl;
@@ -1020,7 +893,7 @@ MICROSOFT_QUANTUM_DECL void qstabilizer_in_from_file(_In_ uintq sid, _In_ char*
     ifile.open(f);
 
     try {
-        ifile >> std::dynamic_pointer_cast<QStabilizerHybrid>(simulators[sid]);
+        ifile >> std::dynamic_pointer_cast<QStabilizerHybrid>(simulator);
     } catch (const std::exception& ex) {
         simulatorErrors[sid] = 1;
         std::cout << ex.what() << std::endl;
@@ -1038,13 +911,7 @@ MICROSOFT_QUANTUM_DECL void DumpIds(_In_ uintq sid, _In_ IdCallback callback)
 {
     SIMULATOR_LOCK_GUARD_VOID(sid)
 
-    const auto& sIt = shards.find(simulator.get());
-
-    if (sIt == shards.end()) {
-        return;
-    }
-
-    const std::map<uintq, bitLenInt>& s = sIt->second;
+    const std::map<uintq, bitLenInt>& s = SimShards(simulator.get());
 
     for (auto it = s.begin(); it != s.end(); ++it) {
         callback(it->first);
@@ -1169,6 +1036,7 @@ MICROSOFT_QUANTUM_DECL void OutProbs(_In_ uintq sid, _In_ real1_s* probs)
 MICROSOFT_QUANTUM_DECL std::size_t random_choice(_In_ uintq sid, _In_ std::size_t n, _In_reads_(n) double* p)
 {
     std::discrete_distribution<std::size_t> dist(p, p + n);
+    const std::lock_guard<std::mutex> lock(randMutex);
     return dist(*randNumGen.get());
 }
 
@@ -1267,50 +1135,57 @@ MICROSOFT_QUANTUM_DECL void ResetAll(_In_ uintq sid)
  */
 MICROSOFT_QUANTUM_DECL void allocateQubit(_In_ uintq sid, _In_ uintq qid)
 {
-    META_LOCK_GUARD()
+    while (true) {
+        QInterfacePtr oSimulator;
+        SharedLock simulatorLock;
+        const bool isFound = LockSimulator(sid, oSimulator, simulatorLock);
 
-    if (sid >= simulators.size()) {
-        std::cout << "Invalid argument: simulator ID not found!" << std::endl;
-        metaError = 2;
+        if (!isFound && (sid >= simulators.size())) {
+            return;
+        }
 
-        return;
-    }
+        std::unique_lock<std::mutex> metaLock(metaOperationMutex);
 
-    QInterfacePtr nQubit{ nullptr };
-    try {
-        nQubit = CreateQuantumInterface(
-            simulatorTypes[sid], 1U, ZERO_BCI, randNumGen, CMPLX_DEFAULT_ARG, false, true, simulatorHostPointer[sid]);
-    } catch (const std::exception& ex) {
-        simulatorErrors[sid] = 1;
-        std::cout << ex.what() << std::endl;
+        if (!isFound && simulators[sid]) {
+            // Another thread has just allocated the first qubit.
+            continue;
+        }
 
-        return;
-    }
+        QInterfacePtr nQubit{ nullptr };
+        try {
+            nQubit = CreateQuantumInterface(simulatorTypes[sid], 1U, ZERO_BCI, NewRandGen(), CMPLX_DEFAULT_ARG, false,
+                true, simulatorHostPointer[sid]);
+        } catch (const std::exception& ex) {
+            simulatorErrors[sid] = 1;
+            std::cout << ex.what() << std::endl;
 
-    if (!simulators[sid]) {
-        simulators[sid] = nQubit;
-        shards[nQubit.get()] = {};
-        shards[nQubit.get()][qid] = 0;
+            return;
+        }
 
-        return;
-    }
+        if (!isFound) {
+            SimShards(nQubit.get())[qid] = 0;
+            simulators[sid] = nQubit;
 
-    QInterfacePtr oSimulator = simulators[sid];
-    std::unique_ptr<const std::lock_guard<std::mutex>> simulatorLock(
-        new const std::lock_guard<std::mutex>(simulatorMutexes[oSimulator.get()]));
+            return;
+        }
 
-    bitLenInt qubitCount = -1;
-    try {
-        oSimulator->Compose(nQubit);
-        qubitCount = simulators[sid]->GetQubitCount();
-    } catch (const std::exception& ex) {
-        simulatorErrors[sid] = 1;
-        std::cout << ex.what() << std::endl;
+        metaLock.unlock();
+
+        bitLenInt qubitCount = -1;
+        try {
+            oSimulator->Compose(nQubit);
+            qubitCount = oSimulator->GetQubitCount();
+        } catch (const std::exception& ex) {
+            simulatorErrors[sid] = 1;
+            std::cout << ex.what() << std::endl;
+
+            return;
+        }
+
+        SimShards(oSimulator.get())[qid] = (qubitCount - 1U);
 
         return;
     }
-
-    shards[simulators[sid].get()][qid] = (qubitCount - 1U);
 }
 
 /**
@@ -1318,24 +1193,9 @@ MICROSOFT_QUANTUM_DECL void allocateQubit(_In_ uintq sid, _In_ uintq qid)
  */
 MICROSOFT_QUANTUM_DECL bool release(_In_ uintq sid, _In_ uintq q)
 {
-    META_LOCK_GUARD()
-
-    if (sid >= simulators.size()) {
-        std::cout << "Invalid argument: simulator ID not found!" << std::endl;
-        metaError = 2;
-
-        return 0U;
-    }
-
-    QInterfacePtr simulator = simulators[sid];
-    std::unique_ptr<const std::lock_guard<std::mutex>> simulatorLock(
-        new const std::lock_guard<std::mutex>(simulatorMutexes[simulator.get()]));
-
-    if (!simulator) {
-        return false;
-    }
+    SIMULATOR_LOCK_GUARD_BOOL(sid)
 
-    std::map<uintq, bitLenInt>& simShards = shards[simulator.get()];
+    std::map<uintq, bitLenInt>& simShards = SimShards(simulator.get());
     const auto& shardIt = simShards.find(q);
     if (shardIt == simShards.end()) {
         simulatorErrors[sid] = 1;
@@ -1360,7 +1220,9 @@ MICROSOFT_QUANTUM_DECL bool release(_In_ uintq sid, _In_ uintq q)
     }
 
     if (simShards.size() == 1U) {
-        shards.erase(simulator.get());
+        META_LOCK_GUARD()
+        EraseSimShards(simulator.get());
+        simulatorMutexes.erase(simulator.get());
         simulators[sid] = nullptr;
     } else {
         for (auto it = simShards.begin(); it != simShards.end(); ++it) {
@@ -2123,7 +1985,7 @@ MICROSOFT_QUANTUM_DECL uintq MAll(_In_ uintq sid)
 {
     SIMULATOR_LOCK_GUARD_INT(sid)
     try {
-        return (bitCapIntOcl)simulators[sid]->MAll();
+        return (bitCapIntOcl)simulator->MAll();
     } catch (const std::exception& ex) {
         simulatorErrors[sid] = 1;
         std::cout << ex.what() << std::endl;
@@ -2240,17 +2102,6 @@ MICROSOFT_QUANTUM_DECL void ACSWAP(_In_ uintq sid, _In_ uintq n, _In_reads_(n) u
 
 MICROSOFT_QUANTUM_DECL void Compose(_In_ uintq sid1, _In_ uintq sid2, uintq* q)
 {
-    if ((sid1 >= simulators.size()) || (sid2 >= simulators.size())) {
-        std::cout << "Invalid argument: simulator ID not found!" << std::endl;
-        metaError = 2;
-
-        return;
-    }
-
-    if (!simulators[sid1] || !simulators[sid2]) {
-        return;
-    }
-
     if (sid1 == sid2) {
         metaError = 2;
         std::cout << "Cannot 'Compose()' a simulator with itself!" << std::endl;
@@ -2258,8 +2109,14 @@ MICROSOFT_QUANTUM_DECL void Compose(_In_ uintq sid1, _In_ uintq sid2, uintq* q)
         return;
     }
 
-    const std::lock_guard<std::mutex> simulatorLock1(simulatorMutexes[simulators[sid1].get()]);
-    const std::lock_guard<std::mutex> simulatorLock2(simulatorMutexes[simulators[sid2].get()]);
+    // (More than one simulator at once is always locked in order of IDs.)
+    QInterfacePtr simulator1, simulator2;
+    SharedLock simulatorLock1, simulatorLock2;
+    if ((sid1 < sid2)
+            ? (!LockSimulator(sid1, simulator1, simulatorLock1) || !LockSimulator(sid2, simulator2, simulatorLock2))
+            : (!LockSimulator(sid2, simulator2, simulatorLock2) || !LockSimulator(sid1, simulator1, simulatorLock1))) {
+        return;
+    }
 
     if (simulatorTypes[sid1].size() != simulatorTypes[sid2].size()) {
         metaError = 2;
@@ -2277,8 +2134,6 @@ MICROSOFT_QUANTUM_DECL void Compose(_In_ uintq sid1, _In_ uintq sid2, uintq* q)
         }
     }
 
-    QInterfacePtr simulator1 = simulators[sid1];
-    QInterfacePtr simulator2 = simulators[sid2];
     bitLenInt oQubitCount = 0U;
     bitLenInt pQubitCount = 0U;
     try {
@@ -2292,7 +2147,7 @@ MICROSOFT_QUANTUM_DECL void Compose(_In_ uintq sid1, _In_ uintq sid2, uintq* q)
 
         return;
     }
-    std::map<uintq, bitLenInt>& s = shards[simulator1.get()];
+    std::map<uintq, bitLenInt>& s = SimShards(simulator1.get());
     for (bitLenInt i = 0; i < pQubitCount; ++i) {
         s[q[i]] = oQubitCount + i;
     }
@@ -2300,10 +2155,22 @@ MICROSOFT_QUANTUM_DECL void Compose(_In_ uintq sid1, _In_ uintq sid2, uintq* q)
 
 MICROSOFT_QUANTUM_DECL uintq Decompose(_In_ uintq sid, _In_ uintq n, _In_reads_(n) uintq* q)
 {
-    uintq nSid = init_clone_size(sid, n);
-
     SIMULATOR_LOCK_GUARD_INT(sid)
 
+    const uintq nSid = init_clone_size(sid, n);
+
+    // (No other thread was given the new ID, yet.)
+    QInterfacePtr nSimulator;
+    if (true) {
+        META_LOCK_GUARD()
+        nSimulator = simulators[nSid];
+    }
+    if (!nSimulator) {
+        simulatorErrors[sid] = 1;
+
+        return nSid;
+    }
+
     bitLenInt nQubitIndex = 0U;
 
     try {
@@ -2311,7 +2178,7 @@ MICROSOFT_QUANTUM_DECL uintq Decompose(_In_ uintq sid, _In_ uintq n, _In_reads_(
 
         MapToRange(simulator, nQubitIndex, n, q);
 
-        simulator->Decompose(nQubitIndex, simulators[nSid]);
+        simulator->Decompose(nQubitIndex, nSimulator);
     } catch (const std::exception& ex) {
         std::cout << ex.what() << std::endl;
         simulatorErrors[sid] = 1;
@@ -2321,7 +2188,7 @@ MICROSOFT_QUANTUM_DECL uintq Decompose(_In_ uintq sid, _In_ uintq n, _In_reads_(
     }
 
     for (uintq j = 0U; j < n; ++j) {
-        std::map<uintq, bitLenInt>& simShards = shards[simulator.get()];
+        std::map<uintq, bitLenInt>& simShards = SimShards(simulator.get());
         bitLenInt oIndex = simShards[q[j]];
         for (auto it = simShards.begin(); it != simShards.end(); ++it) {
             if (it->second > oIndex) {
@@ -2349,7 +2216,7 @@ MICROSOFT_QUANTUM_DECL void Dispose(_In_ uintq sid, _In_ uintq n, _In_reads_(n)
         return;
     }
     for (uintq j = 0U; j < n; ++j) {
-        std::map<uintq, bitLenInt>& simShards = shards[simulator.get()];
+        std::map<uintq, bitLenInt>& simShards = SimShards(simulator.get());
         bitLenInt oIndex = simShards[q[j]];
         for (auto it = simShards.begin(); it != simShards.end(); ++it) {
             if (it->second > oIndex) {
@@ -3315,7 +3182,7 @@ MICROSOFT_QUANTUM_DECL bool TrySeparate1Qb(_In_ uintq sid, _In_ uintq qi1)
     SIMULATOR_LOCK_GUARD_BOOL(sid)
 
     try {
-        return simulators[sid]->TrySeparate(GetSimShardId(simulator, qi1));
+        return simulator->TrySeparate(GetSimShardId(simulator, qi1));
     } catch (const std::exception& ex) {
         simulatorErrors[sid] = 1;
         std::cout << ex.what() << std::endl;
@@ -3329,7 +3196,7 @@ MICROSOFT_QUANTUM_DECL bool TrySeparate2Qb(_In_ uintq sid, _In_ uintq qi1, _In_
     SIMULATOR_LOCK_GUARD_BOOL(sid)
 
     try {
-        return simulators[sid]->TrySeparate(GetSimShardId(simulator, qi1), GetSimShardId(simulator, qi2));
+        return simulator->TrySeparate(GetSimShardId(simulator, qi1), GetSimShardId(simulator, qi2));
     } catch (const std::exception& ex) {
         simulatorErrors[sid] = 1;
         std::cout << ex.what() << std::endl;
@@ -3497,21 +3364,9 @@ MICROSOFT_QUANTUM_DECL void TimeEvolve(_In_ uintq sid, _In_ double t, _In_ uintq
 MICROSOFT_QUANTUM_DECL uintq init_qneuron(
     _In_ uintq sid, _In_ uintq n, _In_reads_(n) uintq* c, _In_ uintq q, _In_ uintq f, _In_ double a, _In_ double tol)
 {
-    META_LOCK_GUARD()
-
-    if (sid >= simulators.size()) {
-        std::cout << "Invalid argument: simulator ID not found!" << std::endl;
-        metaError = 2;
-
-        return 0U;
-    }
-
-    QInterfacePtr simulator = simulators[sid];
-    std::unique_ptr<const std::lock_guard<std::mutex>> simulatorLock(
-        new const std::lock_guard<std::mutex>(simulatorMutexes[simulator.get()]));
-
-    if (!simulator) {
-        std::cout << "Invalid argument: simulator ID not found!" << std::endl;
+    QInterfacePtr simulator;
+    SharedLock simulatorLock;
+    if (!LockSimulator(sid, simulator, simulatorLock)) {
         metaError = 2;
 
         return -1;
@@ -3522,86 +3377,38 @@ MICROSOFT_QUANTUM_DECL uintq init_qneuron(
         ctrlsArray[i] = GetSimShardId(simulator, c[i]);
     }
 
-    uintq nid = (uintq)neurons.size();
-
-    for (uintq i = 0U; i < neurons.size(); ++i) {
-        if (neuronReservations[i] == false) {
-            nid = i;
-            neuronReservations[i] = true;
-            break;
-        }
-    }
-
     QNeuronPtr neuron = std::make_shared<QNeuron>(
         simulator, ctrlsArray, GetSimShardId(simulator, q), (QNeuronActivationFn)f, (real1_f)a, (real1_f)tol);
-    neuronSimulators[neuron] = simulator.get();
 
-    if (nid == neurons.size()) {
-        neuronReservations.push_back(true);
-        neurons.push_back(neuron);
-        neuronErrors.push_back(0);
-    } else {
-        neuronReservations[nid] = true;
-        neurons[nid] = neuron;
-        neuronErrors[nid] = 0;
-    }
+    META_LOCK_GUARD()
 
-    return nid;
+    return AddNeuron(neuron, simulator.get());
 }
 
 MICROSOFT_QUANTUM_DECL uintq clone_qneuron(_In_ uintq nid)
 {
-    META_LOCK_GUARD()
-
-    if (nid >= neurons.size()) {
-        std::cout << "Invalid argument: neuron ID not found!" << std::endl;
-        metaError = 2;
-
-        return 0U;
-    }
-
-    QNeuronPtr neuron = neurons[nid];
-    std::unique_ptr<const std::lock_guard<std::mutex>> neuronLock(
-        new const std::lock_guard<std::mutex>(neuronMutexes[neuron.get()]));
-
-    uintq nnid = (uintq)neurons.size();
-
-    for (uintq i = 0U; i < neurons.size(); ++i) {
-        if (neuronReservations[i] == false) {
-            nnid = i;
-            neuronReservations[i] = true;
-            break;
-        }
-    }
+    NEURON_LOCK_GUARD_INT(nid)
 
     QNeuronPtr nNeuron = std::make_shared<QNeuron>(*neuron);
-    neuronSimulators[nNeuron] = neuronSimulators[neuron];
 
-    if (nnid == neurons.size()) {
-        neuronReservations.push_back(true);
-        neurons.push_back(nNeuron);
-        neuronErrors.push_back(0);
-    } else {
-        neuronReservations[nnid] = true;
-        neurons[nnid] = nNeuron;
-        neuronErrors[nnid] = 0;
-    }
+    META_LOCK_GUARD()
 
-    return nnid;
+    return AddNeuron(nNeuron, neuronSimulators[neuron]);
 }
 
 MICROSOFT_QUANTUM_DECL void destroy_qneuron(_In_ uintq nid)
 {
-    META_LOCK_GUARD()
-
-    if (nid >= neurons.size()) {
-        std::cout << "Invalid argument: neuron ID not found!" << std::endl;
-        metaError = 2;
-
+    // (Wait for any operation on the neuron to end.)
+    QNeuronPtr neuron;
+    SharedLock neuronLock;
+    if (!LockItem(nid, "neuron", neurons, neuronMutexes, neuron, neuronLock)) {
         return;
     }
 
-    neuronMutexes.erase(neurons[nid].get());
+    META_LOCK_GUARD()
+
+    neuronSimulators.erase(neuron);
+    neuronMutexes.erase(neuron.get());
     neurons[nid] = nullptr;
     neuronErrors[nid] = 0;
     neuronReservations[nid] = false;
@@ -3729,61 +3536,19 @@ MICROSOFT_QUANTUM_DECL void qneuron_learn_permutation(_In_ uintq nid, _In_ doubl
 MICROSOFT_QUANTUM_DECL uintq init_qcircuit(_In_ bool collapse, _In_ bool clifford)
 {
     META_LOCK_GUARD()
-    uintq cid = (uintq)circuits.size();
-    for (uintq i = 0U; i < circuits.size(); ++i) {
-        if (circuitReservations[i] == false) {
-            cid = i;
-            circuitReservations[i] = true;
-            break;
-        }
-    }
-    QCircuitPtr circuit = std::make_shared<QCircuit>(collapse, clifford);
-    if (cid == circuits.size()) {
-        circuitReservations.push_back(true);
-        circuits.push_back(circuit);
-    } else {
-        circuitReservations[cid] = true;
-        circuits[cid] = circuit;
-    }
-    return cid;
+
+    return AddCircuit(std::make_shared<QCircuit>(collapse, clifford));
 }
 
 uintq _init_qcircuit_copy(uintq cid, bool isInverse, std::set<bitLenInt> q)
 {
-    META_LOCK_GUARD()
-
-    if (cid >= circuits.size()) {
-        std::cout << "Invalid argument: circuit ID not found!" << std::endl;
-        metaError = 2;
-
-        return 0U;
-    }
-
-    QCircuitPtr circuit = circuits[cid];
-    std::unique_ptr<const std::lock_guard<std::mutex>> circuitLock(
-        new const std::lock_guard<std::mutex>(circuitMutexes[circuit.get()]));
-
-    uintq ncid = (uintq)circuits.size();
-
-    for (uintq i = 0U; i < circuits.size(); ++i) {
-        if (circuitReservations[i] == false) {
-            ncid = i;
-            circuitReservations[i] = true;
-            break;
-        }
-    }
+    CIRCUIT_LOCK_GUARD_INT(cid)
 
     QCircuitPtr nCircuit = isInverse ? circuit->Inverse() : (q.empty() ? circuit->Clone() : circuit->PastLightCone(q));
 
-    if (ncid == circuits.size()) {
-        circuitReservations.push_back(true);
-        circuits.push_back(nCircuit);
-    } else {
-        circuitReservations[ncid] = true;
-        circuits[ncid] = nCircuit;
-    }
+    META_LOCK_GUARD()
 
-    return ncid;
+    return AddCircuit(nCircuit);
 }
 
 MICROSOFT_QUANTUM_DECL uintq init_qcircuit_clone(_In_ uintq cid) { return _init_qcircuit_copy(cid, false, {}); }
@@ -3801,16 +3566,13 @@ MICROSOFT_QUANTUM_DECL uintq qcircuit_past_light_cone(_In_ uintq cid, _In_ uintq
 
 MICROSOFT_QUANTUM_DECL void destroy_qcircuit(_In_ uintq cid)
 {
-    META_LOCK_GUARD()
-
-    if (cid >= circuits.size()) {
-        std::cout << "Invalid argument: circuit ID not found!" << std::endl;
-        metaError = 2;
+    // (Wait for any operation on the circuit to end.)
+    CIRCUIT_LOCK_GUARD_VOID(cid)
 
-        return;
-    }
+    META_LOCK_GUARD()
 
-    circuitMutexes.erase(circuits[cid].get());
+    circuitStrings.erase(circuit.get());
+    circuitMutexes.erase(circuit.get());
     circuits[cid] = nullptr;
     circuitReservations[cid] = false;
 }
@@ -3886,6 +3648,7 @@ MICROSOFT_QUANTUM_DECL size_t qcircuit_out_to_string_length(_In_ uintq cid)
     std::stringstream ss;
     ss.precision(36);
     ss << circuit;
+    META_LOCK_GUARD()
     circuitStrings[circuit.get()] = ss.str();
     return circuitStrings[circuit.get()].size() + 1U;
 }
@@ -3893,6 +3656,7 @@ MICROSOFT_QUANTUM_DECL size_t qcircuit_out_to_string_length(_In_ uintq cid)
 MICROSOFT_QUANTUM_DECL void qcircuit_out_to_string(_In_ uintq cid, _In_ char* f)
 {
     CIRCUIT_LOCK_GUARD_VOID(cid)
+    META_LOCK_GUARD()
     const std::string& s = circuitStrings[circuit.get()];
     const char* cs = s.c_str();
     std::copy(cs, cs + s.size() + 1U, f);
-- 
2.43.0


From cee8c9df80741747210677f3a17f9dba8349e623 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:04 +0000
Subject: [PATCH 091/106] fix: QNeuron assignment resizes the angles of its
 target

---
 include/qneuron.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/qneuron.hpp b/include/qneuron.hpp
index 02cde40..0284caf 100644
--- a/include/qneuron.hpp
+++ b/include/qneuron.hpp
@@ -104,8 +104,14 @@ public:
 
     QNeuron& operator=(const QNeuron& toCopy)
     {
+        if (this == &toCopy) {
+            return *this;
+        }
+
         qReg = toCopy.qReg;
         inputIndices = toCopy.inputIndices;
+        inputPower = toCopy.inputPower;
+        angles = std::unique_ptr<real1[]>(new real1[inputPower]);
         std::copy(toCopy.angles.get(), toCopy.angles.get() + toCopy.inputPower, angles.get());
         outputIndex = toCopy.outputIndex;
         activationFn = toCopy.activationFn;
-- 
2.43.0


From 8fae8e7aee3afca0190df5bc2db0acc323887c83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:04 +0000
Subject: [PATCH 092/106] fix: QNeuron::LearnPermutation compares with the
 prediction after its measurement

---
 include/qneuron.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/qneuron.hpp b/include/qneuron.hpp
index 0284caf..4d89bf2 100644
--- a/include/qneuron.hpp
+++ b/include/qneuron.hpp
@@ -318,6 +318,12 @@ public:
             }
         }
 
+        // The measurement can change the prediction.
+        startProb = LearnCycle(expected);
+        if ((ONE_R1 - startProb) <= tolerance) {
+            return;
+        }
+
         LearnInternal(expected, eta, perm, startProb);
     }
 
-- 
2.43.0


From 6ec2c2af6475803cee1e97528ceef91142858f7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:49 +0000
Subject: [PATCH 093/106] fix: QNeuron training doesn't wrap angles around if
 the activation function isn't periodic

---
 include/qneuron.hpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/qneuron.hpp b/include/qneuron.hpp
index 4d89bf2..bbdf3fa 100644
--- a/include/qneuron.hpp
+++ b/include/qneuron.hpp
@@ -337,7 +337,10 @@ protected:
         angle += eta * PI_R1;
         const real1_f plusProb = LearnCycle(expected);
         if ((ONE_R1_F - plusProb) <= tolerance) {
-            angle = clampAngle(angle);
+            if (activationFn == Sigmoid) {
+                // (Other activation functions aren't periodic.)
+                angle = clampAngle(angle);
+            }
             return -ONE_R1_F;
         }
 
@@ -346,7 +349,10 @@ protected:
         angle = origAngle - eta * PI_R1;
         const real1_f minusProb = LearnCycle(expected);
         if ((ONE_R1_F - minusProb) <= tolerance) {
-            angle = clampAngle(angle);
+            if (activationFn == Sigmoid) {
+                // (Other activation functions aren't periodic.)
+                angle = clampAngle(angle);
+            }
             return -ONE_R1_F;
         }
 
-- 
2.43.0


From b0e35b277452e1a9a7d0d2df7c0e1b8619d0134d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:47 +0000
Subject: [PATCH 094/106] fix: 2x2 exponentials and logarithms of nearly
 diagonal or nearly degenerate matrices are accurate

---
 src/common/functions.cpp | 112 +++++++++++++++++----------------------
 1 file changed, 48 insertions(+), 64 deletions(-)

diff --git a/src/common/functions.cpp b/src/common/functions.cpp
index 83f4c00..12a49ae 100644
--- a/src/common/functions.cpp
+++ b/src/common/functions.cpp
@@ -121,81 +121,65 @@ void mul2x2(const complex* left, const complex* right, complex* out)
 
 void _expLog2x2(const complex* matrix2x2, complex* outMatrix2x2, bool isExp)
 {
-    // Solve for the eigenvalues and eigenvectors of a 2x2 matrix, diagonalize, exponentiate, return to the original
-    // basis, and apply.
-
-    // Diagonal matrices are a special case.
-    const bool isDiag = IS_NORM_0(matrix2x2[1U]) && IS_NORM_0(matrix2x2[2U]);
-
-    complex jacobian[4U];
-    complex inverseJacobian[4U];
-    complex tempMatrix2x2[4U];
-
-    // Diagonalize the matrix, if it is not already diagonal. Otherwise, copy it into the temporary matrix.
-    if (!isDiag) {
-        complex trace = matrix2x2[0U] + matrix2x2[3U];
-        complex determinant = (matrix2x2[0U] * matrix2x2[3U]) - (matrix2x2[1U] * matrix2x2[2U]);
-        complex quadraticRoot = trace * trace - ((real1)4.0f) * determinant;
-        std::complex<real1_f> qrtf((real1_f)real(quadraticRoot), (real1_f)imag(quadraticRoot));
-        qrtf = sqrt(qrtf);
-        quadraticRoot = complex((real1)real(qrtf), (real1)imag(qrtf));
-        complex eigenvalue1 = (trace + quadraticRoot) / (real1)2.0f;
-        complex eigenvalue2 = (trace - quadraticRoot) / (real1)2.0f;
-
-        jacobian[0U] = matrix2x2[0U] - eigenvalue1;
-        jacobian[2U] = matrix2x2[2U];
-
-        jacobian[1U] = matrix2x2[1U];
-        jacobian[3U] = matrix2x2[3U] - eigenvalue2;
-
-        // By Cayley-Hamilton, a column of (A - eigenvalue1) is an eigenvector of eigenvalue2, and vice versa.
-        outMatrix2x2[0U] = eigenvalue2;
+    // Any 2x2 matrix is a multiple of the identity, "mean," plus a traceless matrix B with B * B = (root * root) * I, so
+    // any function of it is f(mean + root) and f(mean - root) on the eigenspaces: the average of these two values times
+    // the identity, plus their divided difference times B. (This stays accurate when the eigenvalues are close to each
+    // other, or when the matrix is almost diagonal.)
+    typedef std::complex<real1_f> complex_f;
+
+    const complex_f m0((real1_f)real(matrix2x2[0U]), (real1_f)imag(matrix2x2[0U]));
+    const complex_f m1((real1_f)real(matrix2x2[1U]), (real1_f)imag(matrix2x2[1U]));
+    const complex_f m2((real1_f)real(matrix2x2[2U]), (real1_f)imag(matrix2x2[2U]));
+    const complex_f m3((real1_f)real(matrix2x2[3U]), (real1_f)imag(matrix2x2[3U]));
+
+    const complex_f mean = (m0 + m3) / (real1_f)2;
+    const complex_f diff = (m0 - m3) / (real1_f)2;
+    const complex_f root2 = diff * diff + m1 * m2;
+    const complex_f root = std::sqrt(root2);
+
+    complex_f average, slope;
+    if ((m1 == complex_f()) && (m2 == complex_f())) {
+        // Diagonal matrices are a special case.
+        const complex_f f0 = isExp ? std::exp(m0) : std::log(m0);
+        const complex_f f3 = isExp ? std::exp(m3) : std::log(m3);
+        outMatrix2x2[0U] = complex((real1)real(f0), (real1)imag(f0));
         outMatrix2x2[1U] = ZERO_CMPLX;
         outMatrix2x2[2U] = ZERO_CMPLX;
-        outMatrix2x2[3U] = eigenvalue1;
+        outMatrix2x2[3U] = complex((real1)real(f3), (real1)imag(f3));
 
-        real1 nrm = (real1)std::sqrt((real1_s)(norm(jacobian[0U]) + norm(jacobian[2U])));
-        jacobian[0U] /= nrm;
-        jacobian[2U] /= nrm;
-
-        nrm = (real1)std::sqrt((real1_s)(norm(jacobian[1U]) + norm(jacobian[3U])));
-        jacobian[1U] /= nrm;
-        jacobian[3U] /= nrm;
-
-        determinant = (jacobian[0U] * jacobian[3U]) - (jacobian[1U] * jacobian[2U]);
-        inverseJacobian[0U] = jacobian[3U] / determinant;
-        inverseJacobian[1U] = -jacobian[1U] / determinant;
-        inverseJacobian[2U] = -jacobian[2U] / determinant;
-        inverseJacobian[3U] = jacobian[0U] / determinant;
-    } else {
-        outMatrix2x2[0U] = matrix2x2[0U];
-        outMatrix2x2[1U] = ZERO_CMPLX;
-        outMatrix2x2[2U] = ZERO_CMPLX;
-        outMatrix2x2[3U] = matrix2x2[3U];
+        return;
     }
 
     if (isExp) {
         // In this branch, we calculate e^(matrix2x2).
-
-        // Note: For a (2x2) hermitian input gate, this theoretically produces a unitary output transformation.
-        outMatrix2x2[0U] = ((real1)std::exp((real1_s)real(outMatrix2x2[0U]))) *
-            complex((real1)cos(imag(outMatrix2x2[0U])), (real1)sin(imag(outMatrix2x2[0U])));
-        outMatrix2x2[1U] = ZERO_CMPLX;
-        outMatrix2x2[2U] = ZERO_CMPLX;
-        outMatrix2x2[3U] = ((real1)std::exp((real1_s)real(outMatrix2x2[3U]))) *
-            complex((real1)cos(imag(outMatrix2x2[3U])), (real1)sin(imag(outMatrix2x2[3U])));
+        // Note: For a (2x2) anti-hermitian input gate, this theoretically produces a unitary output transformation.
+        const complex_f scale = std::exp(mean);
+        average = scale * std::cosh(root);
+        slope = scale *
+            ((std::abs(root) < (real1_f)0.01) ? (complex_f((real1_f)1) + root2 / (real1_f)6) : (std::sinh(root) / root));
     } else {
         // In this branch, we calculate log(matrix2x2).
-        outMatrix2x2[0U] = complex((real1)std::log((real1_s)abs(outMatrix2x2[0U])), (real1)arg(outMatrix2x2[0U]));
-        outMatrix2x2[1U] = ZERO_CMPLX;
-        outMatrix2x2[2U] = ZERO_CMPLX;
-        outMatrix2x2[3U] = complex((real1)std::log((real1_s)abs(outMatrix2x2[3U])), (real1)arg(outMatrix2x2[3U]));
+        if (std::abs(root) < ((real1_f)0.01 * std::abs(mean))) {
+            const complex_f ratio2 = root2 / (mean * mean);
+            average = std::log(mean) - ratio2 / (real1_f)2;
+            slope = (complex_f((real1_f)1) + ratio2 / (real1_f)3) / mean;
+        } else {
+            const complex_f log1 = std::log(mean + root);
+            const complex_f log2 = std::log(mean - root);
+            average = (log1 + log2) / (real1_f)2;
+            slope = (log1 - log2) / ((real1_f)2 * root);
+        }
     }
 
-    if (!isDiag) {
-        mul2x2(outMatrix2x2, inverseJacobian, tempMatrix2x2);
-        mul2x2(jacobian, tempMatrix2x2, outMatrix2x2);
-    }
+    const complex_f o0 = average + slope * diff;
+    const complex_f o1 = slope * m1;
+    const complex_f o2 = slope * m2;
+    const complex_f o3 = average - slope * diff;
+
+    outMatrix2x2[0U] = complex((real1)real(o0), (real1)imag(o0));
+    outMatrix2x2[1U] = complex((real1)real(o1), (real1)imag(o1));
+    outMatrix2x2[2U] = complex((real1)real(o2), (real1)imag(o2));
+    outMatrix2x2[3U] = complex((real1)real(o3), (real1)imag(o3));
 }
 
 void exp2x2(const complex* matrix2x2, complex* outMatrix2x2) { _expLog2x2(matrix2x2, outMatrix2x2, true); }
-- 
2.43.0


From b1ed7a3765d50b8da7eb3f66229a91ab0d04695c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:04 +0000
Subject: [PATCH 095/106] fix: C API TimeEvolve takes qubit IDs, like every
 other function

---
 src/pinvoke_api.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/pinvoke_api.cpp b/src/pinvoke_api.cpp
index b9cbe17..4419543 100644
--- a/src/pinvoke_api.cpp
+++ b/src/pinvoke_api.cpp
@@ -3352,6 +3352,14 @@ MICROSOFT_QUANTUM_DECL void TimeEvolve(_In_ uintq sid, _In_ double t, _In_ uintq
 
     SIMULATOR_LOCK_GUARD_VOID(sid)
 
+    // The headers name qubits by their IDs.
+    for (uintq i = 0U; i < n; ++i) {
+        h[i]->targetBit = GetSimShardId(simulator, teos[i].target);
+        for (unsigned j = 0U; j < teos[i].controlLen; ++j) {
+            h[i]->controls[j] = GetSimShardId(simulator, teos[i].controls[j]);
+        }
+    }
+
     try {
         simulator->TimeEvolve(h, (real1_f)t);
     } catch (const std::exception& ex) {
-- 
2.43.0


From 5c5ccce6fea2fae88780fc4d91edb86fb0318722 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:06 +0000
Subject: [PATCH 096/106] fix: QEngine samples are reproducible from the random
 seed

---
 src/qengine/qengine.cpp | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/src/qengine/qengine.cpp b/src/qengine/qengine.cpp
index c50944f..6d1ebaa 100644
--- a/src/qengine/qengine.cpp
+++ b/src/qengine/qengine.cpp
@@ -540,6 +540,16 @@ std::map<bitCapInt, int> QEngine::MultiShotMeasureMask(const std::vector<bitCapI
     ProbBitsAll(bitMap, &(maskProbsVec[0]));
     std::discrete_distribution<bitCapIntOcl> dist(maskProbsVec.begin(), maskProbsVec.end());
 
+    if (!hardware_rand_generator) {
+        // Samples are reproducible from the seed of the pseudorandom generator.
+        std::map<bitCapInt, int> results;
+        for (unsigned shot = 0U; shot < shots; ++shot) {
+            ++(results[dist(*rand_generator)]);
+        }
+
+        return results;
+    }
+
     std::random_device rd;
     std::vector<std::mt19937> genVec;
     const unsigned numThreads = GetConcurrencyLevel();
@@ -580,6 +590,15 @@ void QEngine::MultiShotMeasureMask(
     ProbBitsAll(bitMap, &(maskProbsVec[0]));
     std::discrete_distribution<bitCapIntOcl> dist(maskProbsVec.begin(), maskProbsVec.end());
 
+    if (!hardware_rand_generator) {
+        // Samples are reproducible from the seed of the pseudorandom generator.
+        for (unsigned shot = 0U; shot < shots; ++shot) {
+            shotsArray[shot] = (unsigned)dist(*rand_generator);
+        }
+
+        return;
+    }
+
     std::random_device rd;
     std::vector<std::mt19937> genVec;
     const unsigned numThreads = GetConcurrencyLevel();
-- 
2.43.0


From 52dcb040cbbb90694b691c563bfeb2b46df261d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:06 +0000
Subject: [PATCH 097/106] fix: QUnit and QUnitClifford sample their units in
 qubit order, for reproducibility

---
 src/qunit.cpp         | 13 +++++++++----
 src/qunitclifford.cpp | 13 +++++++++----
 2 files changed, 18 insertions(+), 8 deletions(-)

diff --git a/src/qunit.cpp b/src/qunit.cpp
index 82891d1..befa82c 100644
--- a/src/qunit.cpp
+++ b/src/qunit.cpp
@@ -1550,6 +1550,8 @@ std::map<bitCapInt, int> QUnit::MultiShotMeasureMask(const std::vector<bitCapInt
     ThrowIfQbIdArrayIsBad(qIndices, qubitCount,
         "QInterface::MultiShotMeasureMask parameter qPowers array values must be within allocated qubit bounds!");
 
+    // (Sample the units in qubit order, so that results are reproducible from the random seed.)
+    std::vector<QInterfacePtr> subUnits;
     std::map<QInterfacePtr, std::vector<bitCapInt>> subQPowers;
     std::map<QInterfacePtr, std::vector<bitCapInt>> subIQPowers;
     std::vector<bitLenInt> singleBits;
@@ -1563,6 +1565,9 @@ std::map<bitCapInt, int> QUnit::MultiShotMeasureMask(const std::vector<bitCapInt
             continue;
         }
 
+        if (subQPowers.find(shard.unit) == subQPowers.end()) {
+            subUnits.push_back(shard.unit);
+        }
         subQPowers[shard.unit].push_back(pow2(shard.mapped));
         subIQPowers[shard.unit].push_back(iQPowers[index]);
     }
@@ -1570,13 +1575,13 @@ std::map<bitCapInt, int> QUnit::MultiShotMeasureMask(const std::vector<bitCapInt
     std::map<bitCapInt, int> combinedResults;
     combinedResults[ZERO_BCI] = (int)shots;
 
-    for (const auto& subQPower : subQPowers) {
-        QInterfacePtr unit = subQPower.first;
-        std::map<bitCapInt, int> unitResults = unit->MultiShotMeasureMask(subQPower.second, shots);
+    for (const QInterfacePtr& unit : subUnits) {
+        const std::vector<bitCapInt>& subPowers = subQPowers[unit];
+        std::map<bitCapInt, int> unitResults = unit->MultiShotMeasureMask(subPowers, shots);
         std::map<bitCapInt, int> topLevelResults;
         for (const auto& unitResult : unitResults) {
             bitCapInt mask = ZERO_BCI;
-            for (size_t i = 0U; i < subQPower.second.size(); ++i) {
+            for (size_t i = 0U; i < subPowers.size(); ++i) {
                 if (bi_and_1(unitResult.first >> i)) {
                     bi_or_ip(&mask, subIQPowers[unit][i]);
                 }
diff --git a/src/qunitclifford.cpp b/src/qunitclifford.cpp
index b95d8c3..572547a 100644
--- a/src/qunitclifford.cpp
+++ b/src/qunitclifford.cpp
@@ -609,6 +609,8 @@ std::map<bitCapInt, int> QUnitClifford::MultiShotMeasureMask(const std::vector<b
     ThrowIfQbIdArrayIsBad(qIndices, qubitCount,
         "QUnitClifford::MultiShotMeasureMask parameter qPowers array values must be within allocated qubit bounds!");
 
+    // (Sample the units in qubit order, so that results are reproducible from the random seed.)
+    std::vector<QStabilizerPtr> subUnits;
     std::map<QStabilizerPtr, std::vector<bitCapInt>> subQPowers;
     std::map<QStabilizerPtr, std::vector<bitCapInt>> subIQPowers;
 
@@ -616,6 +618,9 @@ std::map<bitCapInt, int> QUnitClifford::MultiShotMeasureMask(const std::vector<b
         index = qIndices[i];
         CliffordShard& shard = shards[index];
 
+        if (subQPowers.find(shard.unit) == subQPowers.end()) {
+            subUnits.push_back(shard.unit);
+        }
         subQPowers[shard.unit].push_back(pow2(shard.mapped));
         subIQPowers[shard.unit].push_back(pow2(i));
     }
@@ -623,13 +628,13 @@ std::map<bitCapInt, int> QUnitClifford::MultiShotMeasureMask(const std::vector<b
     std::map<bitCapInt, int> combinedResults;
     combinedResults[ZERO_BCI] = (int)shots;
 
-    for (const auto& subQPower : subQPowers) {
-        QStabilizerPtr unit = subQPower.first;
-        std::map<bitCapInt, int> unitResults = unit->MultiShotMeasureMask(subQPower.second, shots);
+    for (const QStabilizerPtr& unit : subUnits) {
+        const std::vector<bitCapInt>& subPowers = subQPowers[unit];
+        std::map<bitCapInt, int> unitResults = unit->MultiShotMeasureMask(subPowers, shots);
         std::map<bitCapInt, int> topLevelResults;
         for (const auto& unitResult : unitResults) {
             bitCapInt mask = ZERO_BCI;
-            for (size_t i = 0U; i < subQPower.second.size(); ++i) {
+            for (size_t i = 0U; i < subPowers.size(); ++i) {
                 if (bi_and_1(unitResult.first >> i)) {
                     bi_or_ip(&mask, subIQPowers[unit][i]);
                 }
-- 
2.43.0


From 3cb25f2d1c2f0e5f1ed2936e7e6fba284e47bb27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:06 +0000
Subject: [PATCH 098/106] fix: generic methods check their qubit, control and
 register arguments before they change the state

---
 include/common/qrack_functions.hpp |  13 ++++
 include/qinterface.hpp             |  19 ++++-
 include/qinterface_noisy.hpp       |  12 ++--
 src/qinterface/arithmetic.cpp      |  11 +++
 src/qinterface/gates.cpp           | 107 ++++++++++++++++++++++++++++-
 src/qinterface/qinterface.cpp      |  60 ++++++++++++++++
 6 files changed, 214 insertions(+), 8 deletions(-)

diff --git a/include/common/qrack_functions.hpp b/include/common/qrack_functions.hpp
index 72218a7..08550f3 100644
--- a/include/common/qrack_functions.hpp
+++ b/include/common/qrack_functions.hpp
@@ -189,6 +189,19 @@ inline bool isBadPermRange(const bitCapIntOcl& start, const bitCapIntOcl& length
 {
     return ((start + length) > maxQPowerOcl) || ((bitCapIntOcl)(start + length) < start);
 }
+inline void ThrowIfQbIdIsBad(const bitLenInt& qubit, const bitLenInt& qubitCount, const char* message)
+{
+    if (qubit >= qubitCount) {
+        throw std::invalid_argument(message);
+    }
+}
+inline void ThrowIfBadBitRange(
+    const bitLenInt& start, const bitLenInt& length, const bitLenInt& qubitCount, const char* message)
+{
+    if (isBadBitRange(start, length, qubitCount)) {
+        throw std::invalid_argument(message);
+    }
+}
 inline void ThrowIfQbIdArrayIsBad(
     const std::vector<bitLenInt>& controls, const bitLenInt& qubitCount, std::string message)
 {
diff --git a/include/qinterface.hpp b/include/qinterface.hpp
index e903062..0cc4e4e 100644
--- a/include/qinterface.hpp
+++ b/include/qinterface.hpp
@@ -178,13 +178,22 @@ protected:
 
     template <typename Fn> void MACWrapper(const std::vector<bitLenInt>& controls, Fn fn)
     {
+        ThrowIfQbIdArrayIsBad(
+            controls, qubitCount, "QInterface anti-control indices must be unique and within allocated qubit bounds!");
+
         bitCapInt xMask = ZERO_BCI;
         for (const bitLenInt& control : controls) {
             bi_or_ip(&xMask, pow2(control));
         }
 
         XMask(xMask);
-        fn(controls);
+        try {
+            fn(controls);
+        } catch (...) {
+            // Restore the state that was there before the rejected gate.
+            XMask(xMask);
+            throw;
+        }
         XMask(xMask);
     }
 
@@ -2152,6 +2161,8 @@ public:
     /** Subtract classical integer (without sign) */
     virtual void DEC(const bitCapInt& toSub, bitLenInt start, bitLenInt length)
     {
+        ThrowIfBadBitRange(start, length, qubitCount, "QInterface::DEC range is out-of-bounds!");
+
         const bitCapInt invToSub = pow2(length) - toSub;
         INC(invToSub, start, length);
     }
@@ -2481,6 +2492,9 @@ public:
      */
     virtual real1_f CProb(bitLenInt control, bitLenInt target)
     {
+        ThrowIfQbIdIsBad(control, qubitCount, "QInterface::CProb control index is out-of-bounds!");
+        ThrowIfQbIdIsBad(target, qubitCount, "QInterface::CProb target index is out-of-bounds!");
+
         const real1_f controlProb = Prob(control);
         if (controlProb <= FP_NORM_EPSILON) {
             return ZERO_R1_F;
@@ -2499,6 +2513,9 @@ public:
      */
     virtual real1_f ACProb(bitLenInt control, bitLenInt target)
     {
+        ThrowIfQbIdIsBad(control, qubitCount, "QInterface::ACProb control index is out-of-bounds!");
+        ThrowIfQbIdIsBad(target, qubitCount, "QInterface::ACProb target index is out-of-bounds!");
+
         const real1_f controlProb = ONE_R1_F - Prob(control);
         if (controlProb <= FP_NORM_EPSILON) {
             return ZERO_R1_F;
diff --git a/include/qinterface_noisy.hpp b/include/qinterface_noisy.hpp
index f369298..3faea2e 100644
--- a/include/qinterface_noisy.hpp
+++ b/include/qinterface_noisy.hpp
@@ -110,20 +110,23 @@ public:
 
     bitLenInt Allocate(bitLenInt start, bitLenInt length)
     {
+        const bitLenInt toRet = engine->Allocate(start, length);
         SetQubitCount(qubitCount + length);
-        return engine->Allocate(start, length);
+        return toRet;
     }
     using QInterface::Compose;
     bitLenInt Compose(QInterfaceNoisyPtr toCopy)
     {
+        const bitLenInt toRet = engine->Compose(toCopy->engine);
         SetQubitCount(qubitCount + toCopy->qubitCount);
-        return engine->Compose(toCopy->engine);
+        return toRet;
     }
     bitLenInt Compose(QInterfacePtr toCopy) { return Compose(std::dynamic_pointer_cast<QInterfaceNoisy>(toCopy)); }
     bitLenInt Compose(QInterfaceNoisyPtr toCopy, bitLenInt start)
     {
+        const bitLenInt toRet = engine->Compose(toCopy->engine, start);
         SetQubitCount(qubitCount + toCopy->qubitCount);
-        return engine->Compose(toCopy->engine, start);
+        return toRet;
     }
     bitLenInt Compose(QInterfacePtr toCopy, bitLenInt start)
     {
@@ -131,8 +134,9 @@ public:
     }
     bitLenInt ComposeNoClone(QInterfaceNoisyPtr toCopy)
     {
+        const bitLenInt toRet = engine->ComposeNoClone(toCopy->engine);
         SetQubitCount(qubitCount + toCopy->qubitCount);
-        return engine->ComposeNoClone(toCopy->engine);
+        return toRet;
     }
     bitLenInt ComposeNoClone(QInterfacePtr toCopy)
     {
diff --git a/src/qinterface/arithmetic.cpp b/src/qinterface/arithmetic.cpp
index 0aba593..41f793c 100644
--- a/src/qinterface/arithmetic.cpp
+++ b/src/qinterface/arithmetic.cpp
@@ -19,6 +19,8 @@ namespace Qrack {
 /** Add integer (without sign) */
 void QInterface::INC(const bitCapInt& toAdd, bitLenInt start, bitLenInt length)
 {
+    ThrowIfBadBitRange(start, length, qubitCount, "QInterface::INC range is out-of-bounds!");
+
     if (!length) {
         return;
     }
@@ -52,6 +54,9 @@ void QInterface::INC(const bitCapInt& toAdd, bitLenInt start, bitLenInt length)
 
 void QInterface::INCDECC(const bitCapInt& toAdd, bitLenInt start, bitLenInt length, bitLenInt carryIndex)
 {
+    ThrowIfBadBitRange(start, length, qubitCount, "QInterface::INCDECC range is out-of-bounds!");
+    ThrowIfQbIdIsBad(carryIndex, qubitCount, "QInterface::INCDECC carryIndex is out-of-bounds!");
+
     if (!length) {
         return;
     }
@@ -79,6 +84,9 @@ void QInterface::INCDECC(const bitCapInt& toAdd, bitLenInt start, bitLenInt leng
  * overflow qubit is set.) */
 void QInterface::INCS(const bitCapInt& toAdd, bitLenInt start, bitLenInt length, bitLenInt overflowIndex)
 {
+    ThrowIfBadBitRange(start, length, qubitCount, "QInterface::INCS range is out-of-bounds!");
+    ThrowIfQbIdIsBad(overflowIndex, qubitCount, "QInterface::INCS overflowIndex is out-of-bounds!");
+
     if (!length) {
         return;
     }
@@ -119,6 +127,9 @@ void QInterface::INCS(const bitCapInt& toAdd, bitLenInt start, bitLenInt length,
 /** Add integer (without sign, with controls) */
 void QInterface::CINC(const bitCapInt& toAdd, bitLenInt start, bitLenInt length, const std::vector<bitLenInt>& controls)
 {
+    ThrowIfBadBitRange(start, length, qubitCount, "QInterface::CINC range is out-of-bounds!");
+    ThrowIfQbIdArrayIsBad(controls, qubitCount, "QInterface::CINC control is out-of-bounds!");
+
     if (!controls.size()) {
         return INC(toAdd, start, length);
     }
diff --git a/src/qinterface/gates.cpp b/src/qinterface/gates.cpp
index a851251..f664df2 100644
--- a/src/qinterface/gates.cpp
+++ b/src/qinterface/gates.cpp
@@ -12,6 +12,8 @@
 
 #include "qinterface.hpp"
 
+#include <algorithm>
+
 namespace Qrack {
 
 QRACK_CONST complex C_SQRT1_2 = complex(SQRT1_2_R1, ZERO_R1);
@@ -23,6 +25,12 @@ QRACK_CONST complex C_SQRT1_2_NEG = complex(-SQRT1_2_R1, ZERO_R1);
 void QInterface::UCMtrx(
     const std::vector<bitLenInt>& controls, const complex* mtrx, bitLenInt target, const bitCapInt& controlPerm)
 {
+    ThrowIfQbIdArrayIsBad(controls, qubitCount, "QInterface::UCMtrx control is out-of-bounds!");
+    ThrowIfQbIdIsBad(target, qubitCount, "QInterface::UCMtrx target is out-of-bounds!");
+    if (std::find(controls.begin(), controls.end(), target) != controls.end()) {
+        throw std::invalid_argument("QInterface::UCMtrx target is also a control!");
+    }
+
     size_t setCount = 0U;
     for (size_t i = 0U; i < controls.size(); ++i) {
         if (bi_and_1(controlPerm >> i)) {
@@ -62,6 +70,14 @@ void QInterface::UCMtrx(
 void QInterface::UniformlyControlledSingleBit(const std::vector<bitLenInt>& controls, bitLenInt qubitIndex,
     const complex* mtrxs, const std::vector<bitCapInt>& mtrxSkipPowers, const bitCapInt& mtrxSkipValueMask)
 {
+    ThrowIfQbIdArrayIsBad(
+        controls, qubitCount, "QInterface::UniformlyControlledSingleBit control is out-of-bounds!");
+    ThrowIfQbIdIsBad(
+        qubitIndex, qubitCount, "QInterface::UniformlyControlledSingleBit qubitIndex is out-of-bounds!");
+    if (std::find(controls.begin(), controls.end(), qubitIndex) != controls.end()) {
+        throw std::invalid_argument("QInterface::UniformlyControlledSingleBit target is also a control!");
+    }
+
     for (const bitLenInt& control : controls) {
         X(control);
     }
@@ -83,6 +99,8 @@ void QInterface::UniformlyControlledSingleBit(const std::vector<bitLenInt>& cont
 
 void QInterface::ZeroPhaseFlip(bitLenInt start, bitLenInt length)
 {
+    ThrowIfBadBitRange(start, length, qubitCount, "QInterface::ZeroPhaseFlip range is out-of-bounds!");
+
     if (!length) {
         return;
     }
@@ -100,6 +118,10 @@ void QInterface::ZeroPhaseFlip(bitLenInt start, bitLenInt length)
 
 void QInterface::XMask(const bitCapInt& _mask)
 {
+    if (bi_compare(_mask, maxQPower) >= 0) {
+        throw std::invalid_argument("QInterface::XMask mask out-of-bounds!");
+    }
+
     bitCapInt mask = _mask;
     bitCapInt v = mask;
     while (bi_compare_0(mask) != 0) {
@@ -111,6 +133,10 @@ void QInterface::XMask(const bitCapInt& _mask)
 
 void QInterface::YMask(const bitCapInt& _mask)
 {
+    if (bi_compare(_mask, maxQPower) >= 0) {
+        throw std::invalid_argument("QInterface::YMask mask out-of-bounds!");
+    }
+
     bitLenInt bit = log2(_mask);
 
     if (bi_compare(pow2(bit), _mask) == 0) {
@@ -143,6 +169,10 @@ void QInterface::YMask(const bitCapInt& _mask)
 
 void QInterface::ZMask(const bitCapInt& _mask)
 {
+    if (bi_compare(_mask, maxQPower) >= 0) {
+        throw std::invalid_argument("QInterface::ZMask mask out-of-bounds!");
+    }
+
     bitCapInt mask = _mask;
     bitCapInt v = mask;
     while (bi_compare_0(mask) != 0) {
@@ -154,6 +184,10 @@ void QInterface::ZMask(const bitCapInt& _mask)
 
 void QInterface::PhaseRootNMask(bitLenInt n, const bitCapInt& _mask)
 {
+    if (bi_compare(_mask, maxQPower) >= 0) {
+        throw std::invalid_argument("QInterface::PhaseRootNMask mask out-of-bounds!");
+    }
+
     bitCapInt mask = _mask;
     bitCapInt v = mask;
     while (bi_compare_0(mask) != 0) {
@@ -165,6 +199,9 @@ void QInterface::PhaseRootNMask(bitLenInt n, const bitCapInt& _mask)
 
 void QInterface::Swap(bitLenInt q1, bitLenInt q2)
 {
+    ThrowIfQbIdIsBad(q1, qubitCount, "QInterface::Swap qubit index must be within allocated qubit bounds!");
+    ThrowIfQbIdIsBad(q2, qubitCount, "QInterface::Swap qubit index must be within allocated qubit bounds!");
+
     if (q1 == q2) {
         return;
     }
@@ -176,6 +213,9 @@ void QInterface::Swap(bitLenInt q1, bitLenInt q2)
 
 void QInterface::ISwap(bitLenInt q1, bitLenInt q2)
 {
+    ThrowIfQbIdIsBad(q1, qubitCount, "QInterface::ISwap qubit index must be within allocated qubit bounds!");
+    ThrowIfQbIdIsBad(q2, qubitCount, "QInterface::ISwap qubit index must be within allocated qubit bounds!");
+
     if (q1 == q2) {
         return;
     }
@@ -188,6 +228,9 @@ void QInterface::ISwap(bitLenInt q1, bitLenInt q2)
 
 void QInterface::IISwap(bitLenInt q1, bitLenInt q2)
 {
+    ThrowIfQbIdIsBad(q1, qubitCount, "QInterface::IISwap qubit index must be within allocated qubit bounds!");
+    ThrowIfQbIdIsBad(q2, qubitCount, "QInterface::IISwap qubit index must be within allocated qubit bounds!");
+
     if (q1 == q2) {
         return;
     }
@@ -200,6 +243,9 @@ void QInterface::IISwap(bitLenInt q1, bitLenInt q2)
 
 void QInterface::SqrtSwap(bitLenInt q1, bitLenInt q2)
 {
+    ThrowIfQbIdIsBad(q1, qubitCount, "QInterface::SqrtSwap qubit index must be within allocated qubit bounds!");
+    ThrowIfQbIdIsBad(q2, qubitCount, "QInterface::SqrtSwap qubit index must be within allocated qubit bounds!");
+
     if (q1 == q2) {
         return;
     }
@@ -223,6 +269,9 @@ void QInterface::SqrtSwap(bitLenInt q1, bitLenInt q2)
 
 void QInterface::ISqrtSwap(bitLenInt q1, bitLenInt q2)
 {
+    ThrowIfQbIdIsBad(q1, qubitCount, "QInterface::ISqrtSwap qubit index must be within allocated qubit bounds!");
+    ThrowIfQbIdIsBad(q2, qubitCount, "QInterface::ISqrtSwap qubit index must be within allocated qubit bounds!");
+
     if (q1 == q2) {
         return;
     }
@@ -246,6 +295,11 @@ void QInterface::ISqrtSwap(bitLenInt q1, bitLenInt q2)
 
 void QInterface::CSwap(const std::vector<bitLenInt>& controls, bitLenInt q1, bitLenInt q2)
 {
+    ThrowIfQbIdArrayIsBad(
+        controls, qubitCount, "QInterface::CSwap control indices must be unique and within allocated qubit bounds!");
+    ThrowIfQbIdIsBad(q1, qubitCount, "QInterface::CSwap qubit index must be within allocated qubit bounds!");
+    ThrowIfQbIdIsBad(q2, qubitCount, "QInterface::CSwap qubit index must be within allocated qubit bounds!");
+
     if (!controls.size()) {
         return Swap(q1, q2);
     }
@@ -269,18 +323,34 @@ void QInterface::CSwap(const std::vector<bitLenInt>& controls, bitLenInt q1, bit
 
 void QInterface::AntiCSwap(const std::vector<bitLenInt>& controls, bitLenInt q1, bitLenInt q2)
 {
+    ThrowIfQbIdArrayIsBad(
+        controls, qubitCount, "QInterface::AntiCSwap control indices must be unique and within allocated qubit bounds!");
+    ThrowIfQbIdIsBad(q1, qubitCount, "QInterface::AntiCSwap qubit index must be within allocated qubit bounds!");
+    ThrowIfQbIdIsBad(q2, qubitCount, "QInterface::AntiCSwap qubit index must be within allocated qubit bounds!");
+
     bitCapInt m = ZERO_BCI;
     for (const bitLenInt& control : controls) {
         bi_or_ip(&m, pow2(control));
     }
 
     XMask(m);
-    CSwap(controls, q1, q2);
+    try {
+        CSwap(controls, q1, q2);
+    } catch (...) {
+        // Restore the state that was there before the rejected gate.
+        XMask(m);
+        throw;
+    }
     XMask(m);
 }
 
 void QInterface::CSqrtSwap(const std::vector<bitLenInt>& controls, bitLenInt q1, bitLenInt q2)
 {
+    ThrowIfQbIdArrayIsBad(
+        controls, qubitCount, "QInterface::CSqrtSwap control indices must be unique and within allocated qubit bounds!");
+    ThrowIfQbIdIsBad(q1, qubitCount, "QInterface::CSqrtSwap qubit index must be within allocated qubit bounds!");
+    ThrowIfQbIdIsBad(q2, qubitCount, "QInterface::CSqrtSwap qubit index must be within allocated qubit bounds!");
+
     if (!controls.size()) {
         return SqrtSwap(q1, q2);
     }
@@ -330,6 +400,11 @@ void QInterface::CSqrtSwap(const std::vector<bitLenInt>& controls, bitLenInt q1,
 
 void QInterface::CISqrtSwap(const std::vector<bitLenInt>& controls, bitLenInt q1, bitLenInt q2)
 {
+    ThrowIfQbIdArrayIsBad(
+        controls, qubitCount, "QInterface::CISqrtSwap control indices must be unique and within allocated qubit bounds!");
+    ThrowIfQbIdIsBad(q1, qubitCount, "QInterface::CISqrtSwap qubit index must be within allocated qubit bounds!");
+    ThrowIfQbIdIsBad(q2, qubitCount, "QInterface::CISqrtSwap qubit index must be within allocated qubit bounds!");
+
     if (q1 == q2) {
         return;
     }
@@ -374,30 +449,56 @@ void QInterface::CISqrtSwap(const std::vector<bitLenInt>& controls, bitLenInt q1
 
 void QInterface::AntiCSqrtSwap(const std::vector<bitLenInt>& controls, bitLenInt q1, bitLenInt q2)
 {
+    ThrowIfQbIdArrayIsBad(
+        controls, qubitCount, "QInterface::AntiCSqrtSwap control indices must be unique and within allocated qubit bounds!");
+    ThrowIfQbIdIsBad(q1, qubitCount, "QInterface::AntiCSqrtSwap qubit index must be within allocated qubit bounds!");
+    ThrowIfQbIdIsBad(q2, qubitCount, "QInterface::AntiCSqrtSwap qubit index must be within allocated qubit bounds!");
+
     bitCapInt m = ZERO_BCI;
     for (const bitLenInt& control : controls) {
         bi_or_ip(&m, pow2(control));
     }
 
     XMask(m);
-    CSqrtSwap(controls, q1, q2);
+    try {
+        CSqrtSwap(controls, q1, q2);
+    } catch (...) {
+        // Restore the state that was there before the rejected gate.
+        XMask(m);
+        throw;
+    }
     XMask(m);
 }
 
 void QInterface::AntiCISqrtSwap(const std::vector<bitLenInt>& controls, bitLenInt q1, bitLenInt q2)
 {
+    ThrowIfQbIdArrayIsBad(
+        controls, qubitCount, "QInterface::AntiCISqrtSwap control indices must be unique and within allocated qubit bounds!");
+    ThrowIfQbIdIsBad(q1, qubitCount, "QInterface::AntiCISqrtSwap qubit index must be within allocated qubit bounds!");
+    ThrowIfQbIdIsBad(q2, qubitCount, "QInterface::AntiCISqrtSwap qubit index must be within allocated qubit bounds!");
+
     bitCapInt m = ZERO_BCI;
     for (const bitLenInt& control : controls) {
         bi_or_ip(&m, pow2(control));
     }
 
     XMask(m);
-    CISqrtSwap(controls, q1, q2);
+    try {
+        CISqrtSwap(controls, q1, q2);
+    } catch (...) {
+        // Restore the state that was there before the rejected gate.
+        XMask(m);
+        throw;
+    }
     XMask(m);
 }
 
 void QInterface::PhaseParity(real1_f radians, const bitCapInt& _mask)
 {
+    if (bi_compare(_mask, maxQPower) >= 0) {
+        throw std::invalid_argument("QInterface::PhaseParity mask out-of-bounds!");
+    }
+
     if (bi_compare_0(_mask) == 0) {
         return;
     }
diff --git a/src/qinterface/qinterface.cpp b/src/qinterface/qinterface.cpp
index 19b385d..61fe5a6 100644
--- a/src/qinterface/qinterface.cpp
+++ b/src/qinterface/qinterface.cpp
@@ -111,6 +111,8 @@ void QInterface::SetPermutation(const bitCapInt& perm, const complex& ignored)
 /// Quantum Fourier Transform - Optimized for going from |0>/|1> to |+>/|-> basis
 void QInterface::QFT(bitLenInt start, bitLenInt length, bool trySeparate)
 {
+    ThrowIfBadBitRange(start, length, qubitCount, "QInterface::QFT range is out-of-bounds!");
+
     if (!length) {
         return;
     }
@@ -133,6 +135,8 @@ void QInterface::QFT(bitLenInt start, bitLenInt length, bool trySeparate)
 /// Inverse Quantum Fourier Transform - Quantum Fourier transform optimized for going from |+>/|-> to |0>/|1> basis
 void QInterface::IQFT(bitLenInt start, bitLenInt length, bool trySeparate)
 {
+    ThrowIfBadBitRange(start, length, qubitCount, "QInterface::IQFT range is out-of-bounds!");
+
     if (!length) {
         return;
     }
@@ -192,6 +196,8 @@ void QInterface::IQFTR(const std::vector<bitLenInt>& qubits, bool trySeparate)
 /// Set register bits to given permutation
 void QInterface::SetReg(bitLenInt start, bitLenInt length, const bitCapInt& value)
 {
+    ThrowIfBadBitRange(start, length, qubitCount, "QInterface::SetReg range is out-of-bounds!");
+
     // First, single bit operations are better optimized for this special case:
     if (length == 1) {
         return SetBit(start, (bool)(bi_and_1(value)));
@@ -212,6 +218,8 @@ void QInterface::SetReg(bitLenInt start, bitLenInt length, const bitCapInt& valu
 /// Bit-wise apply measurement gate to a register
 bitCapInt QInterface::ForceMReg(bitLenInt start, bitLenInt length, const bitCapInt& result, bool doForce, bool doApply)
 {
+    ThrowIfBadBitRange(start, length, qubitCount, "QInterface::ForceMReg range is out-of-bounds!");
+
     bitCapInt res = ZERO_BCI;
     for (bitLenInt bit = 0U; bit < length; ++bit) {
         const bitCapInt power = pow2(bit);
@@ -225,6 +233,11 @@ bitCapInt QInterface::ForceMReg(bitLenInt start, bitLenInt length, const bitCapI
 /// Bit-wise apply measurement gate to a register
 bitCapInt QInterface::ForceM(const std::vector<bitLenInt>& bits, const std::vector<bool>& values, bool doApply)
 {
+    for (const bitLenInt& bit : bits) {
+        ThrowIfQbIdIsBad(bit, qubitCount,
+            "QInterface::ForceM qubit index parameter array values must be within allocated qubit bounds!");
+    }
+
     if (values.size() && (bits.size() != values.size())) {
         throw std::invalid_argument(
             "QInterface::ForceM() boolean values vector length does not match bit vector length!");
@@ -261,6 +274,8 @@ bitCapInt QInterface::ForceM(const std::vector<bitLenInt>& bits, const std::vect
 /// Returns probability of permutation of the register
 real1_f QInterface::ProbReg(bitLenInt start, bitLenInt length, const bitCapInt& permutation)
 {
+    ThrowIfBadBitRange(start, length, qubitCount, "QInterface::ProbReg range is out-of-bounds!");
+
     const bitCapIntOcl startMask = pow2Ocl(start) - 1U;
     const bitCapIntOcl maxLcv = (bitCapIntOcl)(maxQPower >> length);
     const bitCapIntOcl p = (bitCapIntOcl)permutation << start;
@@ -277,6 +292,10 @@ real1_f QInterface::ProbReg(bitLenInt start, bitLenInt length, const bitCapInt&
 /// Returns probability of permutation of the mask
 real1_f QInterface::ProbMask(const bitCapInt& mask, const bitCapInt& permutation)
 {
+    if (bi_compare(mask, maxQPower) >= 0) {
+        throw std::invalid_argument("QInterface::ProbMask mask out-of-bounds!");
+    }
+
     if (bi_compare(maxQPower - ONE_BCI, mask) == 0) {
         return ProbAll(permutation);
     }
@@ -294,6 +313,8 @@ real1_f QInterface::ProbMask(const bitCapInt& mask, const bitCapInt& permutation
 /// "Circular shift right" - (Uses swap-based algorithm for speed)
 void QInterface::ROL(bitLenInt shift, bitLenInt start, bitLenInt length)
 {
+    ThrowIfBadBitRange(start, length, qubitCount, "QInterface::ROL range is out-of-bounds!");
+
     if (length < 2U) {
         return;
     }
@@ -313,6 +334,8 @@ void QInterface::ROL(bitLenInt shift, bitLenInt start, bitLenInt length)
 /// "Circular shift right" - shift bits right, and carry first bits.
 void QInterface::ROR(bitLenInt shift, bitLenInt start, bitLenInt length)
 {
+    ThrowIfBadBitRange(start, length, qubitCount, "QInterface::ROR range is out-of-bounds!");
+
     if (length < 2U) {
         return;
     }
@@ -332,6 +355,8 @@ void QInterface::ROR(bitLenInt shift, bitLenInt start, bitLenInt length)
 /// Arithmetic shift left, with last 2 bits as sign and carry
 void QInterface::ASL(bitLenInt shift, bitLenInt start, bitLenInt length)
 {
+    ThrowIfBadBitRange(start, length, qubitCount, "QInterface::ASL range is out-of-bounds!");
+
     if (!length || !shift) {
         return;
     }
@@ -350,6 +375,8 @@ void QInterface::ASL(bitLenInt shift, bitLenInt start, bitLenInt length)
 /// Arithmetic shift right, with last 2 bits as sign and carry
 void QInterface::ASR(bitLenInt shift, bitLenInt start, bitLenInt length)
 {
+    ThrowIfBadBitRange(start, length, qubitCount, "QInterface::ASR range is out-of-bounds!");
+
     if (!length || !shift) {
         return;
     }
@@ -368,6 +395,8 @@ void QInterface::ASR(bitLenInt shift, bitLenInt start, bitLenInt length)
 /// Logical shift left, filling the extra bits with |0>
 void QInterface::LSL(bitLenInt shift, bitLenInt start, bitLenInt length)
 {
+    ThrowIfBadBitRange(start, length, qubitCount, "QInterface::LSL range is out-of-bounds!");
+
     if (!length || !shift) {
         return;
     }
@@ -383,6 +412,8 @@ void QInterface::LSL(bitLenInt shift, bitLenInt start, bitLenInt length)
 /// Logical shift right, filling the extra bits with |0>
 void QInterface::LSR(bitLenInt shift, bitLenInt start, bitLenInt length)
 {
+    ThrowIfBadBitRange(start, length, qubitCount, "QInterface::LSR range is out-of-bounds!");
+
     if (!length || !shift) {
         return;
     }
@@ -397,6 +428,10 @@ void QInterface::LSR(bitLenInt shift, bitLenInt start, bitLenInt length)
 
 bitLenInt QInterface::Compose(QInterfacePtr toCopy, bitLenInt start)
 {
+    if (start > qubitCount) {
+        throw std::invalid_argument("QInterface::Compose start index is out-of-bounds!");
+    }
+
     if (start == qubitCount) {
         return Compose(toCopy);
     }
@@ -443,6 +478,11 @@ void QInterface::ProbMaskAll(const bitCapInt& mask, real1* probsArray)
 
 void QInterface::ProbBitsAll(const std::vector<bitLenInt>& bits, real1* probsArray)
 {
+    for (const bitLenInt& bit : bits) {
+        ThrowIfQbIdIsBad(bit, qubitCount,
+            "QInterface::ProbBitsAll parameter qubits vector values must be within allocated qubit bounds!");
+    }
+
     if (bits.size() == qubitCount) {
         bool isOrdered = true;
         for (bitLenInt i = 0U; i < qubitCount; ++i) {
@@ -657,6 +697,9 @@ real1_f QInterface::VarianceFloatsFactorized(const std::vector<bitLenInt>& bits,
 
 real1_f QInterface::VariancePauliAll(std::vector<bitLenInt> bits, std::vector<Pauli> paulis)
 {
+    ThrowIfQbIdArrayIsBad(bits, qubitCount,
+        "QInterface::VariancePauliAll parameter qubits vector values must be within allocated qubit bounds!");
+
     for (size_t i = 0U; i < bits.size(); ++i) {
         const size_t j = bits.size() - (i + 1U);
         if (paulis[j] == PauliI) {
@@ -713,6 +756,9 @@ real1_f QInterface::VariancePauliAll(std::vector<bitLenInt> bits, std::vector<Pa
 
 real1_f QInterface::ExpectationPauliAll(std::vector<bitLenInt> bits, std::vector<Pauli> paulis)
 {
+    ThrowIfQbIdArrayIsBad(bits, qubitCount,
+        "QInterface::ExpectationPauliAll parameter qubits vector values must be within allocated qubit bounds!");
+
     for (size_t i = 0U; i < bits.size(); ++i) {
         const size_t j = bits.size() - (i + 1U);
         if (paulis[j] == PauliI) {
@@ -805,6 +851,13 @@ real1_f QInterface::ExpectationFloatsFactorized(const std::vector<bitLenInt>& bi
 
 std::map<bitCapInt, int> QInterface::MultiShotMeasureMask(const std::vector<bitCapInt>& qPowers, unsigned shots)
 {
+    for (const bitCapInt& qPower : qPowers) {
+        if (bi_compare(qPower, maxQPower) >= 0) {
+            throw std::invalid_argument("QInterface::MultiShotMeasureMask parameter qPowers array values must be "
+                                        "within allocated qubit bounds!");
+        }
+    }
+
     if (!shots) {
         return std::map<bitCapInt, int>();
     }
@@ -823,6 +876,13 @@ std::map<bitCapInt, int> QInterface::MultiShotMeasureMask(const std::vector<bitC
 void QInterface::MultiShotMeasureMask(
     const std::vector<bitCapInt>& qPowers, unsigned shots, unsigned long long* shotsArray)
 {
+    for (const bitCapInt& qPower : qPowers) {
+        if (bi_compare(qPower, maxQPower) >= 0) {
+            throw std::invalid_argument("QInterface::MultiShotMeasureMask parameter qPowers array values must be "
+                                        "within allocated qubit bounds!");
+        }
+    }
+
     if (!shots) {
         return;
     }
-- 
2.43.0


From 7d58201e0811151bf4f5d297ac725439cbfd7a21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:06 +0000
Subject: [PATCH 099/106] fix: dense and paged engines check their qubit,
 control and register arguments before they change the state

---
 include/qengine.hpp        |  2 ++
 include/qpager.hpp         | 12 ++++++++
 src/qengine/arithmetic.cpp | 14 +++++++++
 src/qengine/qengine.cpp    | 48 +++++++++++++++++++++++++++++
 src/qengine/state.cpp      | 14 ++++++---
 src/qpager.cpp             | 63 ++++++++++++++++++++++++++++++++++++++
 6 files changed, 148 insertions(+), 5 deletions(-)

diff --git a/include/qengine.hpp b/include/qengine.hpp
index 6c5f4ce..ca8acc4 100644
--- a/include/qengine.hpp
+++ b/include/qengine.hpp
@@ -290,6 +290,8 @@ public:
     using QInterface::Decompose;
     virtual QInterfacePtr Decompose(bitLenInt start, bitLenInt length)
     {
+        ThrowIfBadBitRange(start, length, qubitCount, "QEngine::Decompose range is out-of-bounds!");
+
         QEnginePtr dest = CloneEmpty();
         dest->SetQubitCount(length);
         Decompose(start, dest);
diff --git a/include/qpager.hpp b/include/qpager.hpp
index 3977c16..19b2c39 100644
--- a/include/qpager.hpp
+++ b/include/qpager.hpp
@@ -307,18 +307,30 @@ public:
     void GetProbs(real1* outputProbs);
     complex GetAmplitude(const bitCapInt& perm)
     {
+        if (bi_compare(perm, maxQPower) >= 0) {
+            throw std::invalid_argument("QPager::GetAmplitude argument out-of-bounds!");
+        }
+
         bitCapInt p, a;
         bi_div_mod(perm, pageMaxQPower(), &p, &a);
         return qPages[(bitCapIntOcl)p]->GetAmplitude(a);
     }
     void SetAmplitude(const bitCapInt& perm, const complex& amp)
     {
+        if (bi_compare(perm, maxQPower) >= 0) {
+            throw std::invalid_argument("QPager::SetAmplitude argument out-of-bounds!");
+        }
+
         bitCapInt p, a;
         bi_div_mod(perm, pageMaxQPower(), &p, &a);
         qPages[(bitCapIntOcl)p]->SetAmplitude(a, amp);
     }
     real1_f ProbAll(const bitCapInt& perm)
     {
+        if (bi_compare(perm, maxQPower) >= 0) {
+            throw std::invalid_argument("QPager::ProbAll argument out-of-bounds!");
+        }
+
         bitCapInt p, a;
         bi_div_mod(perm, pageMaxQPower(), &p, &a);
         return qPages[(bitCapIntOcl)p]->ProbAll(a);
diff --git a/src/qengine/arithmetic.cpp b/src/qengine/arithmetic.cpp
index d6a07a1..e682546 100644
--- a/src/qengine/arithmetic.cpp
+++ b/src/qengine/arithmetic.cpp
@@ -401,6 +401,9 @@ void QEngineCPU::MULDIV(const IOFn& inFn, const IOFn& outFn, const bitCapInt& to
 
 void QEngineCPU::MUL(const bitCapInt& toMul, bitLenInt inOutStart, bitLenInt carryStart, bitLenInt length)
 {
+    ThrowIfBadBitRange(inOutStart, length, qubitCount, "QEngineCPU::MUL range is out-of-bounds!");
+    ThrowIfBadBitRange(carryStart, length, qubitCount, "QEngineCPU::MUL range is out-of-bounds!");
+
     SetReg(carryStart, length, ZERO_BCI);
 
     if (bi_compare_0(toMul) == 0) {
@@ -501,6 +504,10 @@ void QEngineCPU::CMUL(const bitCapInt& toMul, bitLenInt inOutStart, bitLenInt ca
         return MUL(toMul, inOutStart, carryStart, length);
     }
 
+    ThrowIfBadBitRange(inOutStart, length, qubitCount, "QEngineCPU::CMUL range is out-of-bounds!");
+    ThrowIfBadBitRange(carryStart, length, qubitCount, "QEngineCPU::CMUL range is out-of-bounds!");
+    ThrowIfQbIdArrayIsBad(controls, qubitCount, "QEngineCPU::CMUL control is out-of-bounds!");
+
     SetReg(carryStart, length, ZERO_BCI);
 
     if (bi_compare_0(toMul) == 0) {
@@ -578,6 +585,9 @@ void QEngineCPU::ModNOut(const MFn& kernelFn, const bitCapInt& modN, const bitLe
 void QEngineCPU::MULModNOut(
     const bitCapInt& toMod, const bitCapInt& modN, bitLenInt inStart, bitLenInt outStart, bitLenInt length)
 {
+    ThrowIfBadBitRange(inStart, length, qubitCount, "QEngineCPU::MULModNOut range is out-of-bounds!");
+    ThrowIfBadBitRange(outStart, length, qubitCount, "QEngineCPU::MULModNOut range is out-of-bounds!");
+
     SetReg(outStart, length, ZERO_BCI);
 
     if (bi_compare_0(toMod) == 0) {
@@ -685,6 +695,10 @@ void QEngineCPU::CMULModNOut(const bitCapInt& toMod, const bitCapInt& modN, bitL
         return MULModNOut(toMod, modN, inStart, outStart, length);
     }
 
+    ThrowIfBadBitRange(inStart, length, qubitCount, "QEngineCPU::CMULModNOut range is out-of-bounds!");
+    ThrowIfBadBitRange(outStart, length, qubitCount, "QEngineCPU::CMULModNOut range is out-of-bounds!");
+    ThrowIfQbIdArrayIsBad(controls, qubitCount, "QEngineCPU::CMULModNOut control is out-of-bounds!");
+
     SetReg(outStart, length, ZERO_BCI);
 
     const bitCapIntOcl toModOcl = (bitCapIntOcl)toMod;
diff --git a/src/qengine/qengine.cpp b/src/qengine/qengine.cpp
index 6d1ebaa..2ca107a 100644
--- a/src/qengine/qengine.cpp
+++ b/src/qengine/qengine.cpp
@@ -18,6 +18,8 @@ namespace Qrack {
 
 void QEngine::Mtrx(const complex* mtrx, bitLenInt qubit)
 {
+    ThrowIfQbIdIsBad(qubit, qubitCount, "QEngine::Mtrx qubit index parameter must be within allocated qubit bounds!");
+
     if (IsIdentity(mtrx, false)) {
         return;
     }
@@ -32,6 +34,11 @@ void QEngine::EitherMtrx(const std::vector<bitLenInt>& controls, const complex*
         return Mtrx(mtrx, target);
     }
 
+    ThrowIfQbIdArrayIsBad(
+        controls, qubitCount, "QEngine::EitherMtrx control index parameter must be within allocated qubit bounds!");
+    ThrowIfQbIdIsBad(
+        target, qubitCount, "QEngine::EitherMtrx target index parameter must be within allocated qubit bounds!");
+
     if (IsIdentity(mtrx, true)) {
         return;
     }
@@ -54,6 +61,11 @@ void QEngine::UCMtrx(
         return Mtrx(mtrx, target);
     }
 
+    ThrowIfQbIdArrayIsBad(
+        controls, qubitCount, "QEngine::UCMtrx control index parameter must be within allocated qubit bounds!");
+    ThrowIfQbIdIsBad(
+        target, qubitCount, "QEngine::UCMtrx target index parameter must be within allocated qubit bounds!");
+
     if (IsIdentity(mtrx, true)) {
         return;
     }
@@ -209,6 +221,11 @@ void QEngine::CSwap(const std::vector<bitLenInt>& controls, bitLenInt qubit1, bi
         return Swap(qubit1, qubit2);
     }
 
+    ThrowIfQbIdArrayIsBad(
+        controls, qubitCount, "QEngine::CSwap control index parameter must be within allocated qubit bounds!");
+    ThrowIfQbIdIsBad(qubit1, qubitCount, "QEngine::CSwap qubit index parameter must be within allocated qubit bounds!");
+    ThrowIfQbIdIsBad(qubit2, qubitCount, "QEngine::CSwap qubit index parameter must be within allocated qubit bounds!");
+
     if (qubit1 == qubit2) {
         return;
     }
@@ -237,6 +254,11 @@ void QEngine::AntiCSwap(const std::vector<bitLenInt>& controls, bitLenInt qubit1
         return Swap(qubit1, qubit2);
     }
 
+    ThrowIfQbIdArrayIsBad(
+        controls, qubitCount, "QEngine::AntiCSwap control index parameter must be within allocated qubit bounds!");
+    ThrowIfQbIdIsBad(qubit1, qubitCount, "QEngine::AntiCSwap qubit index parameter must be within allocated qubit bounds!");
+    ThrowIfQbIdIsBad(qubit2, qubitCount, "QEngine::AntiCSwap qubit index parameter must be within allocated qubit bounds!");
+
     if (qubit1 == qubit2) {
         return;
     }
@@ -262,6 +284,11 @@ void QEngine::CSqrtSwap(const std::vector<bitLenInt>& controls, bitLenInt qubit1
         return SqrtSwap(qubit1, qubit2);
     }
 
+    ThrowIfQbIdArrayIsBad(
+        controls, qubitCount, "QEngine::CSqrtSwap control index parameter must be within allocated qubit bounds!");
+    ThrowIfQbIdIsBad(qubit1, qubitCount, "QEngine::CSqrtSwap qubit index parameter must be within allocated qubit bounds!");
+    ThrowIfQbIdIsBad(qubit2, qubitCount, "QEngine::CSqrtSwap qubit index parameter must be within allocated qubit bounds!");
+
     if (qubit1 == qubit2) {
         return;
     }
@@ -290,6 +317,11 @@ void QEngine::AntiCSqrtSwap(const std::vector<bitLenInt>& controls, bitLenInt qu
         return SqrtSwap(qubit1, qubit2);
     }
 
+    ThrowIfQbIdArrayIsBad(
+        controls, qubitCount, "QEngine::AntiCSqrtSwap control index parameter must be within allocated qubit bounds!");
+    ThrowIfQbIdIsBad(qubit1, qubitCount, "QEngine::AntiCSqrtSwap qubit index parameter must be within allocated qubit bounds!");
+    ThrowIfQbIdIsBad(qubit2, qubitCount, "QEngine::AntiCSqrtSwap qubit index parameter must be within allocated qubit bounds!");
+
     if (qubit1 == qubit2) {
         return;
     }
@@ -315,6 +347,11 @@ void QEngine::CISqrtSwap(const std::vector<bitLenInt>& controls, bitLenInt qubit
         return ISqrtSwap(qubit1, qubit2);
     }
 
+    ThrowIfQbIdArrayIsBad(
+        controls, qubitCount, "QEngine::CISqrtSwap control index parameter must be within allocated qubit bounds!");
+    ThrowIfQbIdIsBad(qubit1, qubitCount, "QEngine::CISqrtSwap qubit index parameter must be within allocated qubit bounds!");
+    ThrowIfQbIdIsBad(qubit2, qubitCount, "QEngine::CISqrtSwap qubit index parameter must be within allocated qubit bounds!");
+
     if (qubit1 == qubit2) {
         return;
     }
@@ -343,6 +380,11 @@ void QEngine::AntiCISqrtSwap(const std::vector<bitLenInt>& controls, bitLenInt q
         return ISqrtSwap(qubit1, qubit2);
     }
 
+    ThrowIfQbIdArrayIsBad(
+        controls, qubitCount, "QEngine::AntiCISqrtSwap control index parameter must be within allocated qubit bounds!");
+    ThrowIfQbIdIsBad(qubit1, qubitCount, "QEngine::AntiCISqrtSwap qubit index parameter must be within allocated qubit bounds!");
+    ThrowIfQbIdIsBad(qubit2, qubitCount, "QEngine::AntiCISqrtSwap qubit index parameter must be within allocated qubit bounds!");
+
     if (qubit1 == qubit2) {
         return;
     }
@@ -392,6 +434,9 @@ void QEngine::ApplyAntiControlled2x2(const std::vector<bitLenInt>& controls, bit
 }
 
 #define _QRACK_QENGINE_SWAP_PREAMBLE()                                                                                 \
+    ThrowIfQbIdIsBad(qubit1, qubitCount, "QEngine swap qubit index must be within allocated qubit bounds!");           \
+    ThrowIfQbIdIsBad(qubit2, qubitCount, "QEngine swap qubit index must be within allocated qubit bounds!");           \
+                                                                                                                       \
     if (qubit1 == qubit2) {                                                                                            \
         return;                                                                                                        \
     }                                                                                                                  \
@@ -437,6 +482,9 @@ void QEngine::ISqrtSwap(bitLenInt qubit1, bitLenInt qubit2)
 }
 void QEngine::FSim(real1_f theta, real1_f phi, bitLenInt qubit1, bitLenInt qubit2)
 {
+    ThrowIfQbIdIsBad(qubit1, qubitCount, "QEngine::FSim qubit index must be within allocated qubit bounds!");
+    ThrowIfQbIdIsBad(qubit2, qubitCount, "QEngine::FSim qubit index must be within allocated qubit bounds!");
+
     if (qubit2 < qubit1) {
         std::swap(qubit1, qubit2);
     }
diff --git a/src/qengine/state.cpp b/src/qengine/state.cpp
index 87e8934..526e5a4 100644
--- a/src/qengine/state.cpp
+++ b/src/qengine/state.cpp
@@ -1365,6 +1365,11 @@ real1_f QEngineCPU::Prob(bitLenInt qubit)
 /// "controlState".
 real1_f QEngineCPU::CtrlOrAntiProb(bool controlState, bitLenInt control, bitLenInt target)
 {
+    ThrowIfQbIdIsBad(control, qubitCount,
+        "QEngineCPU::CtrlOrAntiProb control index parameter must be within allocated qubit bounds!");
+    ThrowIfQbIdIsBad(target, qubitCount,
+        "QEngineCPU::CtrlOrAntiProb target index parameter must be within allocated qubit bounds!");
+
     if (!stateVec) {
         return ZERO_R1_F;
     }
@@ -1382,11 +1387,6 @@ real1_f QEngineCPU::CtrlOrAntiProb(bool controlState, bitLenInt control, bitLenI
         return Prob(target);
     }
 
-    if (target >= qubitCount) {
-        throw std::invalid_argument(
-            "QEngineCPU::CtrlOrAntiProb target index parameter must be within allocated qubit bounds!");
-    }
-
     const bitCapIntOcl qControlPower = pow2Ocl(control);
     const bitCapIntOcl qControlMask = controlState ? qControlPower : 0U;
     const bitCapIntOcl qPower = pow2Ocl(target);
@@ -1411,6 +1411,10 @@ real1_f QEngineCPU::CtrlOrAntiProb(bool controlState, bitLenInt control, bitLenI
 // Returns probability of permutation of the register
 real1_f QEngineCPU::ProbReg(bitLenInt start, bitLenInt length, const bitCapInt& permutation)
 {
+    if (isBadBitRange(start, length, qubitCount)) {
+        throw std::invalid_argument("QEngineCPU::ProbReg range is out-of-bounds!");
+    }
+
     if (doNormalize) {
         NormalizeState();
     }
diff --git a/src/qpager.cpp b/src/qpager.cpp
index 8238ca0..5da7667 100644
--- a/src/qpager.cpp
+++ b/src/qpager.cpp
@@ -10,6 +10,8 @@
 
 #include "qfactory.hpp"
 
+#include <algorithm>
+
 #if ENABLE_PTHREAD
 #include <future>
 #endif
@@ -594,6 +596,7 @@ void QPager::SemiMetaControlled(
 template <typename F> void QPager::CombineAndOp(F fn, std::vector<bitLenInt> bits)
 {
     const bitLenInt highestBit = *std::max_element(bits.begin(), bits.end());
+    ThrowIfQbIdIsBad(highestBit, qubitCount, "QPager qubit index parameters must be within allocated qubit bounds!");
 
     CombineEngines(highestBit + 1U);
 
@@ -711,6 +714,8 @@ bitLenInt QPager::ComposeEither(QPagerPtr toCopy, bool willDestroy)
 
 QInterfacePtr QPager::Decompose(bitLenInt start, bitLenInt length)
 {
+    ThrowIfBadBitRange(start, length, qubitCount, "QPager::Decompose range is out-of-bounds!");
+
     QPagerPtr dest = std::make_shared<QPager>(engines, length, ZERO_BCI, rand_generator, ONE_CMPLX, doNormalize,
         randGlobalPhase, false, 0, !hardware_rand_generator ? false : true, isSparse, (real1_f)amplitudeFloor,
         deviceIDs, thresholdQubitsPerPage);
@@ -722,6 +727,8 @@ QInterfacePtr QPager::Decompose(bitLenInt start, bitLenInt length)
 
 void QPager::Decompose(bitLenInt start, QPagerPtr dest)
 {
+    ThrowIfBadBitRange(start, dest->GetQubitCount(), qubitCount, "QPager::Decompose range is out-of-bounds!");
+
     // The phase convention of the separated factors is only consistent across pages if they are combined.
     CombineEngines();
     dest->CombineEngines();
@@ -736,6 +743,10 @@ void QPager::Decompose(bitLenInt start, QPagerPtr dest)
 
 void QPager::Dispose(bitLenInt start, bitLenInt length)
 {
+    if (isBadBitRange(start, length, qubitCount)) {
+        throw std::invalid_argument("QPager::Dispose range is out-of-bounds!");
+    }
+
     CombineEngines();
 
     qPages[0U]->Dispose(start, length);
@@ -747,6 +758,10 @@ void QPager::Dispose(bitLenInt start, bitLenInt length)
 
 void QPager::Dispose(bitLenInt start, bitLenInt length, const bitCapInt& disposedPerm)
 {
+    if (isBadBitRange(start, length, qubitCount)) {
+        throw std::invalid_argument("QPager::Dispose range is out-of-bounds!");
+    }
+
     CombineEngines(length + 1U);
 
     if ((start + length) > qubitsPerPage()) {
@@ -768,6 +783,10 @@ void QPager::Dispose(bitLenInt start, bitLenInt length, const bitCapInt& dispose
 
 bitLenInt QPager::Allocate(bitLenInt start, bitLenInt length)
 {
+    if (start > qubitCount) {
+        throw std::invalid_argument("QPager::Allocate start index is out-of-bounds!");
+    }
+
     if (!length) {
         return start;
     }
@@ -908,6 +927,8 @@ void QPager::SetPermutation(const bitCapInt& perm, const complex& phaseFac)
 
 void QPager::Mtrx(const complex* mtrx, bitLenInt target)
 {
+    ThrowIfQbIdIsBad(target, qubitCount, "QPager::Mtrx qubit index parameter must be within allocated qubit bounds!");
+
     if (IS_NORM_0(mtrx[1U]) && IS_NORM_0(mtrx[2U])) {
         return Phase(mtrx[0U], mtrx[3U], target);
     }
@@ -921,6 +942,8 @@ void QPager::Mtrx(const complex* mtrx, bitLenInt target)
 
 void QPager::ApplySingleEither(bool isInvert, const complex& _top, const complex& _bottom, bitLenInt target)
 {
+    ThrowIfQbIdIsBad(target, qubitCount, "QPager::ApplySingleEither qubit index parameter must be within allocated qubit bounds!");
+
     bitLenInt qpp = qubitsPerPage();
 
     if (target < qpp) {
@@ -970,6 +993,13 @@ void QPager::ApplyEitherControlledSingleBit(
         return Mtrx(mtrx, target);
     }
 
+    ThrowIfQbIdArrayIsBad(
+        controls, qubitCount, "QPager control index parameters must be unique and within allocated qubit bounds!");
+    ThrowIfQbIdIsBad(target, qubitCount, "QPager target index parameter must be within allocated qubit bounds!");
+    if (std::find(controls.begin(), controls.end(), target) != controls.end()) {
+        throw std::invalid_argument("QPager target index parameter cannot also be a control!");
+    }
+
     const bitLenInt qpp = qubitsPerPage();
 
     std::vector<bitLenInt> metaControls;
@@ -1013,17 +1043,29 @@ void QPager::ApplyEitherControlledSingleBit(
 
 void QPager::UniformParityRZ(const bitCapInt& mask, real1_f angle)
 {
+    if (bi_compare(mask, maxQPower) >= 0) {
+        throw std::invalid_argument("QPager::UniformParityRZ mask out-of-bounds!");
+    }
+
     CombineAndOp([&](QEnginePtr engine) { engine->UniformParityRZ(mask, angle); }, { log2(mask) });
 }
 
 void QPager::CUniformParityRZ(const std::vector<bitLenInt>& controls, const bitCapInt& mask, real1_f angle)
 {
+    if (bi_compare(mask, maxQPower) >= 0) {
+        throw std::invalid_argument("QPager::CUniformParityRZ mask out-of-bounds!");
+    }
+
     CombineAndOpControlled(
         [&](QEnginePtr engine) { engine->CUniformParityRZ(controls, mask, angle); }, { log2(mask) }, controls);
 }
 
 void QPager::XMask(const bitCapInt& mask)
 {
+    if (bi_compare(mask, maxQPower) >= 0) {
+        throw std::invalid_argument("QPager::XMask mask out-of-bounds!");
+    }
+
     const bitCapIntOcl pageMask = pageMaxQPower() - 1U;
     const bitCapIntOcl intraMask = (bitCapIntOcl)mask & pageMask;
     bitCapIntOcl interMask = (bitCapIntOcl)mask ^ intraMask;
@@ -1043,6 +1085,10 @@ void QPager::XMask(const bitCapInt& mask)
 
 void QPager::PhaseParity(real1_f radians, const bitCapInt& mask)
 {
+    if (bi_compare(mask, maxQPower) >= 0) {
+        throw std::invalid_argument("QPager::PhaseParity mask out-of-bounds!");
+    }
+
     const bitCapIntOcl parityStartSize = 4U * sizeof(bitCapIntOcl);
     const bitCapIntOcl pageMask = pageMaxQPower() - 1U;
     const bitCapIntOcl intraMask = (bitCapIntOcl)mask & pageMask;
@@ -1071,6 +1117,8 @@ void QPager::PhaseParity(real1_f radians, const bitCapInt& mask)
 
 bool QPager::ForceM(bitLenInt qubit, bool result, bool doForce, bool doApply)
 {
+    ThrowIfQbIdIsBad(qubit, qubitCount, "QPager::ForceM qubit index parameter must be within allocated qubit bounds!");
+
     if (qPages.size() == 1U) {
         return qPages[0U]->ForceM(qubit, result, doForce, doApply);
     }
@@ -1309,6 +1357,9 @@ void QPager::MetaSwap(bitLenInt qubit1, bitLenInt qubit2, bool isIPhaseFac, bool
 
 void QPager::Swap(bitLenInt qubit1, bitLenInt qubit2)
 {
+    ThrowIfQbIdIsBad(qubit1, qubitCount, "QPager::Swap qubit index parameter must be within allocated qubit bounds!");
+    ThrowIfQbIdIsBad(qubit2, qubitCount, "QPager::Swap qubit index parameter must be within allocated qubit bounds!");
+
     if (qubit1 == qubit2) {
         return;
     }
@@ -1334,6 +1385,9 @@ void QPager::Swap(bitLenInt qubit1, bitLenInt qubit2)
 }
 void QPager::EitherISwap(bitLenInt qubit1, bitLenInt qubit2, bool isInverse)
 {
+    ThrowIfQbIdIsBad(qubit1, qubitCount, "QPager::ISwap qubit index parameter must be within allocated qubit bounds!");
+    ThrowIfQbIdIsBad(qubit2, qubitCount, "QPager::ISwap qubit index parameter must be within allocated qubit bounds!");
+
     if (qubit1 == qubit2) {
         return;
     }
@@ -1391,6 +1445,9 @@ void QPager::EitherISwap(bitLenInt qubit1, bitLenInt qubit2, bool isInverse)
 }
 void QPager::FSim(real1_f theta, real1_f phi, bitLenInt qubit1, bitLenInt qubit2)
 {
+    ThrowIfQbIdIsBad(qubit1, qubitCount, "QPager::FSim qubit index parameter must be within allocated qubit bounds!");
+    ThrowIfQbIdIsBad(qubit2, qubitCount, "QPager::FSim qubit index parameter must be within allocated qubit bounds!");
+
     if (qubit1 == qubit2) {
         return;
     }
@@ -1427,6 +1484,8 @@ void QPager::FSim(real1_f theta, real1_f phi, bitLenInt qubit1, bitLenInt qubit2
 
 real1_f QPager::Prob(bitLenInt qubit)
 {
+    ThrowIfQbIdIsBad(qubit, qubitCount, "QPager::Prob qubit index parameter must be within allocated qubit bounds!");
+
     if (qPages.size() == 1U) {
         return qPages[0U]->Prob(qubit);
     }
@@ -1499,6 +1558,10 @@ real1_f QPager::Prob(bitLenInt qubit)
 
 real1_f QPager::ProbMask(const bitCapInt& mask, const bitCapInt& permutation)
 {
+    if (bi_compare(mask, maxQPower) >= 0) {
+        throw std::invalid_argument("QPager::ProbMask mask out-of-bounds!");
+    }
+
     CombineEngines(log2(mask) + 1U);
     real1_f maskChance = ZERO_R1_F;
     for (const QEnginePtr& qPage : qPages) {
-- 
2.43.0


From b3ea04c985eb9c8041674a17ddb7f97266dce218 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:06 +0000
Subject: [PATCH 100/106] fix: QUnit checks qubit, control and register
 arguments before it changes the state

---
 include/qunit.hpp |  2 ++
 src/qunit.cpp     | 19 ++++++++++---------
 2 files changed, 12 insertions(+), 9 deletions(-)

diff --git a/include/qunit.hpp b/include/qunit.hpp
index 7b3af30..6525364 100644
--- a/include/qunit.hpp
+++ b/include/qunit.hpp
@@ -225,6 +225,8 @@ public:
     virtual void Decompose(bitLenInt start, QUnitPtr dest) { Detach(start, dest->GetQubitCount(), dest); }
     virtual QInterfacePtr Decompose(bitLenInt start, bitLenInt length)
     {
+        ThrowIfBadBitRange(start, length, qubitCount, "QUnit::Decompose range is out-of-bounds!");
+
         QUnitPtr dest = std::make_shared<QUnit>(engines, length, ZERO_BCI, rand_generator, phaseFactor, doNormalize,
             randGlobalPhase, useHostRam, devID, useRDRAND, false, (real1_f)amplitudeFloor, deviceIDs, thresholdQubits,
             separabilityThreshold);
diff --git a/src/qunit.cpp b/src/qunit.cpp
index befa82c..1a03987 100644
--- a/src/qunit.cpp
+++ b/src/qunit.cpp
@@ -1766,6 +1766,8 @@ void QUnit::MultiShotMeasureMask(const std::vector<bitCapInt>& qPowers, unsigned
 /// Set register bits to given permutation
 void QUnit::SetReg(bitLenInt start, bitLenInt length, const bitCapInt& value)
 {
+    ThrowIfBadBitRange(start, length, qubitCount, "QUnit::SetReg range is out-of-bounds!");
+
     // (Even after measurement, the qubits might be targets of buffered phase gates, that act on their controls.)
     for (bitLenInt i = 0U; i < length; ++i) {
         RevertBasis2Qb(i + start);
@@ -2321,6 +2323,9 @@ void QUnit::UCPhase(const std::vector<bitLenInt>& lControls, const complex& topL
 {
     ThrowIfQbIdArrayIsBad(
         lControls, qubitCount, "QUnit::UCPhase parameter controls array values must be within allocated qubit bounds!");
+    if (target >= qubitCount) {
+        throw std::invalid_argument("QUnit::UCPhase qubit index parameter must be within allocated qubit bounds!");
+    }
 
     if (IS_1_CMPLX(topLeft) && IS_1_CMPLX(bottomRight)) {
         return;
@@ -2345,10 +2350,6 @@ void QUnit::UCPhase(const std::vector<bitLenInt>& lControls, const complex& topL
         return;
     }
 
-    if (target >= qubitCount) {
-        throw std::invalid_argument("QUnit::UCPhase qubit index parameter must be within allocated qubit bounds!");
-    }
-
     if (!freezeBasis2Qb && (controlVec.size() == 1U)) {
         bitLenInt control = controlVec[0U];
         QEngineShard& cShard = shards[control];
@@ -2389,7 +2390,6 @@ void QUnit::UCInvert(const std::vector<bitLenInt>& lControls, const complex& top
 {
     ThrowIfQbIdArrayIsBad(lControls, qubitCount,
         "QUnit::UCInvert parameter controls array values must be within allocated qubit bounds!");
-
     if (target >= qubitCount) {
         throw std::invalid_argument("QUnit::UCInvert qubit index parameter must be within allocated qubit bounds!");
     }
@@ -2448,6 +2448,8 @@ void QUnit::UCInvert(const std::vector<bitLenInt>& lControls, const complex& top
 
 void QUnit::Mtrx(const complex* mtrx, bitLenInt target)
 {
+    ThrowIfQbIdIsBad(target, qubitCount, "QUnit::Mtrx target qubit index parameter must be within allocated qubit bounds!");
+
     QEngineShard& shard = shards[target];
 
     if (IS_NORM_0(mtrx[1U]) && IS_NORM_0(mtrx[2U])) {
@@ -2514,6 +2516,9 @@ void QUnit::UCMtrx(
 
     ThrowIfQbIdArrayIsBad(
         controls, qubitCount, "QUnit::UCMtrx parameter controls array values must be within allocated qubit bounds!");
+    if (target >= qubitCount) {
+        throw std::invalid_argument("QUnit::UCMtrx qubit index parameter must be within allocated qubit bounds!");
+    }
 
     std::vector<bitLenInt> controlVec;
     bitCapInt controlPerm = _controlPerm;
@@ -2525,10 +2530,6 @@ void QUnit::UCMtrx(
         return Mtrx(mtrx, target);
     }
 
-    if (target >= qubitCount) {
-        throw std::invalid_argument("QUnit::UCMtrx qubit index parameter must be within allocated qubit bounds!");
-    }
-
     CTRLED_GEN_WRAP(UCMtrx(CTRL_GEN_ARGS));
 }
 
-- 
2.43.0


From ef756baee3715f70aae4a866a02cbbc57b03df9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:06 +0000
Subject: [PATCH 101/106] fix: stabilizer simulators check qubit, control and
 register arguments

---
 include/qunitclifford.hpp | 10 ++++++++++
 src/qstabilizer.cpp       | 37 +++++++++++++++++++++++++++++++++++++
 src/qunitclifford.cpp     | 11 +++++++++++
 3 files changed, 58 insertions(+)

diff --git a/include/qunitclifford.hpp b/include/qunitclifford.hpp
index 995227e..0dbcdee 100644
--- a/include/qunitclifford.hpp
+++ b/include/qunitclifford.hpp
@@ -290,6 +290,8 @@ public:
     /// Apply a CNOT gate with control and target
     void CNOT(bitLenInt c, bitLenInt t)
     {
+        ThrowIfQubitInvalid(c, "QUnitClifford::CNOT");
+        ThrowIfQubitInvalid(t, "QUnitClifford::CNOT");
         H(t);
         if (IsSeparableZ(t)) {
             CZ(c, t);
@@ -314,6 +316,8 @@ public:
     /// Apply a CZ gate with control and target
     void CZ(bitLenInt c, bitLenInt t)
     {
+        ThrowIfQubitInvalid(c, "QUnitClifford::CZ");
+        ThrowIfQubitInvalid(t, "QUnitClifford::CZ");
         const real1_f p = Prob(t);
         if (p > (3 * ONE_R1_F / 4)) {
             return Z(c);
@@ -326,6 +330,8 @@ public:
     /// Apply an (anti-)CNOT gate with control and target
     void AntiCNOT(bitLenInt c, bitLenInt t)
     {
+        ThrowIfQubitInvalid(c, "QUnitClifford::AntiCNOT");
+        ThrowIfQubitInvalid(t, "QUnitClifford::AntiCNOT");
         H(t);
         if (IsSeparableZ(t)) {
             AntiCZ(c, t);
@@ -352,6 +358,8 @@ public:
     /// Apply an (anti-)CZ gate with control and target
     void AntiCZ(bitLenInt c, bitLenInt t)
     {
+        ThrowIfQubitInvalid(c, "QUnitClifford::AntiCZ");
+        ThrowIfQubitInvalid(t, "QUnitClifford::AntiCZ");
         const real1_f p = Prob(t);
         if (p > (3 * ONE_R1_F / 4)) {
             return Phase(-ONE_CMPLX, ONE_CMPLX, c);
@@ -550,6 +558,8 @@ public:
     void Decompose(bitLenInt start, QUnitCliffordPtr dest) { Detach(start, dest->GetQubitCount(), dest); }
     QInterfacePtr Decompose(bitLenInt start, bitLenInt length)
     {
+        ThrowIfBadBitRange(start, length, qubitCount, "QUnitClifford::Decompose range is out-of-bounds!");
+
         QUnitCliffordPtr dest = std::make_shared<QUnitClifford>(
             length, ZERO_BCI, rand_generator, CMPLX_DEFAULT_ARG, doNormalize, randGlobalPhase, false, 0U, useRDRAND);
 
diff --git a/src/qstabilizer.cpp b/src/qstabilizer.cpp
index c23b8d3..a672aa4 100644
--- a/src/qstabilizer.cpp
+++ b/src/qstabilizer.cpp
@@ -500,6 +500,10 @@ void QStabilizer::GetProbs(real1* outputProbs)
 /// Convert the state to ket notation (warning: could be huge!)
 complex QStabilizer::GetAmplitude(const bitCapInt& perm)
 {
+    if (bi_compare(perm, maxQPower) >= 0) {
+        throw std::invalid_argument("QStabilizer::GetAmplitude argument is out-of-bounds!");
+    }
+
     Finish();
 
     // log_2 of number of nonzero basis states
@@ -823,6 +827,10 @@ real1_f QStabilizer::ProbPermRdm(const bitCapInt& _perm, bitLenInt ancillaeStart
 
 real1_f QStabilizer::ProbMask(const bitCapInt& mask, const bitCapInt& perm)
 {
+    if (bi_compare(mask, maxQPower) >= 0) {
+        throw std::invalid_argument("QStabilizer::ProbMask argument is out-of-bounds!");
+    }
+
     Finish();
 
     // log_2 of number of nonzero basis states
@@ -854,6 +862,9 @@ real1_f QStabilizer::ProbMask(const bitCapInt& mask, const bitCapInt& perm)
 /// Apply a CNOT gate with control and target
 void QStabilizer::CNOT(bitLenInt c, bitLenInt t)
 {
+    ThrowIfQbIdIsBad(c, qubitCount, "QStabilizer::CNOT qubit index is out-of-bounds!");
+    ThrowIfQbIdIsBad(t, qubitCount, "QStabilizer::CNOT qubit index is out-of-bounds!");
+
     if (!randGlobalPhase) {
         H(t);
         CZ(c, t);
@@ -884,6 +895,9 @@ void QStabilizer::CNOT(bitLenInt c, bitLenInt t)
 /// Apply an (anti-)CNOT gate with control and target
 void QStabilizer::AntiCNOT(bitLenInt c, bitLenInt t)
 {
+    ThrowIfQbIdIsBad(c, qubitCount, "QStabilizer::AntiCNOT qubit index is out-of-bounds!");
+    ThrowIfQbIdIsBad(t, qubitCount, "QStabilizer::AntiCNOT qubit index is out-of-bounds!");
+
     if (!randGlobalPhase) {
         H(t);
         AntiCZ(c, t);
@@ -914,6 +928,9 @@ void QStabilizer::AntiCNOT(bitLenInt c, bitLenInt t)
 /// Apply a CY gate with control and target
 void QStabilizer::CY(bitLenInt c, bitLenInt t)
 {
+    ThrowIfQbIdIsBad(c, qubitCount, "QStabilizer::CY qubit index is out-of-bounds!");
+    ThrowIfQbIdIsBad(t, qubitCount, "QStabilizer::CY qubit index is out-of-bounds!");
+
     if (!randGlobalPhase) {
         IS(t);
         CNOT(c, t);
@@ -948,6 +965,9 @@ void QStabilizer::CY(bitLenInt c, bitLenInt t)
 /// Apply an (anti-)CY gate with control and target
 void QStabilizer::AntiCY(bitLenInt c, bitLenInt t)
 {
+    ThrowIfQbIdIsBad(c, qubitCount, "QStabilizer::AntiCY qubit index is out-of-bounds!");
+    ThrowIfQbIdIsBad(t, qubitCount, "QStabilizer::AntiCY qubit index is out-of-bounds!");
+
     if (!randGlobalPhase) {
         IS(t);
         AntiCNOT(c, t);
@@ -982,6 +1002,9 @@ void QStabilizer::AntiCY(bitLenInt c, bitLenInt t)
 /// Apply a CZ gate with control and target
 void QStabilizer::CZ(bitLenInt c, bitLenInt t)
 {
+    ThrowIfQbIdIsBad(c, qubitCount, "QStabilizer::CZ qubit index is out-of-bounds!");
+    ThrowIfQbIdIsBad(t, qubitCount, "QStabilizer::CZ qubit index is out-of-bounds!");
+
     if (!randGlobalPhase && IsSeparableZ(c)) {
         if (M(c)) {
             Z(t);
@@ -1021,6 +1044,9 @@ void QStabilizer::CZ(bitLenInt c, bitLenInt t)
 /// Apply an (anti-)CZ gate with control and target
 void QStabilizer::AntiCZ(bitLenInt c, bitLenInt t)
 {
+    ThrowIfQbIdIsBad(c, qubitCount, "QStabilizer::AntiCZ qubit index is out-of-bounds!");
+    ThrowIfQbIdIsBad(t, qubitCount, "QStabilizer::AntiCZ qubit index is out-of-bounds!");
+
     if (!randGlobalPhase && IsSeparableZ(c)) {
         if (!M(c)) {
             Z(t);
@@ -1058,6 +1084,9 @@ void QStabilizer::AntiCZ(bitLenInt c, bitLenInt t)
 
 void QStabilizer::Swap(bitLenInt c, bitLenInt t)
 {
+    ThrowIfQbIdIsBad(c, qubitCount, "QStabilizer::Swap qubit index is out-of-bounds!");
+    ThrowIfQbIdIsBad(t, qubitCount, "QStabilizer::Swap qubit index is out-of-bounds!");
+
     if (c == t) {
         return;
     }
@@ -1078,6 +1107,9 @@ void QStabilizer::Swap(bitLenInt c, bitLenInt t)
 
 void QStabilizer::ISwap(bitLenInt c, bitLenInt t)
 {
+    ThrowIfQbIdIsBad(c, qubitCount, "QStabilizer::ISwap qubit index is out-of-bounds!");
+    ThrowIfQbIdIsBad(t, qubitCount, "QStabilizer::ISwap qubit index is out-of-bounds!");
+
     if (c == t) {
         return;
     }
@@ -1120,6 +1152,9 @@ void QStabilizer::ISwap(bitLenInt c, bitLenInt t)
 
 void QStabilizer::IISwap(bitLenInt c, bitLenInt t)
 {
+    ThrowIfQbIdIsBad(c, qubitCount, "QStabilizer::IISwap qubit index is out-of-bounds!");
+    ThrowIfQbIdIsBad(t, qubitCount, "QStabilizer::IISwap qubit index is out-of-bounds!");
+
     if (c == t) {
         return;
     }
@@ -1600,6 +1635,8 @@ bitLenInt QStabilizer::Compose(QStabilizerPtr toCopy, bitLenInt start)
 }
 QInterfacePtr QStabilizer::Decompose(bitLenInt start, bitLenInt length)
 {
+    ThrowIfBadBitRange(start, length, qubitCount, "QStabilizer::Decompose range is out-of-bounds!");
+
     QStabilizerPtr dest = std::make_shared<QStabilizer>(length, ZERO_BCI, rand_generator, CMPLX_DEFAULT_ARG, false,
         randGlobalPhase, false, -1, !!hardware_rand_generator);
     Decompose(start, dest);
diff --git a/src/qunitclifford.cpp b/src/qunitclifford.cpp
index 572547a..b8135a8 100644
--- a/src/qunitclifford.cpp
+++ b/src/qunitclifford.cpp
@@ -12,6 +12,8 @@
 
 #include "qunitclifford.hpp"
 
+#include <algorithm>
+
 #define IS_0_R1(r) (abs(r) <= REAL1_EPSILON)
 #define IS_1_R1(r) (abs(r) <= REAL1_EPSILON)
 
@@ -155,6 +157,10 @@ real1_f QUnitClifford::ProbPermRdm(const bitCapInt& perm, bitLenInt ancillaeStar
 
 real1_f QUnitClifford::ProbMask(const bitCapInt& mask, const bitCapInt& perm)
 {
+    if (bi_compare(mask, maxQPower) >= 0) {
+        throw std::invalid_argument("QUnitClifford::ProbMask mask out-of-bounds!");
+    }
+
     bitCapInt v = mask; // count the number of bits set in v
     std::vector<bitLenInt> bits;
     while (bi_compare_0(v) != 0) {
@@ -710,6 +716,11 @@ void QUnitClifford::MultiShotMeasureMask(
         return;
     }
 
+    std::vector<bitLenInt> qIndices(qPowers.size());
+    std::transform(qPowers.begin(), qPowers.end(), qIndices.begin(), log2);
+    ThrowIfQbIdArrayIsBad(qIndices, qubitCount,
+        "QUnitClifford::MultiShotMeasureMask parameter qPowers array values must be within allocated qubit bounds!");
+
     if (qPowers.size() != shards.size()) {
         QStabilizerPtr unit = shards[log2(qPowers[0U])].unit;
         if (unit) {
-- 
2.43.0


From 9ac1277131588f356435cdde4cfba0ca3a15676d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:51 +0000
Subject: [PATCH 102/106] fix: a composition that is refused for its size
 leaves the qubit order as it was

---
 src/qinterface/qinterface.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/qinterface/qinterface.cpp b/src/qinterface/qinterface.cpp
index 61fe5a6..da95ed4 100644
--- a/src/qinterface/qinterface.cpp
+++ b/src/qinterface/qinterface.cpp
@@ -438,7 +438,13 @@ bitLenInt QInterface::Compose(QInterfacePtr toCopy, bitLenInt start)
 
     const bitLenInt origSize = qubitCount;
     ROL(origSize - start, 0, qubitCount);
-    Compose(toCopy);
+    try {
+        Compose(toCopy);
+    } catch (...) {
+        // Restore the original qubit order.
+        ROR(origSize - start, 0, qubitCount);
+        throw;
+    }
     ROR(origSize - start, 0, qubitCount);
 
     return start;
-- 
2.43.0


From 51565574621c9ad841846764e38ecc29414630fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:51 +0000
Subject: [PATCH 103/106] fix: QUnit::SetQuantumState() accounts for the right
 sign in its fidelity of the -i state

---
 src/qunit.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qunit.cpp b/src/qunit.cpp
index 1a03987..157f477 100644
--- a/src/qunit.cpp
+++ b/src/qunit.cpp
@@ -176,7 +176,7 @@ void QUnit::SetQuantumState(const complex* inputState)
             shard.amp0 /= abs(shard.amp0);
             shard.amp1 = ZERO_R1;
         } else if (IS_AMP_0((I_CMPLX * in0) + in1)) {
-            logFidelity += (double)log(clampProb(ONE_R1_F - norm((I_CMPLX * in0) - in1)));
+            logFidelity += (double)log(clampProb(ONE_R1_F - norm((I_CMPLX * in0) + in1)));
             shard.pauliBasis = PauliY;
             shard.amp1 = shard.amp0 / abs(shard.amp0);
             shard.amp0 = ZERO_R1;
-- 
2.43.0


From 167cfe512d78ea63969859ff7a34b32e0514f537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:04 +0000
Subject: [PATCH 104/106] fix: uniformly controlled gates on noisy and hybrid
 simulators override the interface's method

---
 include/qbdthybrid.hpp       | 2 +-
 include/qhybrid.hpp          | 2 +-
 include/qinterface_noisy.hpp | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/qbdthybrid.hpp b/include/qbdthybrid.hpp
index 2f95390..8bae28a 100644
--- a/include/qbdthybrid.hpp
+++ b/include/qbdthybrid.hpp
@@ -377,7 +377,7 @@ public:
 
     using QInterface::UniformlyControlledSingleBit;
     void UniformlyControlledSingleBit(const std::vector<bitLenInt>& controls, bitLenInt qubitIndex,
-        const complex* mtrxs, const std::vector<bitCapInt> mtrxSkipPowers, const bitCapInt& mtrxSkipValueMask)
+        const complex* mtrxs, const std::vector<bitCapInt>& mtrxSkipPowers, const bitCapInt& mtrxSkipValueMask)
     {
         if (qbdt) {
             qbdt->UniformlyControlledSingleBit(controls, qubitIndex, mtrxs, mtrxSkipPowers, mtrxSkipValueMask);
diff --git a/include/qhybrid.hpp b/include/qhybrid.hpp
index bb655df..3041e02 100644
--- a/include/qhybrid.hpp
+++ b/include/qhybrid.hpp
@@ -323,7 +323,7 @@ public:
 
     using QEngine::UniformlyControlledSingleBit;
     void UniformlyControlledSingleBit(const std::vector<bitLenInt>& controls, bitLenInt qubitIndex,
-        const complex* mtrxs, const std::vector<bitCapInt> mtrxSkipPowers, const bitCapInt& mtrxSkipValueMask)
+        const complex* mtrxs, const std::vector<bitCapInt>& mtrxSkipPowers, const bitCapInt& mtrxSkipValueMask)
     {
         engine->UniformlyControlledSingleBit(controls, qubitIndex, mtrxs, mtrxSkipPowers, mtrxSkipValueMask);
     }
diff --git a/include/qinterface_noisy.hpp b/include/qinterface_noisy.hpp
index 3faea2e..627e37c 100644
--- a/include/qinterface_noisy.hpp
+++ b/include/qinterface_noisy.hpp
@@ -224,7 +224,7 @@ public:
 
     using QInterface::UniformlyControlledSingleBit;
     void UniformlyControlledSingleBit(const std::vector<bitLenInt>& controls, bitLenInt qubitIndex,
-        const complex* mtrxs, const std::vector<bitCapInt> mtrxSkipPowers, const bitCapInt& mtrxSkipValueMask)
+        const complex* mtrxs, const std::vector<bitCapInt>& mtrxSkipPowers, const bitCapInt& mtrxSkipValueMask)
     {
         engine->UniformlyControlledSingleBit(controls, qubitIndex, mtrxs, mtrxSkipPowers, mtrxSkipValueMask);
         Apply1QbNoise(qubitIndex);
-- 
2.43.0


From 9548f2ee636aa23db0e0a7e44d833d1743752ed9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:04 +0000
Subject: [PATCH 105/106] fix: QUnit checks its memory limit before it changes
 the state, and updates all targets of an approximated gate

---
 src/qunit.cpp | 53 +++++++++++++++++++++++++++++++--------------------
 1 file changed, 32 insertions(+), 21 deletions(-)

diff --git a/src/qunit.cpp b/src/qunit.cpp
index 157f477..c443380 100644
--- a/src/qunit.cpp
+++ b/src/qunit.cpp
@@ -414,7 +414,33 @@ QInterfacePtr QUnit::EntangleInCurrentBasis(
         throw std::invalid_argument("QUnit::EntangleInCurrentBasis() vector argument cannot be empty!");
     }
 
-    const QUnitPtr backupCopy = std::dynamic_pointer_cast<QUnit>(Copy());
+    // Check the limits before anything changes, (counting qubits that have no unit yet as units of one qubit).
+    bitLenInt logMem = 0U;
+    std::set<QInterfacePtr> foundUnits;
+    std::set<bitLenInt> foundBits;
+    for (auto bit = first; bit < last; ++bit) {
+        const QInterfacePtr& unit = shards[**bit].unit;
+        if (!unit) {
+            if (foundBits.insert(**bit).second) {
+                ++logMem;
+            }
+        } else if (foundUnits.insert(unit).second) {
+            logMem += unit->GetQubitCount();
+        }
+    }
+
+    bool isThrow = false;
+    if (isCpu) {
+        isThrow = logMem > QRACK_MAX_CPU_QB_DEFAULT;
+    } else if (isSinglePage) {
+        isThrow = logMem > QRACK_MAX_PAGE_QB_DEFAULT;
+    } else {
+        isThrow = logMem > QRACK_MAX_PAGING_QB_DEFAULT;
+    }
+
+    if (isThrow) {
+        throw bad_alloc("RAM limits exceeded in QUnit::EntangleInCurrentBasis()");
+    }
 
     for (auto bit = first; bit < last; ++bit) {
         EndEmulation(**bit);
@@ -427,27 +453,10 @@ QInterfacePtr QUnit::EntangleInCurrentBasis(
     std::map<QInterfacePtr, bool> found;
 
     // Walk through all of the supplied bits and create a unique list to compose.
-    bitLenInt logMem = 0U;
     for (auto bit = first; bit < last; ++bit) {
         if (found.find(shards[**bit].unit) == found.end()) {
             found[shards[**bit].unit] = true;
             units.push_back(shards[**bit].unit);
-
-            logMem += units.back()->GetQubitCount();
-
-            bool isThrow = false;
-            if (isCpu) {
-                isThrow = logMem > QRACK_MAX_CPU_QB_DEFAULT;
-            } else if (isSinglePage) {
-                isThrow = logMem > QRACK_MAX_PAGE_QB_DEFAULT;
-            } else {
-                isThrow = logMem > QRACK_MAX_PAGING_QB_DEFAULT;
-            }
-
-            if (isThrow) {
-                Copy(backupCopy);
-                throw bad_alloc("RAM limits exceeded in QUnit::EntangleInCurrentBasis()");
-            }
         }
     }
 
@@ -2749,9 +2758,11 @@ void QUnit::ApplyEitherControlled(
             p *= Prob(c);
         }
 
-        QEngineShard& shard = shards[targets[0]];
-        shard.isPhaseDirty = true;
-        shard.isProbDirty |= (shard.pauliBasis != PauliZ) || !isPhase;
+        for (const bitLenInt& t : targets) {
+            QEngineShard& shard = shards[t];
+            shard.isPhaseDirty = true;
+            shard.isProbDirty |= (shard.pauliBasis != PauliZ) || !isPhase;
+        }
 
         // Act the classical shadow of the gate payload.
         if ((2 * p) > ONE_R1_F) {
-- 
2.43.0


From 8da207ebf415fab95f77b4ae5967607c36314b2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:35 +0000
Subject: [PATCH 106/106] fix: the random numbers that a measurement draws
 don't depend on how a parallel sum is rounded

---
 src/qengine/qengine.cpp | 13 ++++++++++---
 src/qpager.cpp          | 12 +++++++++---
 2 files changed, 19 insertions(+), 6 deletions(-)

diff --git a/src/qengine/qengine.cpp b/src/qengine/qengine.cpp
index 2ca107a..7c7eaa9 100644
--- a/src/qengine/qengine.cpp
+++ b/src/qengine/qengine.cpp
@@ -95,12 +95,14 @@ bool QEngine::ForceM(bitLenInt qubit, bool result, bool doForce, bool doApply)
 
     const real1_f oneChance = Prob(qubit);
     if (!doForce) {
+        // (The random numbers drawn can't depend on how the (parallel) sum is rounded, for reproducibility.)
+        const real1_f prob = Rand();
         if (oneChance >= ONE_R1) {
             result = true;
         } else if (oneChance <= ZERO_R1) {
             result = false;
         } else {
-            result = (Rand() <= oneChance);
+            result = (prob <= oneChance);
         }
     }
 
@@ -109,9 +111,14 @@ bool QEngine::ForceM(bitLenInt qubit, bool result, bool doForce, bool doApply)
         throw std::invalid_argument("QEngine::ForceM() forced a measurement result with 0 probability!");
     }
 
-    if (doApply && ((ONE_R1 - nrmlzr) > REAL1_EPSILON)) {
+    if (!doApply) {
+        return result;
+    }
+
+    const complex phase = GetNonunitaryPhase();
+    if ((ONE_R1 - nrmlzr) > REAL1_EPSILON) {
         const bitCapInt qPower = pow2(qubit);
-        ApplyM(qPower, result, GetNonunitaryPhase() / (real1)(std::sqrt((real1_s)nrmlzr)));
+        ApplyM(qPower, result, phase / (real1)(std::sqrt((real1_s)nrmlzr)));
     }
 
     return result;
diff --git a/src/qpager.cpp b/src/qpager.cpp
index 5da7667..fec8139 100644
--- a/src/qpager.cpp
+++ b/src/qpager.cpp
@@ -1125,12 +1125,13 @@ bool QPager::ForceM(bitLenInt qubit, bool result, bool doForce, bool doApply)
 
     real1_f oneChance = Prob(qubit);
     if (!doForce) {
+        // (The random numbers drawn can't depend on how the (parallel) sum is rounded, for reproducibility.)
+        const real1_f prob = Rand();
         if (oneChance >= ONE_R1) {
             result = true;
         } else if (oneChance <= ZERO_R1) {
             result = false;
         } else {
-            real1_f prob = Rand();
             result = (prob <= oneChance);
         }
     }
@@ -1141,11 +1142,16 @@ bool QPager::ForceM(bitLenInt qubit, bool result, bool doForce, bool doApply)
         throw std::invalid_argument("QPager::ForceM() forced a measurement result with 0 probability");
     }
 
-    if (!doApply || ((ONE_R1 - nrmlzr) <= ZERO_R1)) {
+    if (!doApply) {
         return result;
     }
 
-    const complex nrm = GetNonunitaryPhase() / (real1)std::sqrt((real1_s)nrmlzr);
+    const complex phase = GetNonunitaryPhase();
+    if ((ONE_R1 - nrmlzr) <= ZERO_R1) {
+        return result;
+    }
+
+    const complex nrm = phase / (real1)std::sqrt((real1_s)nrmlzr);
 
     const bitLenInt qpp = qubitsPerPage();
     if (qubit < qpp) {
-- 
2.43.0

