From cf5f0e169d0653161024ffb427149646e62f64e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:06 +0000
Subject: [PATCH 01/23] fix: shift the signals before the Box Cox
 transformation when the smallest one is zero

---
 otpod/_pod.py                              | 2 +-
 otpod/_univariate_linear_model_analysis.py | 2 +-
 otpod/_univariate_linear_model_pod.py      | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/otpod/_pod.py b/otpod/_pod.py
index 8b86305..f716d76 100755
--- a/otpod/_pod.py
+++ b/otpod/_pod.py
@@ -318,7 +318,7 @@ class POD(object):
         # Compute Box Cox if enabled
         shift = 0.0
         if boxCox:
-            if signals.getMin()[0] < 0:
+            if signals.getMin()[0] <= 0:
                 shift = -signals.getMin()[0] + 100
             # optimization required, get optimal lambda without graph
             self._lambdaBoxCox, self._graphBoxCox = computeBoxCox(
diff --git a/otpod/_univariate_linear_model_analysis.py b/otpod/_univariate_linear_model_analysis.py
index 9a623ef..f963628 100755
--- a/otpod/_univariate_linear_model_analysis.py
+++ b/otpod/_univariate_linear_model_analysis.py
@@ -211,7 +211,7 @@ class UnivariateLinearModelAnalysis:
         ###################### Box Cox transformation ##########################
         # Compute Box Cox if enabled
         if self._boxCox:
-            if signals.getMin()[0] < 0:
+            if signals.getMin()[0] <= 0:
                 shift = -signals.getMin()[0] + 100
             else:
                 shift = 0.0
diff --git a/otpod/_univariate_linear_model_pod.py b/otpod/_univariate_linear_model_pod.py
index 485c06b..d707042 100755
--- a/otpod/_univariate_linear_model_pod.py
+++ b/otpod/_univariate_linear_model_pod.py
@@ -558,7 +558,7 @@ def _computeLinearModel(
     ###################### Box Cox transformation ##########################
     # Compute Box Cox if enabled
     if boxCox:
-        if signals.getMin()[0] < 0:
+        if signals.getMin()[0] <= 0:
             shift = -signals.getMin()[0] + 100
         else:
             shift = 0.0
-- 
2.43.0


From 5ce751b373522ca2b09ba4606f68880dfc3fd75a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:06 +0000
Subject: [PATCH 02/23] fix: name the detection sizes after the requested
 levels (0.29 gave a28)

---
 otpod/_pod.py                     | 12 ++++++------
 otpod/_pod_summary.py             |  6 +++---
 otpod/_quantile_regression_pod.py |  6 +++---
 3 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/otpod/_pod.py b/otpod/_pod.py
index f716d76..3a2e020 100755
--- a/otpod/_pod.py
+++ b/otpod/_pod.py
@@ -122,7 +122,7 @@ class POD(object):
         detectionSize = ot.PointWithDescription(
             1, ot.Brent().solve(model, probabilityLevel, defectMin, defectMax)
         )
-        description = ["a" + str(int(probabilityLevel * 100))]
+        description = ["a" + str(int(round(probabilityLevel * 100, 6)))]
 
         # compute 'a90_95'
         if confidenceLevel is not None:
@@ -139,9 +139,9 @@ class POD(object):
             )
             description.append(
                 "a"
-                + str(int(probabilityLevel * 100))
+                + str(int(round(probabilityLevel * 100, 6)))
                 + "/"
-                + str(int(confidenceLevel * 100))
+                + str(int(round(confidenceLevel * 100, 6)))
             )
         # add description to the Point
         detectionSize.setDescription(description)
@@ -230,7 +230,7 @@ class POD(object):
                 "red",
                 "dashed",
                 "a"
-                + str(int(probabilityLevel * 100))
+                + str(int(round(probabilityLevel * 100, 6)))
                 + " : "
                 + str(round(detectionSize[0], 3)),
             )
@@ -242,9 +242,9 @@ class POD(object):
                     "blue",
                     "dashed",
                     "a"
-                    + str(int(probabilityLevel * 100))
+                    + str(int(round(probabilityLevel * 100, 6)))
                     + "/"
-                    + str(int(confidenceLevel * 100))
+                    + str(int(round(confidenceLevel * 100, 6)))
                     + " : "
                     + str(round(detectionSize[1], 3)),
                 )
diff --git a/otpod/_pod_summary.py b/otpod/_pod_summary.py
index 7a95f2d..f0384a6 100755
--- a/otpod/_pod_summary.py
+++ b/otpod/_pod_summary.py
@@ -569,11 +569,11 @@ class PODSummary:
         self._dataPOD = [
             [
                 "",
-                "a" + str(int(probabilityLevel * 100)),
+                "a" + str(int(round(probabilityLevel * 100, 6))),
                 "a"
-                + str(int(probabilityLevel * 100))
+                + str(int(round(probabilityLevel * 100, 6)))
                 + "/"
-                + str(int(confidenceLevel * 100)),
+                + str(int(round(confidenceLevel * 100, 6))),
             ]
         ]
 
diff --git a/otpod/_quantile_regression_pod.py b/otpod/_quantile_regression_pod.py
index b9bd156..1eb38cf 100755
--- a/otpod/_quantile_regression_pod.py
+++ b/otpod/_quantile_regression_pod.py
@@ -305,7 +305,7 @@ class QuantileRegressionPOD(POD):
                 "The POD model does not contain, for the given "
                 + "defect interval, the wanted probability level."
             )
-        description = ["a" + str(int(probabilityLevel * 100))]
+        description = ["a" + str(int(round(probabilityLevel * 100, 6)))]
 
         # compute 'a90_95'
         if confidenceLevel is not None:
@@ -323,9 +323,9 @@ class QuantileRegressionPOD(POD):
             )
             description.append(
                 "a"
-                + str(int(probabilityLevel * 100))
+                + str(int(round(probabilityLevel * 100, 6)))
                 + "/"
-                + str(int(confidenceLevel * 100))
+                + str(int(round(confidenceLevel * 100, 6)))
             )
         # add description to the Point
         detectionSize.setDescription(description)
-- 
2.43.0


From 0600310ee598572dba580eef9c45fc3a93d4e366 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:08:57 +0000
Subject: [PATCH 03/23] fix: use the Box Cox parameter given by the user
 instead of estimating it again

---
 otpod/_pod.py                              |  6 +++++-
 otpod/_univariate_linear_model_analysis.py | 13 +++++++------
 otpod/_univariate_linear_model_pod.py      | 19 +++++++++++++++++--
 3 files changed, 29 insertions(+), 9 deletions(-)

diff --git a/otpod/_pod.py b/otpod/_pod.py
index 3a2e020..0aeb20b 100755
--- a/otpod/_pod.py
+++ b/otpod/_pod.py
@@ -28,12 +28,14 @@ class POD(object):
         self._saturationThres = saturationThres
 
         # if Box Cox is a float the transformation is enabled with the given value
-        if type(boxCox) is float:
+        if isinstance(boxCox, float):
             self._lambdaBoxCox = boxCox
             self._boxCox = True
         else:
             self._lambdaBoxCox = None
             self._boxCox = boxCox
+        # parameter given by the user, None if it must be estimated
+        self._givenBoxCox = self._lambdaBoxCox
 
         self._size = self._inputSample.getSize()
         self._dim = self._inputSample.getDimension()
@@ -324,6 +326,8 @@ class POD(object):
             self._lambdaBoxCox, self._graphBoxCox = computeBoxCox(
                 inputSample, signals, shift
             )
+            if self._givenBoxCox is not None:
+                self._lambdaBoxCox = self._givenBoxCox
 
             # Transformation of data
             boxCoxTransform = ot.BoxCoxTransform([self._lambdaBoxCox])
diff --git a/otpod/_univariate_linear_model_analysis.py b/otpod/_univariate_linear_model_analysis.py
index f963628..cdbb0f2 100755
--- a/otpod/_univariate_linear_model_analysis.py
+++ b/otpod/_univariate_linear_model_analysis.py
@@ -147,12 +147,14 @@ class UnivariateLinearModelAnalysis:
             self._resDistFact = resDistFact
 
         # if Box Cox is a float the transformation is enabled with the given value
-        if type(boxCox) is float:
+        if isinstance(boxCox, float):
             self._lambdaBoxCox = boxCox
             self._boxCox = True
         else:
             self._lambdaBoxCox = None
             self._boxCox = boxCox
+        # parameter given by the user, None if it must be estimated
+        self._givenBoxCox = self._lambdaBoxCox
 
         self._size = self._inputSample.getSize()
         self._dim = self._inputSample.getDimension()
@@ -216,11 +218,10 @@ class UnivariateLinearModelAnalysis:
             else:
                 shift = 0.0
 
-            if self._lambdaBoxCox is None:
-                # optimization required, get optimal lambda and graph
-                self._lambdaBoxCox, self._graphBoxCox = computeBoxCox(
-                    defects, signals, shift
-                )
+            # get optimal lambda and graph, the given lambda prevails if any
+            lambdaBoxCox, self._graphBoxCox = computeBoxCox(defects, signals, shift)
+            if self._givenBoxCox is None:
+                self._lambdaBoxCox = lambdaBoxCox
 
             # Transformation of data
             boxCoxTransform = ot.BoxCoxTransform([self._lambdaBoxCox])
diff --git a/otpod/_univariate_linear_model_pod.py b/otpod/_univariate_linear_model_pod.py
index d707042..9ed28b9 100755
--- a/otpod/_univariate_linear_model_pod.py
+++ b/otpod/_univariate_linear_model_pod.py
@@ -108,7 +108,9 @@ class UnivariateLinearModelPOD(POD):
             outputSample = self._analysis.getOutputSample()
             noiseThres = self._analysis.getNoiseThreshold()
             saturationThres = self._analysis.getSaturationThreshold()
-            boxCox = self._analysis.getBoxCoxParameter()
+            boxCox = self._analysis._givenBoxCox
+            if boxCox is None:
+                boxCox = self._analysis._boxCox
             self._resDistFact = self._analysis._resDistFact
         else:
             # residuals distribution factory attributes
@@ -157,6 +159,7 @@ class UnivariateLinearModelPOD(POD):
             self._saturationThres,
             self._boxCox,
             self._censored,
+            self._givenBoxCox,
         )
         # get results
         self._defects = results["defects"]
@@ -480,6 +483,7 @@ class UnivariateLinearModelPOD(POD):
                 resDistFact,
                 boxCox,
                 censored,
+                givenBoxCox,
             ):
 
                 results = _computeLinearModel(
@@ -490,6 +494,7 @@ class UnivariateLinearModelPOD(POD):
                     saturationThres,
                     boxCox,
                     censored,
+                    givenBoxCox,
                 )
 
                 self.intercept = results["intercept"]
@@ -521,6 +526,7 @@ class UnivariateLinearModelPOD(POD):
                 self._resDistFact,
                 self._boxCox,
                 self._censored,
+                self._givenBoxCox,
             )
 
             PODcoll.append(model.PODmodel)
@@ -536,7 +542,14 @@ class UnivariateLinearModelPOD(POD):
 
 
 def _computeLinearModel(
-    inputSample, outputSample, detection, noiseThres, saturationThres, boxCox, censored
+    inputSample,
+    outputSample,
+    detection,
+    noiseThres,
+    saturationThres,
+    boxCox,
+    censored,
+    givenBoxCox=None,
 ):
     """
     Run filerCensoredData and build the linear regression model.
@@ -565,6 +578,8 @@ def _computeLinearModel(
 
         # optimization required, get optimal lambda without graph
         lambdaBoxCox, graphBoxCox = computeBoxCox(defects, signals, shift)
+        if givenBoxCox is not None:
+            lambdaBoxCox = givenBoxCox
 
         # Transformation of data
         boxCoxTransform = ot.BoxCoxTransform([lambdaBoxCox])
-- 
2.43.0


From e3d696d85918979674300dde74cefcb87ec9e928 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:19:57 +0000
Subject: [PATCH 04/23] fix: keep the previous defect sizes when the given ones
 are rejected

---
 otpod/_adaptive_hitmiss_pod.py | 2 +-
 otpod/_kriging_tools.py        | 2 +-
 otpod/_pli_pod.py              | 2 +-
 otpod/_polynomial_chaos_pod.py | 2 +-
 otpod/_sobol_indices.py        | 2 +-
 5 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/otpod/_adaptive_hitmiss_pod.py b/otpod/_adaptive_hitmiss_pod.py
index 8872e83..d8a5ab2 100755
--- a/otpod/_adaptive_hitmiss_pod.py
+++ b/otpod/_adaptive_hitmiss_pod.py
@@ -737,7 +737,6 @@ class AdaptiveHitMissPOD(POD):
         """
         size = np.hstack(np.array(size))
         size.sort()
-        self._defectSizes = size.copy()
         minMin = self._input[:, 0].getMin()[0]
         maxMax = self._input[:, 0].getMax()[0]
         if size.max() > maxMax or size.min() < minMin:
@@ -746,6 +745,7 @@ class AdaptiveHitMissPOD(POD):
                 + "{:0.4f} ".format(np.ceil(minMin * 10000) / 10000)
                 + "and {:0.4f}.".format(np.floor(maxMax * 10000) / 10000)
             )
+        self._defectSizes = size.copy()
         self._defectNumber = self._defectSizes.shape[0]
 
     def setDistribution(self, distribution):
diff --git a/otpod/_kriging_tools.py b/otpod/_kriging_tools.py
index 035c97c..453c88c 100755
--- a/otpod/_kriging_tools.py
+++ b/otpod/_kriging_tools.py
@@ -256,7 +256,6 @@ class KrigingBase:
         """
         size = np.hstack(np.array(size))
         size.sort()
-        self._defectSizes = size.copy()
         minMin = self._input[:, 0].getMin()[0]
         maxMax = self._input[:, 0].getMax()[0]
         if size.max() > maxMax or size.min() < minMin:
@@ -265,6 +264,7 @@ class KrigingBase:
                 + "{:0.4f} ".format(np.ceil(minMin * 10000) / 10000)
                 + "and {:0.4f}.".format(np.floor(maxMax * 10000) / 10000)
             )
+        self._defectSizes = size.copy()
         self._defectNumber = self._defectSizes.shape[0]
 
     def setDistribution(self, distribution):
diff --git a/otpod/_pli_pod.py b/otpod/_pli_pod.py
index 898f505..d11f708 100755
--- a/otpod/_pli_pod.py
+++ b/otpod/_pli_pod.py
@@ -154,7 +154,6 @@ class PLIBase:
         """
         size = np.hstack(np.array(size))
         size.sort()
-        self._defectSizes = size.copy()
         minMin = self._POD._input[:, 0].getMin()[0]
         maxMax = self._POD._input[:, 0].getMax()[0]
         if size.max() > maxMax or size.min() < minMin:
@@ -163,6 +162,7 @@ class PLIBase:
                 + "{:0.4f} ".format(np.ceil(minMin * 10000) / 10000)
                 + "and {:0.4f}.".format(np.floor(maxMax * 10000) / 10000)
             )
+        self._defectSizes = size.copy()
         # update defect number
         self._defectNumber = self._defectSizes.shape[0]
         # update result matrix
diff --git a/otpod/_polynomial_chaos_pod.py b/otpod/_polynomial_chaos_pod.py
index 5a3beb2..9a4ccae 100755
--- a/otpod/_polynomial_chaos_pod.py
+++ b/otpod/_polynomial_chaos_pod.py
@@ -480,7 +480,6 @@ class PolynomialChaosPOD(POD):
         """
         size = np.hstack(np.array(size))
         size.sort()
-        self._defectSizes = size.copy()
         minMin = self._input[:, 0].getMin()[0]
         maxMax = self._input[:, 0].getMax()[0]
         if size.max() > maxMax or size.min() < minMin:
@@ -489,6 +488,7 @@ class PolynomialChaosPOD(POD):
                 + "{:0.4f} ".format(np.ceil(minMin * 10000) / 10000)
                 + "and {:0.4f}.".format(np.floor(maxMax * 10000) / 10000)
             )
+        self._defectSizes = size.copy()
         self._defectNumber = self._defectSizes.shape[0]
 
     def setDistribution(self, distribution):
diff --git a/otpod/_sobol_indices.py b/otpod/_sobol_indices.py
index 3b3fd0e..d8b869c 100755
--- a/otpod/_sobol_indices.py
+++ b/otpod/_sobol_indices.py
@@ -381,7 +381,6 @@ class SobolIndices:
         """
         size = np.hstack(np.array(size))
         size.sort()
-        self._defectSizes = size.copy()
         minMin = self._POD._input[:, 0].getMin()[0]
         maxMax = self._POD._input[:, 0].getMax()[0]
         if size.max() > maxMax or size.min() < minMin:
@@ -390,6 +389,7 @@ class SobolIndices:
                 + "{:0.4f} ".format(np.ceil(minMin * 10000) / 10000)
                 + "and {:0.4f}.".format(np.floor(maxMax * 10000) / 10000)
             )
+        self._defectSizes = size.copy()
         self._defectNumber = self._defectSizes.shape[0]
 
     def getDefectSizes(self):
-- 
2.43.0


From 6dffbb1ab695f794743a9c1ff600059ab7e3c257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:18 +0000
Subject: [PATCH 05/23] fix: keep the Box Cox parameter of the data after the
 bootstrap of the quantile regression POD

---
 otpod/_quantile_regression_pod.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/otpod/_quantile_regression_pod.py b/otpod/_quantile_regression_pod.py
index 1eb38cf..85a0abb 100755
--- a/otpod/_quantile_regression_pod.py
+++ b/otpod/_quantile_regression_pod.py
@@ -156,6 +156,10 @@ class QuantileRegressionPOD(POD):
         data[:, 0] = self._inputSample
         data[:, 1] = self._outputSample
         # bootstrap of the data
+        # the bootstrap replicates must not replace the parameter of the data
+        lambdaBoxCox = self._lambdaBoxCox
+        graphBoxCox = self._graphBoxCox if self._boxCox else None
+
         bootstrapExp = ot.BootstrapExperiment(data)
         # create a numerical sample which contains for all simulations the
         # defect quantile value. The goal is to compute the QuantilePerComponent
@@ -211,6 +215,9 @@ class QuantileRegressionPOD(POD):
             if self._verbose:
                 updateProgress(i, self._simulationSize, "Computing defect quantile")
 
+        self._lambdaBoxCox = lambdaBoxCox
+        self._graphBoxCox = graphBoxCox
+
     def getPODModel(self):
         """
         Accessor to the POD model.
-- 
2.43.0


From 918931bb03082ab5876bc8e055361df18c1b97c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:34:43 +0000
Subject: [PATCH 06/23] fix: optimise the covariance again when the enriched
 kriging model is poor

---
 otpod/_adaptive_signal_pod.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/otpod/_adaptive_signal_pod.py b/otpod/_adaptive_signal_pod.py
index 34f9e3e..be6b624 100755
--- a/otpod/_adaptive_signal_pod.py
+++ b/otpod/_adaptive_signal_pod.py
@@ -377,10 +377,12 @@ class AdaptiveSignalPOD(POD, KrigingBase):
                 if self._verbose:
                     print("Optimization of the covariance model parameters...")
 
-                algoKriging.setOptimizeParameters(True)
-                algoKriging = self._estimKrigingTheta(
-                    algoKriging, lowerBound, upperBound, self._initialStartSize
+                fitter.setOptimizeParameters(True)
+                fitter = self._estimKrigingTheta(
+                    fitter, lowerBound, upperBound, self._initialStartSize
                 )
+                fitter.run()
+                algoKriging = ot.GaussianProcessRegression(fitter.getResult())
                 algoKriging.run()
 
             # Get kriging results
-- 
2.43.0


From c5798602133f9b8d0d55bf666e485363a6d0a660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:35:14 +0000
Subject: [PATCH 07/23] fix: use the updated kriging model for the current POD
 at each enrichment iteration

---
 otpod/_adaptive_signal_pod.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/otpod/_adaptive_signal_pod.py b/otpod/_adaptive_signal_pod.py
index be6b624..0230c9d 100755
--- a/otpod/_adaptive_signal_pod.py
+++ b/otpod/_adaptive_signal_pod.py
@@ -393,6 +393,10 @@ class AdaptiveSignalPOD(POD, KrigingBase):
             except AttributeError:
                 self._basis = self._krigingResult.getBasisCollection()[0]  # ot<1.21
 
+            metamodel = ot.ComposedFunction(
+                self._krigingResult.getMetaModel(), transformation
+            )
+
             self._Q2 = self._computeQ2(
                 self._input, self._signals, self._krigingResult, transformation
             )
-- 
2.43.0


From 2638037825c9c0b93104cd528b325979c61e853a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:35:36 +0000
Subject: [PATCH 08/23] fix: keep the normalization of the adaptive kriging
 model for its validation graph

---
 otpod/_adaptive_signal_pod.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/otpod/_adaptive_signal_pod.py b/otpod/_adaptive_signal_pod.py
index 0230c9d..57cf9cc 100755
--- a/otpod/_adaptive_signal_pod.py
+++ b/otpod/_adaptive_signal_pod.py
@@ -425,6 +425,9 @@ class AdaptiveSignalPOD(POD, KrigingBase):
                         transparent=True,
                     )
 
+        # normalization of the last updated kriging model, used for validation
+        self._transformation = transformation
+
         # Compute the final POD with the last updated kriging model
         if self._verbose:
             print("\nStart computing the POD with the last updated kriging model")
-- 
2.43.0


From 9a1726a1c7e314f732400d745595bfa73947398a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:35:48 +0000
Subject: [PATCH 09/23] fix: accept a given kriging result together with its
 normalization

---
 otpod/_kriging_pod.py | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/otpod/_kriging_pod.py b/otpod/_kriging_pod.py
index ab0a7b4..1742ec8 100755
--- a/otpod/_kriging_pod.py
+++ b/otpod/_kriging_pod.py
@@ -177,6 +177,8 @@ class KrigingPOD(POD, KrigingBase):
                 print("Kriging optimizer completed")
             self._krigingResult = algoKriging.getResult()
             self._transformation = transformation
+        else:
+            transformation = self._transformation
 
         # compute the Q2
         self._Q2 = self._computeQ2(
@@ -219,20 +221,25 @@ class KrigingPOD(POD, KrigingBase):
 
         # The POD at confidence level is built in getPODCLModel() directly
 
-    def setKrigingResult(self, result):
+    def setKrigingResult(self, result, transformation=None):
         """
         Accessor to the kriging result.
 
         Parameters
         ----------
-        result : :py:class:`openturns.KrigingResult`
+        result : :py:class:`openturns.GaussianProcessRegressionResult`
             The kriging result.
         transformation : :py:class:`openturns.Function`
-            The normalization transformation.
+            The normalization transformation. Default is None: the kriging
+            result is defined on the physical inputs.
         """
-        try:
-            ot.KrigingResult(result)
-        except NotImplementedError:
+        if not isinstance(result, ot.GaussianProcessRegressionResult):
             raise Exception("The given parameter is not an KrigingResult.")
+        if transformation is None:
+            zero = [0.0] * self._dim
+            transformation = ot.LinearFunction(
+                zero, zero, ot.IdentityMatrix(self._dim)
+            )
         self._krigingResult = result
+        self._transformation = transformation
         self._userKriging = True
-- 
2.43.0


From adfff7c9d9aa7699721ac4b2964fb979bd31882a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:35:50 +0000
Subject: [PATCH 10/23] fix: sample the inputs from the law of a given
 polynomial chaos result

---
 otpod/_polynomial_chaos_pod.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/otpod/_polynomial_chaos_pod.py b/otpod/_polynomial_chaos_pod.py
index 9a4ccae..6aab572 100755
--- a/otpod/_polynomial_chaos_pod.py
+++ b/otpod/_polynomial_chaos_pod.py
@@ -161,6 +161,8 @@ class PolynomialChaosPOD(POD):
             if self._verbose:
                 print("Polynomial chaos model completed")
             self._chaosResult = self._algoChaos.getResult()
+        elif self._distribution is None:
+            self._distribution = self._chaosResult.getDistribution()
 
             # get the metamodel
         self._chaosPred = self._chaosResult.getMetaModel()
-- 
2.43.0


From 1f50529cd2e4dfab0ec8e68f67dcf8a4fb52e076 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:32 +0000
Subject: [PATCH 11/23] fix: do not count R2 among the p-values in the warning
 on failed hypothesis tests

---
 otpod/_univariate_linear_model_analysis.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/otpod/_univariate_linear_model_analysis.py b/otpod/_univariate_linear_model_analysis.py
index cdbb0f2..b6b5a87 100755
--- a/otpod/_univariate_linear_model_analysis.py
+++ b/otpod/_univariate_linear_model_analysis.py
@@ -391,9 +391,13 @@ class UnivariateLinearModelAnalysis:
     def _printWarnings(self, disp=True):
         # Check results and display warnings
 
-        valuesUnc = np.array(list(self._resultsUnc.testResults.values()))
+        # R2 is stored with the test results but it is not a p-value
+        tests = [test for test in self._resultsUnc.testResults if test != "R2"]
+        valuesUnc = np.array([self._resultsUnc.testResults[test] for test in tests])
         if self._censored:
-            valuesCens = np.array(list(self._resultsCens.testResults.values()))
+            valuesCens = np.array(
+                [self._resultsCens.testResults[test] for test in tests]
+            )
             testPValues = (valuesUnc < 0.05).any() or (valuesCens < 0.05).any()
         else:
             testPValues = (valuesUnc < 0.05).any()
-- 
2.43.0


From 194142f4e6b9636656a332bbb06b50ff1dada18c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:19 +0000
Subject: [PATCH 12/23] fix: report that run must be launched first when no
 adaptive kriging result exists yet

---
 otpod/_adaptive_signal_pod.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/otpod/_adaptive_signal_pod.py b/otpod/_adaptive_signal_pod.py
index 57cf9cc..49328cf 100755
--- a/otpod/_adaptive_signal_pod.py
+++ b/otpod/_adaptive_signal_pod.py
@@ -121,6 +121,7 @@ class AdaptiveSignalPOD(POD, KrigingBase):
         assert self._dim > 1, "Dimension of inputSample must be greater than 1."
 
         self._physicalModel = physicalModel
+        self._krigingResult = None
         self._basis = None
         self._covarianceModel = None
         self._distribution = None
-- 
2.43.0


From 5eea1f3cb770a1f1bd06d902baa729a19f340f1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:28 +0000
Subject: [PATCH 13/23] fix: rebuild the default law and basis of the
 polynomial chaos from the current settings at each run

---
 otpod/_polynomial_chaos_pod.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/otpod/_polynomial_chaos_pod.py b/otpod/_polynomial_chaos_pod.py
index 6aab572..0149f20 100755
--- a/otpod/_polynomial_chaos_pod.py
+++ b/otpod/_polynomial_chaos_pod.py
@@ -99,7 +99,9 @@ class PolynomialChaosPOD(POD):
         self._chaosResult = None
         self._samplingSize = 5000
         self._distribution = None
+        self._defaultDistribution = True
         self._adaptiveStrategy = None
+        self._defaultAdaptiveStrategy = True
         self._projectionStrategy = None
         self._degree = 3
         self._defectSizes = None
@@ -161,7 +163,7 @@ class PolynomialChaosPOD(POD):
             if self._verbose:
                 print("Polynomial chaos model completed")
             self._chaosResult = self._algoChaos.getResult()
-        elif self._distribution is None:
+        elif self._defaultDistribution:
             self._distribution = self._chaosResult.getDistribution()
 
             # get the metamodel
@@ -505,6 +507,7 @@ class PolynomialChaosPOD(POD):
         if not isinstance(distribution, ot.JointDistribution):
             raise ValueError("The given parameter is not a JointDistribution")
         self._distribution = distribution
+        self._defaultDistribution = False
 
     def getDistribution(self):
         """
@@ -535,6 +538,7 @@ class PolynomialChaosPOD(POD):
         except NotImplementedError:
             raise Exception("The given parameter is not an AdaptiveStrategy.")
         self._adaptiveStrategy = strategy
+        self._defaultAdaptiveStrategy = False
 
     def getAdaptiveStrategy(self):
         """
@@ -671,7 +675,7 @@ class PolynomialChaosPOD(POD):
         """
         Build the functional chaos algorithm without running it.
         """
-        if self._distribution is None:
+        if self._defaultDistribution:
             # create default distribution : Uniform between min and max of the
             # input sample
             inputSample = ot.Sample(inputSample)
@@ -685,7 +689,7 @@ class PolynomialChaosPOD(POD):
         # put description of the inputSample into decription of the distribution
         self._distribution.setDescription(inputSample.getDescription())
 
-        if self._adaptiveStrategy is None:
+        if self._defaultAdaptiveStrategy:
             # Create the adaptive strategy : default is fixed strategy of degree 5
             # with linear enumerate function
             polyCol = [0.0] * self._dim
-- 
2.43.0


From dad0bcb94ca747d256ce340c43b3715e1031d508 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:28 +0000
Subject: [PATCH 14/23] fix: rebuild the default input law of the kriging POD
 from the current defect sizes at each run

---
 otpod/_kriging_pod.py   | 3 ++-
 otpod/_kriging_tools.py | 1 +
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/otpod/_kriging_pod.py b/otpod/_kriging_pod.py
index 1742ec8..7050eef 100755
--- a/otpod/_kriging_pod.py
+++ b/otpod/_kriging_pod.py
@@ -101,6 +101,7 @@ class KrigingPOD(POD, KrigingBase):
         self._userKriging = False
         self._krigingResult = None
         self._distribution = None
+        self._defaultDistribution = True
         self._basis = None
         self._covarianceModel = None
         self._samplingSize = 5000
@@ -188,7 +189,7 @@ class KrigingPOD(POD, KrigingBase):
             print("kriging validation Q2 (>0.9): {:0.4f}".format(self._Q2))
 
         # set default uniform distribution with min and max of the given defect sizes
-        if self._distribution is None:
+        if self._defaultDistribution:
             inputMin = self._input.getMin()
             inputMin[0] = np.min(self._defectSizes)
             inputMax = self._input.getMax()
diff --git a/otpod/_kriging_tools.py b/otpod/_kriging_tools.py
index 453c88c..6d44fa0 100755
--- a/otpod/_kriging_tools.py
+++ b/otpod/_kriging_tools.py
@@ -279,6 +279,7 @@ class KrigingBase:
         if not isinstance(distribution, ot.JointDistribution):
             raise ValueError("The given parameter is not a JointDistribution")
         self._distribution = distribution
+        self._defaultDistribution = False
 
     def getDistribution(self):
         """
-- 
2.43.0


From 9422c6a59f17825f723499078effdc8cd293c0db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:53:27 +0000
Subject: [PATCH 15/23] fix: separate the residuals table from the validation
 table in the saved summary

---
 otpod/_pod_summary.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/otpod/_pod_summary.py b/otpod/_pod_summary.py
index f0384a6..2061d73 100755
--- a/otpod/_pod_summary.py
+++ b/otpod/_pod_summary.py
@@ -549,7 +549,7 @@ class PODSummary:
             fd.write(regressionResult)
             fd.write("\n\nResiduals analysis results\n\n")
             fd.write(residualsResult)
-            fd.write("Model validation results\n\n")
+            fd.write("\n\nModel validation results\n\n")
             fd.write(validationResult)
             fd.write("\n\nPOD results\n\n")
             fd.write(podResult)
-- 
2.43.0


From 61e9284decf65f776a7ff7caab6c1fefef080365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:14:13 +0000
Subject: [PATCH 16/23] fix: accept slightly negative kriging variances in the
 sensitivity analysis, as its message says

---
 otpod/_sobol_indices.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/otpod/_sobol_indices.py b/otpod/_sobol_indices.py
index d8b869c..21c2a25 100755
--- a/otpod/_sobol_indices.py
+++ b/otpod/_sobol_indices.py
@@ -502,13 +502,13 @@ class PODaggrKriging(ot.OpenTURNSPythonFunction):
 
         # check if the variance is positive of not, accept negative values
         # if they are > -1e-2, else raise an error.
-        if (var < 0).all():
+        if (var < 0).any():
             logging.warning(
                 "Warning : some variance values are negatives, "
                 + "the kriging model may not be accurate enough."
             )
 
-            if (var[var < 0] < 1e-2).all():
+            if (var < -1e-2).any():
                 raise ValueError(
                     "Variance values are lower than -1e-2. Please "
                     + "check the validity of the kriging model."
-- 
2.43.0


From cf621b7aad4a1548a72e48efbaaedfc95f78a01a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:44:26 +0000
Subject: [PATCH 17/23] fix: count points on the threshold as failures for the
 non-strict operators in the PLI indices

---
 otpod/_pli.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/otpod/_pli.py b/otpod/_pli.py
index 65dc933..3c544f3 100755
--- a/otpod/_pli.py
+++ b/otpod/_pli.py
@@ -150,18 +150,20 @@ class PLI:
             .getClassName()
         )
         threshold = self._monteCarloResult.getEvent().getThreshold()
-        if operator in ["Less", "LessOrEqual"]:
-            return np.array(inputSample)[
-                (np.hstack(np.array(outputSample)) < threshold), :
-            ]
-        elif operator in ["Greater", "GreaterOrEqual"]:
-            return np.array(inputSample)[
-                (np.hstack(np.array(outputSample)) > threshold), :
-            ]
+        outputValues = np.hstack(np.array(outputSample))
+        if operator == "Less":
+            failure = outputValues < threshold
+        elif operator == "LessOrEqual":
+            failure = outputValues <= threshold
+        elif operator == "Greater":
+            failure = outputValues > threshold
+        elif operator == "GreaterOrEqual":
+            failure = outputValues >= threshold
         else:
             raise NameError(
                 'The comparison operator "{}" is not known.'.format(operator)
             )
+        return np.array(inputSample)[failure, :]
 
     def _computePfdelta(self, marginal, idelta):
         """
-- 
2.43.0


From 5e28874be163bf1388d33caad1137ae0f01d6ed0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:44:26 +0000
Subject: [PATCH 18/23] fix: draw the PLI indices against the delta values of
 each marginal

---
 otpod/_pli.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/otpod/_pli.py b/otpod/_pli.py
index 3c544f3..0ce7c55 100755
--- a/otpod/_pli.py
+++ b/otpod/_pli.py
@@ -388,7 +388,8 @@ class PLI:
 
             # define the abcsissa of the plot, either the delta values or the
             # hellinger distances if activated
-            x_support = np.hstack(self._originalDelta.copy())
+            # one delta value per marginal, or the same one for all marginals
+            x_support = (self._originalDelta * np.ones(self._dim))[:, marginal]
             xLabel = "Delta"
             if hellinger:
                 for i, d in enumerate(self._deltaValues[:, marginal]):
-- 
2.43.0


From 491ba235865afe657d6f565d48d9e0fe172853c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:45 +0000
Subject: [PATCH 19/23] fix: widen the range of candidate probabilities when no
 candidate of the adaptive hit miss POD lies in it

---
 otpod/_adaptive_hitmiss_pod.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/otpod/_adaptive_hitmiss_pod.py b/otpod/_adaptive_hitmiss_pod.py
index d8a5ab2..a6f6a0b 100755
--- a/otpod/_adaptive_hitmiss_pod.py
+++ b/otpod/_adaptive_hitmiss_pod.py
@@ -275,11 +275,15 @@ class AdaptiveHitMissPOD(POD):
 
             # s'il n'a pas d indices on elargit p_min = 0.45, p_max=0.55
             if len(ind) == 0:
-                ind_p1 = np.where(probs < 0.1)[0]
-                ind_p2 = np.where(probs >= 0.8)[0]
+                ind_p1 = np.where(probs < 0.8)[0]
+                ind_p2 = np.where(probs >= 0.1)[0]
                 ind_p = np.intersect1d(ind_p2, ind_p1)
                 ind = ind_p
 
+            # no uncertain candidate : all of them are considered
+            if len(ind) == 0:
+                ind = np.arange(len(probs))
+
             ind_rank = np.argsort(probs[ind])
             quant = [
                 0,
-- 
2.43.0


From 49f4e258f09f265e636ba211c12622b5e7622e49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:34 +0000
Subject: [PATCH 20/23] fix: keep the classifier and rates of each iteration of
 the adaptive hit miss POD in its list of classifiers

---
 otpod/_adaptive_hitmiss_pod.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/otpod/_adaptive_hitmiss_pod.py b/otpod/_adaptive_hitmiss_pod.py
index a6f6a0b..96ddced 100755
--- a/otpod/_adaptive_hitmiss_pod.py
+++ b/otpod/_adaptive_hitmiss_pod.py
@@ -355,7 +355,10 @@ class AdaptiveHitMissPOD(POD):
             p11 = self._confMat[1, 1]
             p10 = self._confMat[1, 0]
 
-            def agg_classifier(x_in):
+            # default values freeze the rates and the classifier of this iteration
+            def agg_classifier(
+                x_in, p11=p11, p10=p10, classif_algo_temp=classif_algo_temp
+            ):
                 c = p11 - p10
                 p1_bayes = 1.0 / c * (classif_algo_temp(x_in)[:, 1] - p10)
                 p1_bayes = np.vstack(
-- 
2.43.0


From d9b1a2fbf3426820394f3ce7650f6d4596a0c8a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:53 +0000
Subject: [PATCH 21/23] fix: draw the contour of the perturbation indices along
 the delta axis of its own marginal

---
 otpod/_pli_pod.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/otpod/_pli_pod.py b/otpod/_pli_pod.py
index d11f708..bd8292e 100755
--- a/otpod/_pli_pod.py
+++ b/otpod/_pli_pod.py
@@ -381,14 +381,17 @@ class PLIBase:
         if label is None:
             label = "X{}".format(marginal)
 
+        # delta values of the given marginal
+        delta = (self._delta * np.ones(self._dim))[:, marginal]
         extent = (
             np.min(self._defectSizes[self._keepedDefect]),
             np.max(self._defectSizes[self._keepedDefect]),
-            np.min(self._delta),
-            np.max(self._delta),
+            np.min(delta),
+            np.max(delta),
         )
 
-        Z = self._indices[:, marginal, self._keepedDefect]
+        # the rows of the image follow the increasing delta axis
+        Z = self._indices[:, marginal, self._keepedDefect][np.argsort(delta)]
 
         fig, ax = plt.subplots(figsize=(8, 6))
 
-- 
2.43.0


From 80b0dbf0ef2721d129be29fc85e00ba41d81dfa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:53 +0000
Subject: [PATCH 22/23] fix: show all points of the validation graph when
 signals are negative

---
 otpod/_pod.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/otpod/_pod.py b/otpod/_pod.py
index 0aeb20b..6a9777f 100755
--- a/otpod/_pod.py
+++ b/otpod/_pod.py
@@ -277,9 +277,12 @@ class POD(object):
         target = np.hstack(target)
         prediction = np.hstack(prediction)
         fig, ax = plt.subplots(figsize=(8, 8))
-        # compute boundaries of the graph assuming target and prediction > 0
-        _min = 0.99 * np.concatenate([target, prediction]).min()
-        _max = 1.01 * np.concatenate([target, prediction]).max()
+        # compute boundaries of the graph
+        _min = np.concatenate([target, prediction]).min()
+        _max = np.concatenate([target, prediction]).max()
+        # enlarge the range whatever the sign of the bounds
+        _min -= 0.01 * abs(_min)
+        _max += 0.01 * abs(_max)
         ax.plot([_min, _max], [_min, _max], "r-", lw=0.5)
         ax.plot(target, prediction, "b.", ms=9)
         ax.grid()
-- 
2.43.0


From 1095ef493e15b14b6365c8ab98f5fbbe4780eaca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:05 +0000
Subject: [PATCH 23/23] fix: draw the graphs of the summary when no probability
 level is given

---
 otpod/_pod_summary.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/otpod/_pod_summary.py b/otpod/_pod_summary.py
index 2061d73..045103c 100755
--- a/otpod/_pod_summary.py
+++ b/otpod/_pod_summary.py
@@ -866,11 +866,13 @@ class PODSummary:
                 logging.warning(
                     "POD for quantile regression cannot be drawn for the given parameters."
                 )
-            f, ax = self._PODqr.drawLinearModel(
-                probabilityLevel,
-                name=os.path.join(directory, "Quantile_regression_model.") + extension,
-            )
-            fig.append(f)
+            if probabilityLevel is not None:
+                f, ax = self._PODqr.drawLinearModel(
+                    probabilityLevel,
+                    name=os.path.join(directory, "Quantile_regression_model.")
+                    + extension,
+                )
+                fig.append(f)
         if self._activeMethods["PolynomialChaos"]:
             try:
                 f, ax = self._PODchaos.drawPOD(
-- 
2.43.0

