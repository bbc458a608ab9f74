"""writes properties.jsonl and MANIFEST.json from this table (only properties that have scenarios are listed)"""
import json
import os

L = "_univariate_linear_model_pod.py"
A = "_univariate_linear_model_analysis.py"
Q = "_quantile_regression_pod.py"
T = "_math_tools.py"
P = "_pod.py"
K = "_kriging_tools.py"
KP = "_kriging_pod.py"
CH = "_polynomial_chaos_pod.py"
AS = "_adaptive_signal_pod.py"
AH = "_adaptive_hitmiss_pod.py"
S = "_sobol_indices.py"
PL = "_pli.py"
PP = "_pli_pod.py"
SU = "_pod_summary.py"

PROPS = [
 ("C01", "Censoring partitions the data exactly at the thresholds",
  "Filtering with a noise and/or saturation threshold puts every observation in exactly one of noise (signal <= noise threshold), saturated (signal >= saturation threshold) or uncensored, in the original order, with each kept input row still paired with its own signal. A missing threshold censors nothing on its side.",
  ["inputs", "configurations"], "all data values, ties with the thresholds, thresholds present or absent, 1-3 inputs, container kinds",
  "tests use one fixed data set per configuration and never a signal equal to a threshold",
  [T], [("boolean masks on both thresholds", T + ":DataHandling.filterCensoredData")], ["filterCensoredData result"]),
 ("C02", "Box-Cox: data, detection and thresholds share one transformation",
  "When the Box-Cox transformation is enabled, the parameter is estimated on the uncensored signals (or is exactly the value the user gave), and the signals, the detection threshold and the censoring thresholds are all transformed with that same parameter and the same shift, which is zero for positive signals and makes every signal positive otherwise. The reported parameter is the one used for the data; without Box-Cox nothing is transformed and no parameter is reported.",
  ["inputs", "configurations"], "all signals (positive, zero, negative), thresholds, given or estimated parameter, every POD class and the linear analysis",
  "tests use positive signals and one parameter per class",
  [P, L, A, Q], [("common preparation of the data", P + ":POD._run"), ("same for the linear model", L + ":_computeLinearModel"), ("same for the analysis", A + ":_run")], ["data given to the regression/metamodel", "getBoxCoxParameter"]),
 ("C03", "Censored linear model minimises the exact censored likelihood",
  "With censored data the linear model parameters come from minimising, over (intercept, slope, standard deviation), minus the log-likelihood of the Gaussian linear model in which uncensored observations contribute their density, noise observations P(signal <= noise threshold) and saturated observations P(signal >= saturation threshold), an undefined value being treated as worst possible. The minimisation starts from the uncensored least-squares estimates (or random retries when the likelihood is undefined there), and reaching the iteration limit is reported as a warning.",
  ["inputs", "configurations"], "all parameter vectors, data, thresholds, noise-only/saturation-only/both",
  "tests compare one optimum per data set to two decimals; they never evaluate the likelihood",
  [T, L, A], [("objective", T + ":MLE"), ("start, retries, warning", T + ":computeLinearParametersCensored")], ["objective handed to the optimiser", "accessors of intercept/slope/standard error"]),
 ("C04", "Linear-model POD curve is the exceedance probability of the model",
  "For a linear model POD, the curve at defect size a is the probability that intercept + slope*a + residual exceeds the (transformed) detection threshold: the share of residuals above it when no residual law is given, the Gaussian law with the prediction variance of the regression for a normal residual law, the law fitted to the residuals otherwise. It lies in [0,1] and, when the slope is positive, does not decrease with the defect size for the empirical and fitted residual laws.",
  ["inputs", "configurations"], "all signals, thresholds, detection thresholds, Box-Cox settings and defect sizes, each residual law, censored or not",
  "tests check one detection size per configuration", [L, P],
  [("POD functions", L + ":_PODbinomialModel,_PODgaussModel,_PODbootstrapModel"), ("regression", L + ":_computeLinearModel")], ["getPODModel()(a)"]),
 ("C05", "Linear-model POD confidence curve",
  "The confidence curve at level c is: with no residual law, 1 - qBeta(n-k, k+1, c) for k residuals above the threshold out of n (c^(1/n) when k = n); with a normal residual law, the (1-c) quantile of the POD curves of parameters simulated from the regression's sampling law; with another residual law, the (1-c) quantile of the POD curves refitted on bootstrap replicates of all the observations, each replicate being censored and transformed like the data. As many curves as the simulation size are used, and, apart from k = n, the curve does not increase with c.",
  ["inputs", "configurations"], "all data, simulated draws, bootstrap draws, confidence levels and defect sizes within the bounds",
  "tests check one detection size at one confidence level", [L],
  [("binomial bound", L + ":_PODbinomialModelCl"), ("Gaussian simulation", L + ":_PODgaussModelCl"), ("bootstrap", L + ":_PODbootstrapModelCl"), ("quantile of the curves", L + ":getPODCLModel")], ["getPODCLModel(c)(a)"]),
 ("C06", "Quantile regression POD and its bootstrap confidence curve",
  "For each requested level q, the POD curve reaches q at the defect size where the (1-q)-quantile regression line of the uncensored (transformed) data meets the detection threshold, starts from 0 at size 0, is piecewise linear and does not decrease, and ends at the largest level at the largest defect. The confidence curve at level c has the same form with the c-quantile, over bootstrap replicates of all the observations each prepared like the data, of those defect sizes.",
  ["inputs", "configurations"], "all signals, detection thresholds, quantile lines crossing the threshold in range, quantile level sets, confidence levels",
  "tests check one detection size and one quantile grid", [Q, P],
  [("crossing by root finding", Q + ":run"), ("confidence curve", Q + ":getPODCLModel")], ["getPODModel", "getPODCLModel", "data given to the quantile regression"]),
 ("C07", "R2 and hypothesis-test p-values follow their definitions",
  "R2 is 1 - var(residuals)/var(signals), and the p-values of the zero-mean, Breusch-Pagan, Harrison-McCabe and Durbin-Watson tests are those of their definitions on the given residuals and defects, for every data set. The linear analysis reports for the uncensored and the censored fit the statistics of that fit's own residuals, Kolmogorov's test comparing them with the law fitted on them.",
  ["inputs", "configurations"], "all residuals and defects (with non-constant values), censored or not",
  "tests pin the values on one data set to two decimals", [T, A],
  [("statistics", T + ":computeR2,computeZeroMeanTest,computeBreuschPaganTest,computeHarrisonMcCabeTest,computeDurbinWatsonTest"), ("dispatch", A + ":_computeTests")], ["getR2 and p-value accessors of the analysis"]),
 ("C08", "Detection sizes solve POD(a) = p on the studied range",
  "computeDetectionSize(p, c) returns sizes inside the studied defect range at which the POD curve, respectively the confidence curve at level c, equals p, named a<100p> and a<100p>/<100c> (for the quantile regression, the first one is the size at which the (1-p)-quantile line meets the detection threshold). It raises an error exactly when the wanted level is not reached between the curve's values at the two ends of the range.",
  ["inputs", "configurations"], "all levels p and c, detection thresholds, data in the bounds, every POD class",
  "tests use p = 0.9, c = 0.95 on one data set", [P, Q, K, CH, AH],
  [("bracketing test and root finding", P + ":POD._computeDetectionSize"), ("quantile regression variant", Q + ":computeDetectionSize")], ["computeDetectionSize"]),
 ("C09", "Metamodel POD curves average the metamodel over the other inputs",
  "For the polynomial chaos and kriging PODs, the POD at each studied defect size is the share of random signals above the (transformed) detection threshold when the defect is fixed, the other inputs follow their own marginals of the input law, and the signal is the metamodel prediction on its own input scale plus its random error; between defect sizes it is interpolated linearly. The confidence curve at level c interpolates, at each defect size, the (1-c) quantile of the simulated PODs of that size.",
  ["inputs", "configurations"], "all metamodels, input draws, error draws, detection thresholds, confidence levels, defect size grids within the bounds",
  "tests check one detection size with a fixed seed", [CH, K, KP],
  [("chaos simulation", CH + ":_computePOD"), ("kriging simulation", K + ":_computePODSamplePerDefect,_randomVectorSampling"), ("interpolation", CH + ":run; " + KP + ":run")], ["getPODModel", "getPODCLModel"]),
 ("C10", "Validation scores R2 and Q2 of the metamodels",
  "The chaos R2 is that of the metamodel residuals; the chaos and kriging Q2 are 1 - mean(leave-one-out error^2)/variance of the signals (the unbiased variance for the chaos, the population variance for the kriging), where each leave-one-out prediction is that of the same regression (same basis, covariance, input scaling) without that observation. The validation graphs show exactly these predictions against the signals.",
  ["inputs"], "all signals, designs, bases and covariance values within the bounds",
  "tests check one value to two decimals", [CH, K],
  [("leave-one-out by the hat matrix", CH + ":getQ2"), ("leave-one-out by the kriging matrix", K + ":_computeLOO,_computeQ2")], ["getR2", "getQ2", "drawValidationGraph"]),
 ("C11", "Adaptive signal POD enriches its design consistently",
  "The adaptive kriging POD adds, at each of the requested iterations, the candidate that minimises the mean over the studied defect sizes of the variance of the PODs simulated with that candidate supposed to be known, plus the squared difference between their mean and the current POD, the supposed signal being the prediction of the current metamodel. The answer of the user's model at that very candidate is then added, transformed with the same shift and Box-Cox parameter as the initial data. The covariance is estimated again exactly when the current Q2 is below 0.95; otherwise, and for the supposed metamodels of the candidates, the last estimated one is kept. The final design holds the initial points first and in order, then the added points, each with its own untransformed model answer; metamodel and POD are those of the whole design, and the objects supplied by the user are untouched.",
  ["inputs", "histories"], "all models, candidates, criterion values and iteration counts within the bounds",
  "tests run one model with a fixed seed", [AS],
  [("enrichment loop", AS + ":run"), ("criterion", AS + ":run")], ["getOutputDOE/getInputDOE", "getPODModel", "getPODCLModel"]),
 ("C12", "Adaptive hit/miss POD",
  "The classifier POD labels each design point as detected exactly when its signal exceeds the detection threshold (or is 1 when the signals are already hit/miss values), and enriches the design with candidates whose detection probability under the current classifier lies in [pmin, pmax), taken at the lowest, the quartile and the highest ranks of that probability (all candidates in [0.1, 0.8), then all candidates, when none qualifies), each with the answer of the user's model at that very candidate, until the design has exactly the requested number of points. The detection probability used is (p - p10)/(p11 - p10) clipped to [0,1], p10 and p11 being the false positive and true positive rates of the classifiers on the design. The POD at each defect size is the mean of this probability over the other inputs drawn from their own marginals; the confidence curve at level c is the (1-c) quantile of the simulated PODs of that size, and between sizes both are interpolated linearly.",
  ["inputs", "histories"], "all models, classifier probabilities, candidates and iteration counts within the bounds",
  "tests run one model with a fixed seed", [AH],
  [("enrichment loop", AH + ":run"), ("POD simulation", AH + ":_computePOD")], ["getPODModel", "getPODCLModel", "getOutputDOE", "getInputDOE"]),
 ("C13", "Sobol indices of the POD",
  "The sensitivity study draws one design of the given base size from the law of the inputs other than the defect (the law of the POD study, or the one given) and evaluates, at each of its points, the POD at each requested defect size: for a kriging POD the kriging probability that the signal exceeds the (Box-Cox transformed) threshold, for a polynomial chaos POD the share of simulated signals above it over the chosen number of coefficient vectors drawn from their law, with one residual error each. Sizes whose POD is constant over the first sample of the design (its first N points, N the base size) are left out with a warning, and the reported sizes are exactly those kept; slightly negative kriging variances are accepted, clearly negative ones are an error. First-order and total indices are those of the chosen estimator (Saltelli, Martinez, Jansen or MauntzKucherenko) for these values, and the graphs show them at the sizes they were computed for, each with the label of its input. Unknown estimators, sizes outside the range of the data, laws of another kind or dimension, studies without metamodel and studies with fewer than two other inputs are refused and leave the settings as they were.",
  ["inputs", "configurations"], "all metamodel predictions, thresholds, defect grids",
  "tests pin indices for one metamodel and seed", [S],
  [("aggregated POD function", S + ":PODaggrKriging,PODaggrChaos"), ("null variance removal", S + ":run")], ["function given to the sensitivity algorithm", "getSensitivityResult"]),
 ("C14", "Perturbation-law indices of the POD",
  "For every marginal and every perturbation (mean or variance moved to a given value, or by a given multiple of the standard deviation or of the mean) the perturbed failure probability is the failure sample reweighted by the ratio of perturbed to original density, over all simulated points; the failure sample is exactly the set of simulated points in the event, ties included for the non-strict operators. Perturbed densities are the normal law with the new parameter, or the exponential tilting of the uniform law with the requested mean (or unchanged mean and requested variance). The index is the relative change of the probability (relative to the smaller one), its confidence interval the bilateral interval of the normal law given by the delta method, and the graph shows them against the perturbation of that marginal, or its Hellinger distance, negative below the original value. For a POD study one such analysis is made per defect size, on the metamodel at that size, the law of the other inputs (or the given one), the transformed detection threshold and the chosen sampling size; sizes whose probability is not between 0.001 and 0.999 get no index (nan) and a warning names the sizes kept. The contour graph shows each index at its perturbation of that marginal and its defect size. Any combination of perturbation, marginal and size can be read from the table of indices.",
  ["inputs", "configurations"], "all samples, densities, thresholds and comparison operators within the bounds",
  "tests pin indices for one example and seed", [PL, PP],
  [("failure sample", PL + ":PLI._getFailureSample"), ("reweighting", PL + ":PLI._computePfdelta"), ("delta method", PL + ":PLI._computeEstimatorDistribution"), ("tilted uniform laws", PL + ":PLIMeanBase,PLIVarianceBase._perturbedMarginalPDF"), ("one analysis per size", PP + ":PLIBase.run")], ["getIndices", "getPerturbedProbabilityEstimate", "computeConfidenceInterval", "drawIndices", "PLIMean/PLIVariance.getIndices"]),
 ("C15", "POD summary is faithful to the individual studies",
  "The summary runs exactly the studies selected as active, each on the same data, noise thresholds, detection value and settings (quantiles, simulation size, regression and bootstrap options) as a study run by itself, and its printed and saved tables report those studies' own detection sizes at the asked probability and confidence levels and their own validation values, each under its own name; the studies it gives access to are those it ran. Its graphs are those of the linear analysis (of each fit) and of the active studies, for the given levels (if any), each saved in its own file of the given directory and extension.",
  ["inputs", "configurations"], "all subsets of active methods, all values",
  "tests run one configuration", [SU],
  [("orchestration", SU + ":run"), ("tables", SU + ":getResults,saveResults")], ["getResults", "saveResults", "drawGraphs"]),
 ("C16", "Rejected settings leave the study unchanged",
  "A setter accepts exactly the values of its documented domain, and after acceptance the getter returns it; a rejected value raises an error and leaves the study as it was. Constructors reject data of inconsistent sizes or dimensions and fewer than three observations.",
  ["inputs", "configurations", "histories"], "all values, every class",
  "tests only check one rejected value per setter and never the state afterwards", [P, Q, K, CH, AH],
  [("range tests in setters", K + ":setDefectSizes; " + Q + ":setQuantile"), ("constructor assertions", P + ":POD.__init__")], ["setters and getters"]),
 ("C17", "Linear analysis accessors, report and warnings agree",
  "Every accessor, the printed report and the saved file of the linear analysis show the values of the same fits, rounded to two digits in the texts, each next to its own label and in the column of its own (uncensored or censored) fit. A warning about failed hypothesis tests is given exactly when some test p-value of either fit is below 0.05, advising the Box-Cox transformation when it is not in use and the quantile regression or linear regression with other residuals otherwise, and a warning about the normality assumption exactly when the fitted residual law is not normal.",
  ["inputs", "configurations"], "all statistics, censored or not, Box-Cox on or off",
  "tests compare one report for one data set", [A],
  [("tables", A + ":_buildPrintResults"), ("warnings", A + ":_printWarnings")], ["getResults", "saveResults", "accessors"]),
 ("C18", "Studies do not alter user data and runs use the current settings",
  "Building, running and querying a study never modifies the samples, arrays, laws or lists supplied by the user, nor is it affected by later changes of them. Running again after changing a setting gives the results of a fresh study with the latest settings.",
  ["histories", "inputs"], "sequences of setters and runs on the same objects",
  "tests run each object once", [P, L, Q, K, CH, A],
  [("copies in the constructors and setters", P + ":POD.__init__")], ["user objects after calls", "getPODModel after a second run"]),
 ("C19", "Graphs show the study's own curves, levels, sizes and data",
  "drawPOD shows the study's POD curve and, when a confidence level is given, its confidence curve at that level over the asked defect interval (by default the studied one), a line at the wanted probability level over that interval and vertical lines up to it at the detection sizes, each under its own name; it fails exactly when the interval leaves the studied defects (metamodel, quantile and hit/miss studies) or the level is not reached. The validation graphs show every observation within the axes, whatever the sign of the signals. The graphs of the linear analysis, of the quantile regression and of the one-input polynomial chaos show the uncensored (transformed) observations, and the line, residuals or residual law of the requested fit; a graph of a fit that does not exist is refused. A figure is saved exactly when a file name is given.",
  ["inputs", "configurations"], "all signals, thresholds, levels and intervals within the bounds, every kind of study",
  "the existing tests never look at what a graph shows", [P, L, Q, K, CH, AH, A],
  [("POD graph", P + ":POD._drawPOD; drawPOD of every class"), ("validation graph", P + ":POD._drawValidationGraph"), ("analysis graphs", A + ":drawLinearModel,drawResiduals,drawResidualsQQplot,drawResidualsDistribution"), ("metamodel and quantile lines", CH + ":drawPolynomialChaosModel; " + Q + ":drawLinearModel")],
  ["calls made on the figure axes by drawPOD, drawValidationGraph, drawLinearModel, drawResiduals*, drawPolynomialChaosModel"]),
]

NA = {}
LEVEL_NOTE = ("bounded: every value of the symbolic inputs within the bounds stated in the evidence, on the real code loaded from /repo; "
              "trusts real arithmetic for floats, the library contracts in symx/, and z3; counterexamples and one model per path are replayed on the real numpy/openturns")


def main():
    here = os.path.dirname(os.path.abspath(__file__))
    src = "".join(open(os.path.join(here, "harness", f)).read() for f in sorted(os.listdir(os.path.join(here, "harness"))) if f.endswith(".py"))
    import re
    have = set(re.findall(r'"(C\d\d)"', src))
    with open(os.path.join(here, "properties.jsonl"), "w") as f:
        for i, t, s, ov, tx, why, files, mech, obs in PROPS:
            if i not in have and i not in NA:
                continue
            f.write(json.dumps(dict(id=i, title=t, statement=s, quantifier=dict(over=ov, text=tx), why_tests_cant=why, anchors=dict(
                files=["otpod/" + x for x in files], mechanism=[dict(name=a, where="otpod/" + b) for a, b in mech], observe_at=obs, hook_needed=None))) + "\n")
    man = dict(version=1, setup_cmd="bash setup.sh", checks=[dict(
        property=p[0], quick_cmd="bash run.sh %s quick" % p[0], thorough_cmd="bash run.sh %s thorough" % p[0],
        technique="symbolic execution of the real Python source with z3 deciding every assertion and branch; concrete replay",
        level="model_checking", level_note=LEVEL_NOTE) for p in PROPS if p[0] in have],
        not_applicable=[dict(property=i, reason=r) for i, r in sorted(NA.items())])
    with open(os.path.join(here, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")


main()
