import json,subprocess
def h(s):
    for l in subprocess.check_output(['git','-C','/repo','log','--format=%h %s'],text=True).splitlines():
        if s in l: return l.split()[0]
    raise SystemExit(s)
F=[("P01","dataset cache survives","a crash, full disk or dropped connection while downloading left a truncated CSV in the cache that later loads returned as data; concurrent loads shared one half-written file"),
("P02","dataset cache survives","a forced download failed when the cache directory could not be written, a corrupt cache file made every later load fail, and connection errors other than URLError escaped instead of falling back"),
("P03","embedded dataset fallback","the embedded fallback datasets reseeded NumPy's global random generator"),
("P03","TWFE no longer swaps","TwoWayFixedEffects replaced the process-wide warning filters during fit; concurrent or interrupted fits left them changed"),
("P08","TWFE no longer swaps","concurrent TwoWayFixedEffects fits swallowed or left changed each other's warning filters"),
("P04","SimulationPowerResults keeps","SimulationPowerResults.effect_sizes aliased the caller's list"),
("P06","analytical refit after a wild","an analytical refit after a wild-bootstrap fit reported bootstrap inference of the earlier fit"),
("P06","CallawaySantAnna.set_params","CallawaySantAnna.set_params(bootstrap_weights=...) had no effect on later fits"),
("P06","BaconDecomposition.set_params","BaconDecomposition.set_params silently accepted unknown parameters"),
("P10","TROP bootstrap and jackknife replicates","TROP bootstrap/jackknife replicates used the weights of the original panel instead of their own"),
("P05","SunAbraham bootstrap resamples rows","SunAbraham bootstrap drew rows by index label: with a non-default frame index the bootstrap resampled the wrong rows or failed"),
("P09","SunAbraham bootstrap leaves failed","failed SunAbraham bootstrap iterations were replaced by the original estimate, shrinking the standard error"),
("P13","doubly robust CallawaySantAnna","doubly robust CallawaySantAnna silently used the unconditional propensity when the logit failed"),
("P13","doubly robust TripleDifference","doubly robust TripleDifference silently replaced failed nuisance models"),
("P13","pre-trends MDV warns","the pre-trends minimum detectable violation silently switched to an approximate formula when root finding failed"),
("P13","TROP announces failed","failed TROP LOOCV fits and failed SVDs were skipped without a trace"),
("P09","SyntheticDiD reports undefined","SyntheticDiD reported t=0, p=1 and a degenerate interval when no standard error could be computed"),
("P09","placebo diagnostics report NaN","leave-one-out and permutation diagnostics reported t=0 with a zero or undefined standard error"),
("P10","SyntheticDiD bootstrap p-value","the SyntheticDiD bootstrap p-value compared the estimate with draws centred at the estimate and was never small for a large effect"),
("P10","wild cluster bootstrap p-value is","the wild cluster bootstrap t-statistics were not computed under the null, so large effects gave large p-values"),
("P12","simulate_power fits TwoWay","simulate_power passed the period instead of the post indicator to TwoWayFixedEffects"),
("P14","TROP reports the two-step","the two-step TROP fit scored its chosen penalties with raw infinities: a wrong loocv_score, or the default penalties instead of the chosen ones"),
("P12","simulate_power works with Callaway","simulate_power failed with CallawaySantAnna and with generators that provide first_treat"),
("P16","HonestDiD.breakdown_value ends","HonestDiD.breakdown_value never returned for a tolerance below the floating-point resolution of the bisection"),
("P04","pre-trends power keeps its own","the pre-trends power curve and PreTrendsPower kept the caller's M grid and violation weights: overwriting them changed an earlier result"),
("P06","set_params refuses names","set_params accepted attribute and method names as parameters and values the constructor refuses, and later fits ran with them; PreTrendsPower.set_params kept violation_weights unconverted"),
("P15","coded as inf","CallawaySantAnna and SunAbraham treated never-treated units coded as inf as a treatment cohort; the p-values of the degenerate cells depended on the backend"),
("P05","rank_control_units averages","rank_control_units averaged over treated units in set order: with string labels the numbers depended on the hash seed"),
("P12","unusable inference","simulate_power recorded estimate, standard error and p-value of a simulation whose p-value or interval was unusable and also counted it as failed"),
]
json.dump({"findings":[],"fixed":["fixed: property=%s %s %s"%(p,h(s),w) for p,s,w in F]},open('known_findings.json','w'),indent=1)
