"""Writes /verif/MANIFEST.json."""
import json
import os

HERE = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
DET = "runtime monitors over recorded executions (deterministic oracles)"
STAT = ("runtime monitors over recorded executions: sequential probability "
        "integral transforms and martingale rate tests of every random draw, "
        "plus deterministic oracles")
TW = ("differential runtime monitoring: twin executions compared exactly, "
      "with perturbations injected in one of them")
NOTE = ("Every execution of the seeded workload is judged by oracles written "
        "independently of the code; nothing is claimed for inputs that were "
        "not driven. ")
SN = ("Random laws are judged at a false-alarm probability of 1e-7 per run "
      "(Bonferroni over all tests), so small deviations need the thorough "
      "tier. ")
T = {
 "C01": (DET, "Independent weight invariants after every call of random call histories on all ten models."),
 "C02": (DET, "Held prefixes and tail masses checked after every extension; x up to 1-1e-12."),
 "C03": (STAT, SN + "All weights of all models, jointly (sequential PITs)."),
 "C04": (STAT, SN + "All models with a closed-form posterior; hierarchical models only where they reduce to one (see C05)."),
 "C05": (STAT, SN + "Successive-conditional simulation (Geweke): joint law of labels and weights after alternations."),
 "C06": (STAT, SN + "Labels against the held weights by randomized PITs and rates."),
 "C07": (DET, "Log densities recomputed from the held realization with scipy/own formulas."),
 "C08": (DET, "Expectations recomputed in closed form from the responsibilities."),
 "C09": (DET, "Closed-form expectations of the three terms, and the KL inequality."),
 "C10": (DET, "scipy's distributions and exhaustive sums over set partitions."),
 "C11": (STAT, SN + "Consecutive saved states against exact full conditionals (normal-inverse-Wishart, sticks, slices, labels)."),
 "C12": (STAT, SN + "Enumerated exact posterior over clusterings, and successive-conditional simulation of the whole sampler; long-run frequencies are judged through batch means."),
 "C13": (DET, "Structural invariants of every saved state and counter over warm and cold restarts."),
 "C14": (DET, "MAP recomputed over every visited state; a soft hook (subclass override, skipped if the method is gone) sees the unsaved steps."),
 "C15": (DET, "Densities recomputed from the saved states."),
 "C16": (DET, "Marginals recomputed, plus quadrature."),
 "C17": (DET, "Cluster labels and uncertainties recomputed; exact ties excluded."),
 "C18": (DET, "Co-clustering frequencies recomputed from the saved states; consensus checked on separable affinities."),
 "C19": (DET, "Each sweep against the coordinate optimum; evidence bound recomputed independently."),
 "C20": (DET, "Sweeps replayed one by one; evidence bound recomputed independently."),
 "C21": (DET, "Student-t and normal mixtures recomputed; quadrature."),
 "C22": (DET, "Responsibilities recomputed in log scale."),
 "C23": (TW, "All accepted representations, compared exactly (up to rounding where the layout may change summation)."),
 "C24": (TW, "Inputs compared with copies after every call, then overwritten."),
 "C25": (TW, "Twins under perturbed global generators, interleaved objects, progress display, and separate processes with other hash seeds."),
 "C26": (TW, "Queried and unqueried twins compared exactly, continuation included."),
 "C27": (TW, "Every query in every fitted/unfitted combination; answers before and after the other engine's fits."),
 "C28": (TW, "Old object against a fresh one with an identically positioned generator."),
 "C29": (STAT, SN + "One-component models against the exact normal-inverse-Wishart posterior; weighting parameters by the law of the weights."),
 "C30": (DET, "Artists of the drawn figure compared with the model."),
 "C31": (DET, "Cell by cell against the harness's own parse of the shipped files."),
 "C32": (TW, "Invalid calls injected in one twin; every documented valid value driven."),
 "C33": (TW, "One long run against the same run cut into warm starts, compared exactly."),
 "C34": (TW, "Twins on the data in other units: powers of two exactly, shifts up to rounding."),
 "C35": (STAT, SN + "k-means starts on far apart groups of distinct sizes; the state at the entry of the first step seen by a soft observer (skipped if the step method is gone)."),
 "C36": (STAT, SN + "The sampling helpers called directly (skipped if gone), scalar and vector forms, by randomized PITs."),
 "C38": (TW, "Deep copies and pickles driven apart, then compared exactly with an uncopied twin."),
 "C39": (TW, "A scheduler owning every executed line of pyrichlet switches between threads at seeded random lines; answers compared exactly with the calls run alone."),
 "C40": (DET, "Saved states, factors and answers audited after fits of extreme data."),
 "C41": (STAT.replace("sequential probability integral transforms and martingale rate tests of every random draw, plus deterministic oracles", "twin executions in different orders and coordinates, compared exactly where deterministic and by sign tests in law otherwise"), SN + "Variational pairs are judged where k-means itself is clear-cut."),
 "C37": (TW, "Exceptions injected before random executed lines of weighting models and helpers; afterwards refusals, earlier answers and fresh objects compared exactly."),
}
checks = [{"property": k, "quick_cmd": "./run.sh %s" % k,
           "thorough_cmd": "./run.sh %s --tier thorough" % k,
           "evidence_file": "evidence/%s.json" % k, "technique": t,
           "level": "exploration", "level_note": NOTE + n}
          for k, (t, n) in sorted(T.items())]
json.dump({"version": 1, "setup_cmd": "true", "checks": checks,
           "not_applicable": [],
           "notes": "Pure Python under test: nothing to build; no hooks in "
                    "/repo. See DESIGN.md."},
          open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks))
