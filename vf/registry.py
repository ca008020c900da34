"""Which contract modules decide which property, and what is assumed."""

TRUSTED = [
    "numpy/scipy/pandas operations follow the axioms of vf/shim.py and vf/fake.py (pointwise arithmetic, dot as a finite sum, "
    "sparse one-hot matrices as index maps)",
    "machine arithmetic is treated as real arithmetic, strictly positive quantities lying between 1e-299 and 1e299, except in P29 and "
    "where a guard threshold is itself part of the contract",
    "the sigma-normaliser (vf/norm.py) is sound for the rewrites it applies",
]

CALC_BOUND = ("Concrete leg: pseudo-random data sets of at most ~9 observations, 2-5 alternatives, 1-5 design columns, "
              "compared with an independent pure-Python oracle; bounded, never counted as proved.")

REGISTRY = {}


def reg(pid, contracts, level, technique, note, assumed=(), bounded=""):
    REGISTRY[pid] = {"contracts": list(contracts), "level": level, "technique": technique, "note": note,
                     "assumed": list(assumed), "bounded": bounded}


DED = "contract-based deductive verification of the real source (symbolic execution to obligations, sigma-normaliser); concrete replay leg"
BND = "contracts evaluated on the real code over bounded pseudo-random inputs with an independent oracle (bounded stand-in)"
ALL = "obligations generated from /repo's current source and discharged for all sizes and inputs"


def ded(pid, contracts, note=ALL, **k):
    reg(pid, contracts, "proof", DED, note, bounded=CALC_BOUND, **k)


for p in ("P01", "P02", "P03", "P04", "P05"):
    ded(p, ["c_logit", "c_est"])
for p in ("P06", "P07"):
    ded(p, ["c_trans"])
for p in ("P08", "P09", "P10"):
    ded(p, ["c_nested"], ALL + ", nest structures and availability patterns")
for p in ("P11", "P12"):
    ded(p, ["c_mixed", "c_est"])
ded("P17", ["c_est", "c_fit"])
for p in ("P18", "P19", "P20"):
    ded(p, ["c_fit"])
ded("P13", ["c_data"], ALL + "; nest specifications of 1-3 nests and up to 4 alternatives unrolled")
ded("P14", ["c_data"], ALL + "; specification lists of 1-3 variables unrolled (rows, alternatives and values unbounded)")
ded("P22", ["c_panel"], ALL + "; two mixed variables; at least one returning person (none: bounded)")
ded("P23", ["c_samp"], ALL + "; 1-4 alternatives unrolled (rows, observations, samples unbounded)")
ded("P24", ["c_boot"])
ded("P25", ["c_boot"])
ded("P21", ["c_pred"])
ded("P26", ["c_rep"], ALL + "; replicate counts and parameter groups symbolic, model types enumerated")
ded("P27", ["c_valid", "c_conv"], ALL + "; specification, nest and name containers unrolled")
ded("P28", ["c_frame"], ALL + "; frame conditions of the contracts of P01-P17, P19, P21-P26, P30")
ded("P30", ["c_type"], ALL + "; column-name lists unrolled")
ded("P31", ["c_type"], "all model types and all attribute values; kinds of paths enumerated")
ded("P15", ["c_conv"], ALL + "; lists of variables unrolled (rows, observations, alternatives, availability and values unbounded)")
ded("P16", ["c_conv"], ALL + "; lists of variables unrolled (rows, alternatives, availability, listing order and values unbounded)")
reg("P29", ["c_ieee"], "proof",
    "contract-based deductive verification of the real source in IEEE double arithmetic (symbolic execution to recorded floating-point terms, "
    "case analysis and outward-rounded intervals with a NaN flag); concrete replay leg",
    ALL + " within the stated magnitudes (utilities and shapes up to 1e299, intercepts up to 1e290, weights up to 1e290, at most 1e9 rows, "
    "1e4 alternatives per observation, 1e3 nests)",
    assumed=["+ - * / are correctly rounded (IEEE 754); exp, log, log1p, expm1 and pow are within a relative error of 1e-13, monotone "
             "around their exact points, and NaN only outside their domains",
             "a floating-point sum of non-negative doubles is at least each of its terms and at most (number of terms) * (largest term) * (1 + 1e-9), in any order"],
    bounded=CALC_BOUND)
