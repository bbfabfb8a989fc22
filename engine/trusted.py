"""What a discharged obligation rests on, reported in every evidence file."""
TRUSTED = [
    "z3 (python binding of the tooling venv) for linear/nonlinear arithmetic and arrays",
    "engine/: the extraction (Python ast of /repo's files, re-read on every run), the symbolic semantics of the Python/numpy subset, the sum normal form",
    "engine/lib.py: contracts assumed for numpy, scipy.sparse, pandas and pyspark operations",
]
ASSUMPTIONS = [
    "floating point is treated as exact extended-real arithmetic (rounding, overflow and underflow are not modelled); NaN and infinities are tracked",
    "numba-compiled functions behave as their Python source; numba error_model and bounds checks off are covered by the safety obligations",
    "machine integers are mathematical integers except where an obligation names a width",
    "random numbers are arbitrary values of [0, 1); independence of successive draws is the generator's contract",
    "pyspark: map applies the function to every element, fold combines the slices in any order starting each from the zero value (checked: the operation is an addition or an appending, the zero value neutral); the draws of different elements are independent",
    "the induction schema over block numbers joins the proved steps of the partition lemma; a list folded in another order is compared as a set of entries",
    "extraction drops docstrings, decorators (jit options), dtype widths and warnings",
]
