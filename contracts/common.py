"""Assumptions shared by all checks (reported in every evidence file)."""

TRUSTED = [
    "pyvc (this verification condition generator: mechanical source transformation, symbolic numpy contracts, loop cutting)",
    "z3 5.3.2 and cvc5",
    "CPython 3.12 executing the transformed source of /repo/src/aspsim",
]

BASE_ASSUMPTIONS = [
    "floating point arithmetic is treated as exact real arithmetic, integers as unbounded",
    "numpy functions satisfy the contracts written in pyvc/tensor.py and pyvc/npshim.py (cross-checked by running every harness on the real numpy)",
    "printing and plotting have no effect on the properties",
]
