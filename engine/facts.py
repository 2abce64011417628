"""What the proofs trust and assume; reported in every evidence file (DESIGN.md section 3 says more on each)."""
TRUSTED = [
    "clang 18 (parsing the C++ sources into the AST that is translated) and Python's ast module (sacf.py)",
    "the translation of the C++ subset in engine/cexec.py, loops.py, streams.py and of the Python subset in engine/pyexec.py (loop summaries are candidates proved inductive; the translators themselves are trusted)",
    "the meaning given to the standard library functions used (vector members, lower_bound, upper_bound, remove_copy_if, transform, accumulate, copy, fill, min, max, abs, exp, isnan, distance, getline, istringstream)",
    "pybind11: lists are copied to vectors and back element for element, overloads are tried in order, keep_alive and registered exceptions do what they say",
    "the axioms for sums, counts, first/least positions, enumerations and exp (positive, at most 1 for non-positive arguments, strictly increasing) in engine/prover.py and lemmas.py",
    "z3 4.x / cvc5 1.1.2 answering unsat",
]
ASSUMPTIONS = [
    "double arithmetic is treated as exact real arithmetic with one flag for NaN/not finite; rounding is only covered by the replay oracle's tolerances (narrowing conversions are not ignored: their result is an unknown value)",
    "int/long/size_t are mathematical integers (no overflow: fewer than 2^31 points and lags; unsigned subtraction below zero wraps); allocation never fails",
    "iterator and reference validity is proved by comparing container lengths (growth, replacement, moves); a reference held by a caller across an inlined callee that replaces a container by one of equal length is left to the replay build (-D_GLIBCXX_DEBUG)",
    "a data object reaches a correlator only through its constructors (all fields private); what they establish is itself proved (lemma: valid DataStructure)",
    "files: a sequence of text lines, at most three numbers extracted from the beginning of each line; text to double conversion is the library's",
    "callers see default_resolution, natural_selection, fast_start and acf as named functions; that the callee reads nothing but the named inputs is an obligation of the callee (reads clause)",
    "no monkey patching of the Python classes; the interpreter (PyPy) implements the language",
]
BOUNDED = {}
EXTRA = {}
LEVEL = {}
