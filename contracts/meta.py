NOT_APPLICABLE = {
    "C28": "A relation between two whole runs through the state of CPython's Mersenne Twister, set iteration order and hash seeds: no contract on the functions of /repo expresses or decides it (the random module and set order are external).",
    "C29": "A statement about a probability distribution over executions; contracts over one call speak about each outcome, not about outcome frequencies, so no deductive contract within reach decides uniformity.",
}
DEFAULT_LEVEL = ("exploration", "Executable contracts evaluated on the real code (bounded); deductive part not built yet for this property.")
DEFAULT_TECHNIQUE = "contracts as executable assertions on the real code (bounded stand-in)"
PROVED = "C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C15 C16 C17 C18 C19 C20 C21 C22 C23 C24 C25 C26 C27".split()
NOTE = ("pyvc re-reads the functions from /repo on every run, executes them symbolically on arbitrary (unbounded) inputs against the contracts in contracts/%s.py and discharges every obligation with z3/cvc5. "
        "Assumes: numbers as exact reals/integers, partial correctness, the assumed contracts of networkx/pandas/random listed as trusted_base in the evidence. "
        "Executable contracts on the real code (bounded/%s.py, bounded, not counted as proved) supply failing inputs and stand in for functions named in bounded_stand_ins.")
LEVEL = {p: ("proof", NOTE % (p.lower(), p.lower())) for p in PROVED}
TECHNIQUE = {p: "contract-based deductive verification (pyvc: VCs from the real source, z3 + cvc5), with executable contracts for counterexamples" for p in PROVED}
