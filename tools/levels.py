"""The level of each check: (level, level_note, technique)."""
P = "Verus contracts on the functions extracted from the compiler's THIR of the current tree"
NOTE = ("Every function the property is anchored in carries a contract and Verus discharges all its obligations for all inputs, in two modes: total (no panic where the property promises a result) and partial (whatever is returned is right, a panic being allowed exactly where the contract lets it). "
        "Trusted: the THIR-to-Verus translation (tools/lower.py), the prelude models of std and raw memory (contracts/00_prelude.rs), dimensions below 2^32, sums and products of usize/isize values taken as mathematical integers (subtraction, division and all narrower types are checked as in the debug profile). A bounded replay on the real crate supplies failing inputs and stands in when the source's structure has changed too much for the loop annotations.")
LEVEL = {}
for i in ("C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17", "C18", "C19", "C20", "C21", "C22", "C23", "C24", "C25", "C26", "C27", "C28"):
    LEVEL[i] = ("proof", NOTE, P)
LEVEL["C29"] = ("translation_validation", "Bounded in the structures, unbounded in the values: the macro of the current tree is run on the probe structures of optprobe/src/lib.rs (every kind of field it tells apart, 0 to 13 fields, derived and hand-written defaults), and Verus proves for all values that every setter, into_arg and default it generated has its contract. Structures of other forms are not covered. Trusted: the THIR-to-Verus translation; an impl Into<T> argument is taken as its converted value.",
    "Verus contracts on every function the macro generates for a set of probe structures (extracted from the compiler's THIR on every run)")
