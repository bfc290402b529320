; law_add: a + b = b + a
; the negation must be unsatisfiable (SMT-LIB has one NaN: equality is up to its payload)
(set-logic QF_FP)
(declare-const a (_ FloatingPoint 8 24))
(declare-const b (_ FloatingPoint 8 24))
(assert (not (= (fp.add RNE a b) (fp.add RNE b a))))
(check-sat)
