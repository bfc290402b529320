; law_eq, law_ne, law_neq, law_gt, law_ge, law_lt, law_le, law_strict: == is symmetric, > is < reversed, >= is <= reversed, strict comparison excludes equality and the converse
; the negation must be unsatisfiable (SMT-LIB has one NaN: equality is up to its payload)
(set-logic QF_FP)
(declare-const a (_ FloatingPoint 8 24))
(declare-const b (_ FloatingPoint 8 24))
(assert (not (and (= (fp.eq a b) (fp.eq b a)) (= (fp.gt a b) (fp.lt b a)) (= (fp.geq a b) (fp.leq b a)) (=> (fp.lt a b) (and (fp.leq a b) (not (fp.leq b a)) (not (fp.eq a b)) (not (fp.lt b a)))) (=> (fp.gt a b) (and (fp.geq a b) (not (fp.geq b a)) (not (fp.eq a b)) (not (fp.gt b a)))))))
(check-sat)
