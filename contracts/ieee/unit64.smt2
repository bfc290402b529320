; axiom_unit64: for every 64-bit a, (a as f64) / (u64::MAX as f64) lies in [0, 1]
; the negation must be unsatisfiable
(set-logic QF_BVFP)
(declare-const a (_ BitVec 64))
(define-fun x () (_ FloatingPoint 11 53) ((_ to_fp_unsigned 11 53) RNE a))
(define-fun m () (_ FloatingPoint 11 53) ((_ to_fp_unsigned 11 53) RNE #xffffffffffffffff))
(define-fun q () (_ FloatingPoint 11 53) (fp.div RNE x m))
(assert (not (and (fp.leq ((_ to_fp 11 53) RNE 0.0) q) (fp.leq q ((_ to_fp 11 53) RNE 1.0)))))
(check-sat)
