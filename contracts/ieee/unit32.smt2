; axiom_unit32: for every 32-bit a, (a as f32) / (u32::MAX as f32) lies in [0, 1]
; the negation must be unsatisfiable
(set-logic QF_BVFP)
(declare-const a (_ BitVec 32))
(define-fun x () (_ FloatingPoint 8 24) ((_ to_fp_unsigned 8 24) RNE a))
(define-fun m () (_ FloatingPoint 8 24) ((_ to_fp_unsigned 8 24) RNE #xffffffff))
(define-fun q () (_ FloatingPoint 8 24) (fp.div RNE x m))
(assert (not (and (fp.leq ((_ to_fp 8 24) RNE 0.0) q) (fp.leq q ((_ to_fp 8 24) RNE 1.0)))))
(check-sat)
