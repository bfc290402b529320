
@template f1(name | V)
@fn Tensor::%name%(self_) -> r
@prop C25
@ens el1(*self_, |_x: T| s1_%name%::<T, %V%>(_x), r)
@endtemplate
@template f2(name | U)
@fn Tensor::%name%(self_, b) -> r
@prop C25
@valid ok2(*self_, *b)
@ens el2(*self_, *b, |_x: T, _y: %U%| s2_%name%::<T, %U%, T>(_x, _y), r)
@endtemplate
@template c1(name | V)
@fn Tensor<Complex<T>>::%name%(self_) -> r
@prop C25
@ens el1(*self_, |_x: Complex<T>| s1_%name%::<Complex<T>, %V%>(_x), r)
@endtemplate
@template c2(name | U)
@fn Tensor<Complex<T>>::%name%(self_, b) -> r
@prop C25
@valid ok2(*self_, *b)
@ens el2(*self_, *b, |_x: Complex<T>, _y: %U%| s2_%name%::<Complex<T>, %U%, Complex<T>>(_x, _y), r)
@endtemplate
@fn Tensor::powi(self_, rhs) -> r
@prop C25
@valid ok2(*self_, rhs)
@ens el2(*self_, rhs, |_x: T, _y: i32| s2_powi::<T, i32, T>(_x, _y), r)
@fn MulAdd<&Tensor<T>,&Tensor<T>> for Tensor<T>::mul_add(self_, b, c) -> r
@prop C25
@valid bc(self_.l(), b.l());; bc(bcl(self_.l(), b.l()), c.l());; self_.n() > 0;; b.n() > 0;; c.n() > 0
@ens r.l() == bcl(bcl(self_.l(), b.l()), c.l());; forall|k: int| 0 <= k < r.n() ==> #[trigger] r.e()[k] == s3_mul_add::<T, T, T, T>(self_.e()[k % (self_.n() as int)], b.e()[k % (b.n() as int)], c.e()[k % (c.n() as int)])
@fn Tensor<Complex<T>>::re(self_) -> r
@prop C25
@ens el1(*self_, |_x: Complex<T>| _x.re, r)
@fn Tensor<Complex<T>>::im(self_) -> r
@prop C25
@ens el1(*self_, |_x: Complex<T>| _x.im, r)
@fn Tensor<Complex<T>>::from_polar(polar) -> r
@prop C25
@ens el1(*polar, |_x: (T, T)| s2_from_polar::<T, T, Complex<T>>(_x.0, _x.1), r)
@use f1(floor | T)
@use f1(ceil | T)
@use f1(round | T)
@use f1(trunc | T)
@use f1(fract | T)
@use f1(signum | T)
@use f1(recip | T)
@use f1(sqrt | T)
@use f1(exp | T)
@use f1(exp2 | T)
@use f1(ln | T)
@use f1(log2 | T)
@use f1(log10 | T)
@use f1(to_degrees | T)
@use f1(to_radians | T)
@use f1(cbrt | T)
@use f1(sin | T)
@use f1(asin | T)
@use f1(sinh | T)
@use f1(asinh | T)
@use f1(cos | T)
@use f1(acos | T)
@use f1(cosh | T)
@use f1(acosh | T)
@use f1(tan | T)
@use f1(atan | T)
@use f1(tanh | T)
@use f1(atanh | T)
@use f1(exp_m1 | T)
@use f1(ln_1p | T)
@use f1(swap_bytes | T)
@use f1(reverse_bits | T)
@use f1(to_be | T)
@use f1(to_le | T)
@use f1(count_ones | u32)
@use f1(count_zeros | u32)
@use f1(leading_ones | u32)
@use f1(leading_zeros | u32)
@use f1(trailing_ones | u32)
@use f1(trailing_zeros | u32)
@use f1(sin_cos | (T, T))
@use f2(powf | T)
@use f2(log | T)
@use f2(hypot | T)
@use f2(atan2 | T)
@use f2(copysign | T)
@use f2(rotate_left | u32)
@use f2(rotate_right | u32)
@use c1(norm_sqr | T)
@use c1(l1_norm | T)
@use c1(norm | T)
@use c1(arg | T)
@use c1(conj | Complex<T>)
@use c1(inv | Complex<T>)
@use c1(finv | Complex<T>)
@use c1(to_polar | (T, T))
@use c2(scale | T)
@use c2(unscale | T)
@use c2(powu | u32)
@use c2(powc | Complex<T>)
@use c2(expf | T)
@use c2(fdiv | Complex<T>)
