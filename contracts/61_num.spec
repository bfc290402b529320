@spec
// ---- element-wise results
pub open spec fn el1<T, V>(t: Tensor<T>, g: spec_fn(T) -> V, r: Tensor<V>) -> bool { r.shape == t.shape && forall|k: int| 0 <= k < r.n() ==> #[trigger] r.e()[k] == g(t.e()[k]) }
pub open spec fn el2<T, U, V>(t: Tensor<T>, u: Tensor<U>, g: spec_fn(T, U) -> V, r: Tensor<V>) -> bool {
    r.l() == bcl(t.l(), u.l()) && forall|k: int| 0 <= k < r.n() ==> #[trigger] r.e()[k] == g(t.e()[k % (t.n() as int)], u.e()[k % (u.n() as int)])
}
pub open spec fn ok2<T, U>(t: Tensor<T>, u: Tensor<U>) -> bool { bc(t.l(), u.l()) && t.n() > 0 && u.n() > 0 }

@template un1(name | V)
@fn Tensor::%name%(self_) -> r
@prop C24
@ens el1(*self_, |_x: T| s1_%name%::<T, %V%>(_x), r)
@endtemplate
@use un1(abs | T)
@use un1(neg | T)
@use un1(is_negative | bool)
@use un1(is_positive | bool)
@fn Tensor::square(self_) -> r
@prop C24
@ens el1(*self_, |_x: T| s2_mul::<T, T, V>(_x, _x), r)
@fn Tensor::abs_sub(self_, rhs) -> r
@prop C24
@valid ok2(*self_, *rhs)
@ens el2(*self_, *rhs, |_x: T, _y: T| s2_abs_sub::<T, T, T>(_x, _y), r)
@template mm(name)
@fn Tensor::%name%(self_, rhs) -> r
@prop C24
@valid ok2(*self_, rhs)
@ens el2(*self_, rhs, |_x: T, _y: T| s2_%name%::<T, T, T>(_x, _y), r)
@endtemplate
@use mm(min)
@use mm(max)
@template unop(Op | op)
@fn %Op% for Tensor<T>::%op%(self_) -> r
@prop C24
@ens el1(self_, |_x: T| s1_%op%::<T, T>(_x), r)
@fn %Op% for &Tensor<T>::%op%(self_) -> r
@prop C24
@ens el1(*self_, |_x: T| s1_%op%::<T, T>(_x), r)
@endtemplate
@use unop(Neg | neg)
@use unop(Not | not)
@template binop(Op | op)
@fn %Op%<Tensor<U>> for Tensor<T>::%op%(self_, rhs) -> r
@prop C24
@valid ok2(self_, rhs)
@ens el2(self_, rhs, |_x: T, _y: U| s2_%op%::<T, U, V>(_x, _y), r)
@fn %Op%<Tensor<U>> for &Tensor<T>::%op%(self_, rhs) -> r
@prop C24
@valid ok2(*self_, rhs)
@ens el2(*self_, rhs, |_x: T, _y: U| s2_%op%::<T, U, V>(_x, _y), r)
@fn %Op%<&Tensor<U>> for Tensor<T>::%op%(self_, rhs) -> r
@prop C24
@valid ok2(self_, *rhs)
@ens el2(self_, *rhs, |_x: T, _y: U| s2_%op%::<T, U, V>(_x, _y), r)
@fn %Op%<&Tensor<U>> for &Tensor<T>::%op%(self_, rhs) -> r
@prop C24
@valid ok2(*self_, *rhs)
@ens el2(*self_, *rhs, |_x: T, _y: U| s2_%op%::<T, U, V>(_x, _y), r)
@fn %Op%<U> for Tensor<T>::%op%(self_, y) -> r
@prop C24
@ens el1(self_, |_x: T| s2_%op%::<T, U, V>(_x, y), r)
@fn %Op%<U> for &Tensor<T>::%op%(self_, y) -> r
@prop C24
@ens el1(*self_, |_x: T| s2_%op%::<T, U, V>(_x, y), r)
@endtemplate
@use binop(Add | add)
@use binop(Sub | sub)
@use binop(Mul | mul)
@use binop(Div | div)
@use binop(Rem | rem)
@use binop(BitAnd | bitand)
@use binop(BitOr | bitor)
@use binop(BitXor | bitxor)
@use binop(Shl | shl)
@use binop(Shr | shr)
@template sbin(Op | op | ty)
@fn %Op%<Tensor<%ty%>> for %ty%::%op%(self_, tensor) -> r
@prop C24
@elem
@ens el1(tensor, |_y: %ty%| s2_%op%::<%ty%, %ty%, %ty%>(self_, _y), r)
@fn %Op%<&Tensor<%ty%>> for %ty%::%op%(self_, tensor) -> r
@prop C24
@elem
@ens el1(*tensor, |_y: %ty%| s2_%op%::<%ty%, %ty%, %ty%>(self_, _y), r)
@endtemplate
@use sbin(Add | add | i8)
@use sbin(Add | add | i16)
@use sbin(Add | add | i32)
@use sbin(Add | add | i64)
@use sbin(Add | add | i128)
@use sbin(Add | add | isize)
@use sbin(Add | add | u8)
@use sbin(Add | add | u16)
@use sbin(Add | add | u32)
@use sbin(Add | add | u64)
@use sbin(Add | add | u128)
@use sbin(Add | add | usize)
@use sbin(Add | add | f32)
@use sbin(Add | add | f64)
@use sbin(Sub | sub | i8)
@use sbin(Sub | sub | i16)
@use sbin(Sub | sub | i32)
@use sbin(Sub | sub | i64)
@use sbin(Sub | sub | i128)
@use sbin(Sub | sub | isize)
@use sbin(Sub | sub | u8)
@use sbin(Sub | sub | u16)
@use sbin(Sub | sub | u32)
@use sbin(Sub | sub | u64)
@use sbin(Sub | sub | u128)
@use sbin(Sub | sub | usize)
@use sbin(Sub | sub | f32)
@use sbin(Sub | sub | f64)
@use sbin(Mul | mul | i8)
@use sbin(Mul | mul | i16)
@use sbin(Mul | mul | i32)
@use sbin(Mul | mul | i64)
@use sbin(Mul | mul | i128)
@use sbin(Mul | mul | isize)
@use sbin(Mul | mul | u8)
@use sbin(Mul | mul | u16)
@use sbin(Mul | mul | u32)
@use sbin(Mul | mul | u64)
@use sbin(Mul | mul | u128)
@use sbin(Mul | mul | usize)
@use sbin(Mul | mul | f32)
@use sbin(Mul | mul | f64)
@use sbin(Div | div | i8)
@use sbin(Div | div | i16)
@use sbin(Div | div | i32)
@use sbin(Div | div | i64)
@use sbin(Div | div | i128)
@use sbin(Div | div | isize)
@use sbin(Div | div | u8)
@use sbin(Div | div | u16)
@use sbin(Div | div | u32)
@use sbin(Div | div | u64)
@use sbin(Div | div | u128)
@use sbin(Div | div | usize)
@use sbin(Div | div | f32)
@use sbin(Div | div | f64)
@use sbin(Rem | rem | i8)
@use sbin(Rem | rem | i16)
@use sbin(Rem | rem | i32)
@use sbin(Rem | rem | i64)
@use sbin(Rem | rem | i128)
@use sbin(Rem | rem | isize)
@use sbin(Rem | rem | u8)
@use sbin(Rem | rem | u16)
@use sbin(Rem | rem | u32)
@use sbin(Rem | rem | u64)
@use sbin(Rem | rem | u128)
@use sbin(Rem | rem | usize)
@use sbin(Rem | rem | f32)
@use sbin(Rem | rem | f64)
@use sbin(BitAnd | bitand | bool)
@use sbin(BitAnd | bitand | i8)
@use sbin(BitAnd | bitand | i16)
@use sbin(BitAnd | bitand | i32)
@use sbin(BitAnd | bitand | i64)
@use sbin(BitAnd | bitand | i128)
@use sbin(BitAnd | bitand | isize)
@use sbin(BitAnd | bitand | u8)
@use sbin(BitAnd | bitand | u16)
@use sbin(BitAnd | bitand | u32)
@use sbin(BitAnd | bitand | u64)
@use sbin(BitAnd | bitand | u128)
@use sbin(BitAnd | bitand | usize)
@use sbin(BitOr | bitor | bool)
@use sbin(BitOr | bitor | i8)
@use sbin(BitOr | bitor | i16)
@use sbin(BitOr | bitor | i32)
@use sbin(BitOr | bitor | i64)
@use sbin(BitOr | bitor | i128)
@use sbin(BitOr | bitor | isize)
@use sbin(BitOr | bitor | u8)
@use sbin(BitOr | bitor | u16)
@use sbin(BitOr | bitor | u32)
@use sbin(BitOr | bitor | u64)
@use sbin(BitOr | bitor | u128)
@use sbin(BitOr | bitor | usize)
@use sbin(BitXor | bitxor | bool)
@use sbin(BitXor | bitxor | i8)
@use sbin(BitXor | bitxor | i16)
@use sbin(BitXor | bitxor | i32)
@use sbin(BitXor | bitxor | i64)
@use sbin(BitXor | bitxor | i128)
@use sbin(BitXor | bitxor | isize)
@use sbin(BitXor | bitxor | u8)
@use sbin(BitXor | bitxor | u16)
@use sbin(BitXor | bitxor | u32)
@use sbin(BitXor | bitxor | u64)
@use sbin(BitXor | bitxor | u128)
@use sbin(BitXor | bitxor | usize)
@use sbin(Shl | shl | i8)
@use sbin(Shl | shl | i16)
@use sbin(Shl | shl | i32)
@use sbin(Shl | shl | i64)
@use sbin(Shl | shl | i128)
@use sbin(Shl | shl | isize)
@use sbin(Shl | shl | u8)
@use sbin(Shl | shl | u16)
@use sbin(Shl | shl | u32)
@use sbin(Shl | shl | u64)
@use sbin(Shl | shl | u128)
@use sbin(Shl | shl | usize)
@use sbin(Shr | shr | i8)
@use sbin(Shr | shr | i16)
@use sbin(Shr | shr | i32)
@use sbin(Shr | shr | i64)
@use sbin(Shr | shr | i128)
@use sbin(Shr | shr | isize)
@use sbin(Shr | shr | u8)
@use sbin(Shr | shr | u16)
@use sbin(Shr | shr | u32)
@use sbin(Shr | shr | u64)
@use sbin(Shr | shr | u128)
@use sbin(Shr | shr | usize)

@fn PartialOrd<Tensor<T>> for Tensor<T>::partial_cmp(self_, other) -> r
@prop C24
@ens r == lexcmp(self_.e(), other.e())
