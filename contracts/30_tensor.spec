@fn TensorData::new(len, data, shape) -> r
@prop C01 C28
@req len == data.cells().len();; fits::<T>(data.room(), len as nat)
@valid shape.n() == len
@ens r.shape == shape;; r.e() =~= data.cells();; r.offset == 0;; r.size == len

@fn TensorData::from_boxed_slice(slice, shape) -> r
@prop C01 C28
@valid shape.n() == slice@.len()
@ens r.shape == shape;; r.e() =~= slice@

@fn TensorData::from_boxed_rows(slice, shape) -> r
@prop C01 C28
@valid shape.n() == slice@.len() * N
@ens r.shape == shape;; forall|i: int, j: int| 0 <= i < slice@.len() && 0 <= j < N ==> #[trigger] slice@[i]@[j] == r.e()[i * N + j]
@pre assert forall|i: int, j: int| 0 <= i < slice@.len() && 0 <= j < N implies 0 <= #[trigger] idx2(i, j, N as int) < slice@.len() * N by { lemma_idx2(i, j, slice@.len() as int, N as int); }
@post assert forall|i: int, j: int| 0 <= i < slice@.len() && 0 <= j < N implies #[trigger] slice@[i]@[j] == r.e()[i * N + j] by { assert(0 <= idx2(i, j, N as int) < slice@.len() * N); }

@fn TensorData::len(self_) -> r
@prop C01
@ens r == self_.len

@fn TensorData::as_ptr(self_) -> r
@prop C01
@ens r.mem() == self_.data.cells();; r.off() == 0

@fn Tensor::new(data, shape) -> r
@prop C01
@valid shape.n() == data.data.cells().len()
@ens r.shape == shape;; r.e() =~= data.data.cells();; r.offset == 0

@fn Tensor::from_scalar(value) -> r
@prop C01 C19
@ens r.l() =~= Seq::<nat>::empty();; r.e() =~= seq![value]
@pre assert(prod(Seq::<nat>::empty()) == 1);

@fn Tensor::from_vec(vec, shape) -> r
@prop C01 C19
@valid shape.n() == vec@.len()
@ens r.shape == shape;; r.e() =~= vec@

@fn Tensor::from_box(slice, shape) -> r
@prop C01 C19
@valid shape.n() == slice@.len()
@ens r.shape == shape;; r.e() =~= slice@

@fn Tensor::size(self_) -> r
@prop C01
@ens r == self_.size;; r == self_.e().len()
@pure self_.size

@fn Tensor::offset(self_) -> r
@prop C01
@ens r == self_.offset

@fn Tensor::shape(self_) -> r
@prop C01
@ens *r == self_.shape

@fn Tensor::get(self_, offset) -> r
@prop C01
@ens offset < self_.n() ==> r == Some(&self_.e()[offset as int]);; offset >= self_.n() ==> r.is_none()

@fn Tensor::as_slice(self_) -> r
@prop C01
@ens r@ == self_.e()

@fn Tensor::as_wrap_slice(self_, offset) -> r
@prop C01 C06
@valid self_.size > 0
@ens r@ == self_.e().subrange(offset as int % self_.size as int, self_.size as int)
@pre if offset < self_.size { vstd::arithmetic::div_mod::lemma_small_mod(offset as nat, self_.size as nat); }
@post let m = offset as int % self_.size as int; assert(r@ =~= self_.e().subrange(m, self_.size as int));

@fn Tensor::as_wrap_slice_n(self_, offset0, len) -> r
@prop C01 C08
@valid self_.size > 0;; offset0 as int % self_.size as int + len <= self_.size
@ens r@ == self_.e().subrange(offset0 as int % self_.size as int, offset0 as int % self_.size as int + len)
@pre if offset0 < self_.size { vstd::arithmetic::div_mod::lemma_small_mod(offset0 as nat, self_.size as nat); }
@post let m = offset0 as int % self_.size as int; assert(r@ =~= self_.e().subrange(m, m + len));

@fn Tensor::as_ptr(self_) -> r
@prop C01
@ens r.mem() == self_.data.data.cells();; r.off() == self_.offset

@fn Tensor::as_wrap_ptr(self_, offset) -> r
@prop C01
@valid self_.size > 0
@ens r.mem() == self_.data.data.cells();; r.off() == self_.offset + offset as int % self_.size as int
@pre if offset < self_.size { vstd::arithmetic::div_mod::lemma_small_mod(offset as nat, self_.size as nat); }

@fn Tensor::subslice_flat(self_, offset, len, shape) -> r
@prop C01 C05
@valid offset + len <= self_.size;; shape.n() == len
@ens r.shape == shape;; r.e() =~= self_.e().subrange(offset as int, offset + len)

@fn Tensor::iter(self_) -> r
@prop C01
@ens r@ == self_.e()

@fn IntoIterator for &Tensor<T>::into_iter(self_) -> r
@prop C01
@ens r@ == self_.e()

@fn AsRef<Tensor<T>> for Tensor<T>::as_ref(self_) -> r
@prop C01
@ens r.e() == self_.e();; r.l() == self_.l()

@fn AsRef<[T]> for Tensor<T>::as_ref(self_) -> r
@prop C01
@ens r@ == self_.e()

@fn Tensor::iter_row(self_) -> r
@prop C01
@valid self_.shape.rank > 1 ==> self_.shape.s_cols() > 0
@ens r.s@ == self_.e();; r.n == (if self_.shape.rank > 1 { self_.shape.s_cols() } else { 1 })

@fn Tensor::subslice(self_, offset, len) -> r
@prop C05 C01
@valid self_.shape.rank > 0;; offset + len <= self_.l()[0];; len > 0;; pos(self_.l().subrange(1, self_.l().len() as int))
@ens r.l() =~= self_.l().update(0, len as nat);; ({ let w = sprod(self_.l(), 1, self_.shape.rank as int); r.e() =~= self_.e().subrange(offset * w, (offset + len) * w) })
@loop 0
@inv $v == sprod(self_.l(), 1, 1 + $i);; nats($b@) =~= self_.l().subrange(1, self_.shape.rank as int)
@before lemma_sprod_empty(self_.l(), 1);
@end assert(nats($b@)[$x as int] == self_.l()[1 + $x]); lemma_sprod_right(self_.l(), 1, 1 + $i);
@last let w = sprod(self_.l(), 1, self_.shape.rank as int); let L = self_.l(); lemma_sprod_left(L, 0, L.len() as int); lemma_sprod_full(L);
  assert(nats(shape@) =~= L.update(0, len as nat));
  assert((offset + len) * w == offset * w + len * w) by(nonlinear_arith);
  assert((offset + len) * w <= L[0] * w) by(nonlinear_arith) requires offset + len <= L[0], 0 <= w;
  let M = L.update(0, len as nat); lemma_sprod_left(M, 0, M.len() as int); lemma_sprod_full(M); assert(M.subrange(1, M.len() as int) =~= L.subrange(1, L.len() as int));
  assert(pos(M) && M.len() > 0 ==> len > 0 && pos(L.subrange(1, L.len() as int))) by { if pos(M) { assert(M[0] > 0); assert forall|i: int| 0 <= i < L.len() - 1 implies #[trigger] L.subrange(1, L.len() as int)[i] > 0 by { assert(M[i + 1] > 0); } } }
  assert(len > 0 && pos(L.subrange(1, L.len() as int)) ==> pos(M)) by { if len > 0 && pos(L.subrange(1, L.len() as int)) { assert forall|i: int| 0 <= i < M.len() implies #[trigger] M[i] > 0 by { if i > 0 { assert(L.subrange(1, L.len() as int)[i - 1] > 0); } } } }

@fn Clone for Tensor<T>::clone(self_) -> r
@prop C05
@ens r.shape.l() =~= self_.shape.l();; r.e() =~= self_.e();; r == *self_

@fn PartialEq<Tensor<T>> for Tensor<T>::eq(self_, other) -> r
@prop C01 C24
@ens r == (self_.l() == other.l() && seq_eq(self_.e(), other.e()))

@fn Deref for Tensor<T>::deref(self_) -> r
@prop C01
@ens r@ == self_.e()

@fn Tensor::rank(self_) -> r
@prop C03
@ens r == self_.shape.rank

@fn Tensor::len(self_) -> r
@prop C03
@valid self_.shape.rank > 0
@ens r == self_.l()[0]

@fn Tensor::dim(self_, i) -> r
@prop C03
@valid i < self_.shape.rank
@ens r == self_.l()[i as int]

@fn Tensor::rdim(self_, i) -> r
@prop C03
@valid i < 6
@ens i < self_.shape.rank ==> r == self_.l()[self_.shape.rank - 1 - i];; i >= self_.shape.rank ==> r == 0

@fn Tensor::cols(self_) -> r
@prop C03
@ens r == self_.shape.s_cols()

@fn Tensor::rows(self_) -> r
@prop C03
@ens r == self_.shape.s_rows()

@fn Tensor::reshape(self_, shape) -> r
@prop C05
@valid shape.n() == self_.n()
@ens r.shape == shape;; r.e() =~= self_.e()

@fn Tensor::expand_dims(self_, axis0) -> r
@prop C05
@valid ({ let a = if axis0.axis.is_some() { axis0.axis.unwrap() as int } else { 0 }; -(self_.shape.rank + 1) <= a <= self_.shape.rank && self_.shape.rank < 6 && pos(self_.l()) })
@ens ({ let a = if axis0.axis.is_some() { axis0.axis.unwrap() as int } else { 0 }; r.l() =~= self_.l().insert(if a >= 0 { a } else { a + self_.shape.rank + 1 }, 1) });; r.e() =~= self_.e()
@call Tensor::reshape
lemma_prod_ins1(self_.l(), if axis >= 0 { axis as int } else { axis + self_.shape.rank + 1 });

@fn Tensor::flatten(self_) -> r
@prop C05
@ens r.l() =~= seq![self_.n()];; r.e() =~= self_.e()
@call Tensor::reshape
lemma_prod_one(self_.n()); assert($1.l() =~= seq![self_.n()]);

@fn Tensor::squeeze(self_) -> r
@prop C05
@ens r.l() =~= or1(no1(self_.l()));; r.e() =~= self_.e()
@call Tensor::reshape
lemma_prod_no1(self_.l());

@fn Tensor::squeeze_axis(self_, axis) -> r
@prop C05
@req axis.axis.is_some() ==> self_.shape.rank > 0 && okax(axis.axis.unwrap() as int, self_.shape.rank as int)
@ens axis.axis.is_none() ==> r.l() =~= or1(no1(self_.l()));;
  axis.axis.is_some() ==> ({ let a = nax(axis.axis.unwrap() as int, self_.shape.rank as int); r.l() =~= (if self_.l()[a] == 1 { or1(self_.l().remove(a)) } else { self_.l() }) });; r.e() =~= self_.e()
@call Tensor::reshape
lemma_prod_no1(self_.l()); if axis.axis.is_some() { let a = nax(axis.axis.unwrap() as int, self_.shape.rank as int); if self_.l()[a] == 1 { lemma_prod_rem(self_.l(), a); lemma_prod_or1(self_.l().remove(a)); assert(1 * prod(self_.l().remove(a)) == prod(self_.l().remove(a))) by(nonlinear_arith); } }

@spec
// an axis of length one does not change the element count
pub proof fn lemma_prod_rem(s: Seq<nat>, a: int)
    requires 0 <= a < s.len()
    ensures prod(s) == s[a] * prod(s.remove(a)), prod(s) == sprod(s, 0, a) * s[a] * sprod(s, a + 1, s.len() as int), prod(s.remove(a)) == sprod(s, 0, a) * sprod(s, a + 1, s.len() as int)
{
    lemma_sprod_full(s); lemma_sprod_split(s, 0, a, s.len() as int); lemma_sprod_left(s, a, s.len() as int);
    let x = s.subrange(0, a); let y = s.subrange(a + 1, s.len() as int);
    assert(s.remove(a) =~= x + y); lemma_prod_concat(x, y);
    assert(prod(x) * (s[a] * prod(y)) == s[a] * (prod(x) * prod(y))) by(nonlinear_arith);
    assert(prod(x) * (s[a] * prod(y)) == prod(x) * s[a] * prod(y)) by(nonlinear_arith);
}
pub proof fn lemma_prod_ins1(s: Seq<nat>, a: int)
    requires 0 <= a <= s.len()
    ensures prod(s.insert(a, 1)) == prod(s)
{
    let t = s.insert(a, 1); lemma_prod_rem(t, a); assert(t.remove(a) =~= s); assert(t[a] == 1); assert(1 * prod(s) == prod(s)) by(nonlinear_arith);
}
pub proof fn lemma_prod_or1(s: Seq<nat>) ensures prod(or1(s)) == prod(s) { if s.len() == 0 { lemma_prod_one(1); assert(prod(s) == 1); } }
pub proof fn lemma_prod_no1_(s: Seq<nat>) ensures prod(no1(s)) == prod(s) decreases s.len()
{
    if s.len() > 0 {
        lemma_prod_no1_(s.drop_last());
        let t = no1(s.drop_last());
        if s.last() != 1 { assert(t.push(s.last()).drop_last() =~= t); assert(t.push(s.last()).last() == s.last()); }
        else { assert(prod(s.drop_last()) * 1 == prod(s.drop_last())) by(nonlinear_arith); }
    }
}
pub proof fn lemma_prod_no1(s: Seq<nat>) ensures prod(or1(no1(s))) == prod(s) { lemma_prod_no1_(s); lemma_prod_or1(no1(s)); }

@fn Index<usize> for Tensor<T>::index(self_, index) -> r
@prop C01 C04
@valid index < self_.n()
@ens *r == self_.e()[index as int]
