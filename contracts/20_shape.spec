@spec
// ---- list edits (outer-to-inner lists of dimensions)
// without the ones
pub open spec fn no1(s: Seq<nat>) -> Seq<nat> decreases s.len() {
    if s.len() == 0 { s } else if s.last() == 1 { no1(s.drop_last()) } else { no1(s.drop_last()).push(s.last()) }
}
pub open spec fn or1(s: Seq<nat>) -> Seq<nat> { if s.len() == 0 { seq![1nat] } else { s } }
pub open spec fn nats(s: Seq<usize>) -> Seq<nat> { s.map_values(|x: usize| x as nat) }
pub open spec fn pos(s: Seq<nat>) -> bool { forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] > 0 }
// inner-first view of the first n dims
pub open spec fn rl(d: Seq<u32>, n: int) -> Seq<nat> { Seq::new(n as nat, |i: int| d[n - 1 - i] as nat) }
// the first n dims (inner first) without the ones, outer to inner
pub open spec fn no1r(d: Seq<u32>, n: int) -> Seq<nat> decreases n {
    if n <= 0 { Seq::empty() } else if d[n - 1] == 1 { no1r(d, n - 1) } else { seq![d[n - 1] as nat] + no1r(d, n - 1) }
}
pub proof fn lemma_no1_front(s: Seq<nat>)
    requires s.len() > 0
    ensures no1(s) =~= (if s[0] == 1 { no1(s.drop_first()) } else { seq![s[0]] + no1(s.drop_first()) })
    decreases s.len()
{
    reveal_with_fuel(no1, 2);
    if s.len() > 1 {
        lemma_no1_front(s.drop_last());
        assert(s.drop_last().drop_first() =~= s.drop_first().drop_last());
        assert(s.drop_first().last() == s.last());
        assert(s.drop_last()[0] == s[0]);
        if s[0] != 1 && s.last() != 1 { assert((seq![s[0]] + no1(s.drop_first().drop_last())).push(s.last()) =~= seq![s[0]] + no1(s.drop_first().drop_last()).push(s.last())); }
    } else { assert(s.drop_last() =~= Seq::empty()); assert(s.drop_first() =~= Seq::empty()); }
}
pub proof fn lemma_no1r(d: Seq<u32>, n: int)
    requires 0 <= n <= d.len()
    ensures no1r(d, n) =~= no1(rl(d, n))
    decreases n
{
    if n > 0 {
        lemma_no1r(d, n - 1); lemma_no1_front(rl(d, n));
        assert(rl(d, n).drop_first() =~= rl(d, n - 1));
        assert(rl(d, n)[0] == d[n - 1]);
    } else { assert(rl(d, 0) =~= Seq::empty()); }
}
// the last n entries
pub open spec fn tl(s: Seq<nat>, n: int) -> Seq<nat> { s.subrange(s.len() - n, s.len() as int) }
pub open spec fn bc(a: Seq<nat>, b: Seq<nat>) -> bool {
    let n = smin(a.len() as int, b.len() as int); tl(a, n) =~= tl(b, n)
}
pub open spec fn bcl(a: Seq<nat>, b: Seq<nat>) -> Seq<nat> { if a.len() < b.len() { b } else { a } }
// an axis argument, counted from the outside or (negative) from the inside
pub open spec fn okax(a: int, rank: int) -> bool { -rank <= a < rank }
pub open spec fn nax(a: int, rank: int) -> int { if a < 0 { a + rank } else { a } }
pub proof fn lemma_trem(a: int, rank: int)
    requires okax(a, rank), rank > 0
    ensures trem(a + rank, rank) == nax(a, rank), (a + rank) % rank == nax(a, rank), 0 <= nax(a, rank) < rank
{
    if a >= 0 { vstd::arithmetic::div_mod::lemma_mod_add_multiples_vanish(a, rank); vstd::arithmetic::div_mod::lemma_small_mod(a as nat, rank as nat); }
    else { vstd::arithmetic::div_mod::lemma_small_mod((a + rank) as nat, rank as nat); }
}

@fn Shape::scalar() -> r
@prop C02
@ens r.l() =~= Seq::<nat>::empty()

@fn Shape::vector(len) -> r
@prop C02
@valid len > 0
@ens r.l() =~= seq![len as nat]

@fn Shape::size(self_) -> r
@prop C03
@dims
@ens r == self_.n()
@loop 0
@inv $v == sprod(self_.l(), self_.rank - $i, self_.rank as int);;
  $b@ =~= self_.dims@.subrange(0, self_.rank as int)
@before lemma_sprod_empty(self_.l(), self_.rank as int);
@end lemma_sprod_left(self_.l(), self_.rank - $i, self_.rank as int);
@after lemma_sprod_full(self_.l());

@fn Shape::rank(self_) -> r
@prop C03
@ens r == self_.l().len();; r == self_.rank
@pure self_.rank

@fn Shape::dim(self_, i) -> r
@prop C03
@valid i < self_.rank
@ens r == self_.l()[i as int]

@fn Shape::with_dim(self_, i, value) -> r
@prop C02
@valid i < self_.rank
@ens r.l() =~= self_.l().update(i as int, value as nat)

@fn Shape::replace(self_, i, value) -> r
@prop C02
@valid i < self_.rank
@ens r.l() =~= self_.l().update(i as int, value as nat)

@fn Shape::rreplace(self_, i, value) -> r
@prop C02
@valid i < self_.rank
@ens r.l() =~= self_.l().update(self_.rank - 1 - i, value as nat)

@fn Shape::rdim(self_, i) -> r
@prop C03
@valid i < 6
@ens i < self_.rank ==> r == self_.l()[self_.rank - 1 - i];; i >= self_.rank ==> r == 0

@fn Shape::idim(self_, i) -> r
@prop C03
@req self_.rank > 0;; okax(i as int, self_.rank as int)
@ens r == self_.l()[nax(i as int, self_.rank as int)]
@pre lemma_trem(i as int, self_.rank as int);

@fn Shape::len(self_) -> r
@prop C03
@valid self_.rank > 0
@ens r == self_.l()[0]

@fn Shape::cols(self_) -> r
@prop C03
@ens r == self_.s_cols()

@fn Shape::with_cols(self_, col) -> r
@prop C02
@valid self_.rank > 0
@ens r.l() =~= self_.l().update(self_.rank - 1, col as nat)

@fn Shape::rows(self_) -> r
@prop C03
@ens r == self_.s_rows()

@fn Shape::with_rows(self_, row) -> r
@prop C02
@valid self_.rank > 1
@ens r.l() =~= self_.l().update(self_.rank - 2, row as nat)

@fn Shape::batch_len(self_, base_rank) -> r
@prop C03
@dims
@ens base_rank <= self_.rank ==> r == sprod(self_.l(), 0, self_.rank - base_rank);; base_rank > self_.rank ==> r == 1
@pre lemma_sprod_empty(self_.l(), 0);
@loop 0
@inv $v == sprod(self_.l(), self_.rank - base_rank - $i, self_.rank - base_rank);;
  $b@ =~= self_.dims@.subrange(base_rank as int, self_.rank as int)
@before lemma_sprod_empty(self_.l(), self_.rank - base_rank);
@end lemma_sprod_left(self_.l(), self_.rank - base_rank - $i, self_.rank - base_rank);

@template bcast(name, ret)
@fn Shape::%name%(self_, b) -> r
@prop C03
@valid bc(self_.l(), b.l())
@ens %ret%
@loop 0
@inv forall|i: int| 0 <= i < $i ==> self_.dims@[i] == b.dims@[i]
@after assert(min_rank == smin(self_.rank as int, b.rank as int)); assert(bc(self_.l(), b.l())) by { let n = smin(self_.rank as int, b.rank as int); assert forall|i: int| 0 <= i < n implies tl(self_.l(), n)[i] == tl(b.l(), n)[i] by { assert(self_.dims@[n - 1 - i] == b.dims@[n - 1 - i]); } }
@start let n = smin(self_.rank as int, b.rank as int); if bc(self_.l(), b.l()) { assert(tl(self_.l(), n)[n - 1 - $x] == tl(b.l(), n)[n - 1 - $x]); }
@endtemplate
@use bcast(broadcast | r == prod(bcl(self_.l(), b.l())))
@use bcast(check_broadcast | true)
@use bcast(broadcast_to | r.l() == bcl(self_.l(), b.l()))

@fn Shape::broadcast_min(self_, a_min, b, b_min) -> r
@prop C03
@valid a_min <= self_.rank;; b_min <= b.rank;; bc(self_.l().subrange(0, self_.rank - a_min), b.l().subrange(0, b.rank - b_min))
@ens r == prod(bcl(self_.l().subrange(0, self_.rank - a_min), b.l().subrange(0, b.rank - b_min)))
@loop 0
@inv forall|i: int, j: int| 0 <= i < $i && j == i + b_min - a_min + a_min ==> #[trigger] self_.dims@[a_min + i] == #[trigger] b.dims@[j]
@start let n = min_rank as int; let p = self_.l().subrange(0, self_.rank - a_min); let q = b.l().subrange(0, b.rank - b_min); if bc(p, q) { assert(tl(p, n)[n - 1 - $x] == tl(q, n)[n - 1 - $x]); }
@after let n = min_rank as int; let p = self_.l().subrange(0, self_.rank - a_min); let q = b.l().subrange(0, b.rank - b_min); assert(bc(p, q)) by { assert forall|i: int| 0 <= i < n implies tl(p, n)[i] == tl(q, n)[i] by { assert(self_.dims@[a_min + (n - 1 - i)] == b.dims@[b_min + (n - 1 - i)]); } }

@fn Shape::as_vec(self_) -> r
@prop C03
@ens nats(r@) =~= self_.l();; r@.len() == self_.rank
@loop 0
@inv vec@.len() == $i;; forall|j: int| 0 <= j < $i ==> vec@[j] as nat == self_.l()[j]

@fn Shape::push(self_, dim) -> r
@prop C02
@valid self_.rank < 6
@ens r.l() =~= seq![dim as nat] + self_.l()

@fn Shape::append(self_, tail) -> r
@prop C02
@valid self_.rank + tail@.len() <= 6
@ens r.l() =~= nats(tail@).reverse() + self_.l()
@loop 0
@inv self_.rank + $i <= 6;; dims@ =~= Seq::new(6, |j: int| if j < self_.rank { self_.dims@[j] } else if j < self_.rank + $i { tail@[j - self_.rank] as u32 } else { 0u32 });;
  forall|j: int| 0 <= j < $i ==> tail@[j] as u32 == #[trigger] tail@[j];; $e == tail@.len();; $b@ == tail@

@fn Shape::sublen(self_, start, end) -> r
@prop C03
@dims
@valid start <= self_.rank;; end <= self_.rank
@ens start <= end ==> r == sprod(self_.l(), start as int, end as int);; start > end ==> r == 1
@loop 0
@inv start <= end ==> size == sprod(self_.l(), self_.rank - $i, end as int);; start > end ==> size == 1
@before if start <= end { lemma_sprod_empty(self_.l(), end as int); }
@end lemma_sprod_left(self_.l(), self_.rank - $i, end as int);

@fn Shape::rsublen(self_, start, end) -> r
@prop C03
@dims
@req start <= end <= self_.rank
@ens r == sprod(self_.l(), self_.rank - end, self_.rank - start)
@loop 0
@inv size == sprod(self_.l(), self_.rank - $i, self_.rank - start)
@before lemma_sprod_empty(self_.l(), self_.rank - start);
@end lemma_sprod_left(self_.l(), self_.rank - $i, self_.rank - start);

@fn Shape::expand_dims(self_, axis) -> r
@prop C02
@valid -(self_.rank + 1) <= axis <= self_.rank;; self_.rank < 6;; pos(self_.l())
@ens r.l() =~= self_.l().insert(if axis >= 0 { axis as int } else { axis + self_.rank + 1 }, 1)
@last let k = index as int; let l = self_.l(); let v = vec@;
  assert(nats(v) =~= l.insert(k, 1));
  assert forall|i: int| 0 <= i < l.len() && pos(nats(v)) implies #[trigger] l[i] > 0 by { let j = if i < k { i } else { i + 1 }; assert(nats(v)[j] > 0); }
  assert forall|i: int| 0 <= i < v.len() && pos(l) implies #[trigger] nats(v)[i] > 0 by { if i < k { assert(l[i] > 0); } else if i > k { assert(l[i - 1] > 0); } }

@fn Shape::squeeze(self_, axis0) -> r
@prop C02
@req axis0.axis.is_some() ==> self_.rank > 0 && okax(axis0.axis.unwrap() as int, self_.rank as int)
@ens axis0.axis.is_none() ==> r.l() =~= or1(no1(self_.l()));;
  axis0.axis.is_some() ==> ({ let a = nax(axis0.axis.unwrap() as int, self_.rank as int); r.l() =~= (if self_.l()[a] == 1 { or1(self_.l().remove(a)) } else { self_.l() }) })
@pre if axis0.axis.is_some() { lemma_trem(axis0.axis.unwrap() as int, self_.rank as int); }
@loop 0
@inv rank <= $i <= 6;; $e == self_.rank;; rl(dims@, rank as int) == no1r(self_.dims@, $i as int);;
  forall|j: int| rank <= j < 6 && j > 0 ==> #[trigger] dims@[j] == 0;; rank == 0 ==> dims@[0] == 1
@start reveal_with_fuel(no1r, 2);
@end assert(rl(dims@, rank as int) =~= no1r(self_.dims@, $i as int));
@after lemma_no1r(self_.dims@, self_.rank as int); assert(rl(self_.dims@, self_.rank as int) =~= self_.l()); assert(rl(dims@, rank as int) =~= no1(self_.l()));
@loop 1
@inv rank <= $i <= 6;; $e == self_.rank;; rank == (if $i <= axis || self_.dims@[axis as int] != 1 { $i as int } else { $i - 1 });;
  forall|j: int| 0 <= j < rank ==> #[trigger] dims@[j] == self_.dims@[if j < axis || self_.dims@[axis as int] != 1 { j } else { j + 1 }];;
  forall|j: int| rank <= j < 6 && j > 0 ==> #[trigger] dims@[j] == 0;; rank == 0 ==> dims@[0] == 1
@after let a = self_.rank - 1 - axis; assert(rl(dims@, rank as int) =~= (if self_.l()[a] == 1 { self_.l().remove(a) } else { self_.l() }));

@fn Shape::pop(self_) -> r
@prop C02
@valid self_.rank > 0
@ens r.l() =~= self_.l().subrange(1, self_.rank as int)

@fn Shape::remove(self_, axis) -> r
@prop C02
@valid axis < self_.rank
@ens r.l() =~= self_.l().remove(axis as int)

@fn Shape::rremove(self_, axis) -> r
@prop C02
@valid axis < self_.rank
@ens r.l() =~= self_.l().remove(self_.rank - 1 - axis)
@loop 0
@inv self.rank == self_.rank;; $e - $s == self_.rank - 1 - axis;; self.dims@ =~= Seq::new(6, |j: int| if axis <= j < axis + ($i - $s) { self_.dims@[j + 1] } else { self_.dims@[j] })

@fn Shape::reduce(self_) -> r
@prop C02
@ens r.l() =~= (if self_.rank > 1 { self_.l().drop_last() } else if self_.rank == 1 { seq![1nat] } else { self_.l() })

@fn Shape::insert(self_, axis, len) -> r
@prop C02
@valid axis <= self_.rank;; self_.rank < 6
@ens r.l() =~= self_.l().insert(axis as int, len as nat)

@fn Shape::rinsert(self_, axis, len) -> r
@prop C02
@valid axis <= self_.rank;; self_.rank < 6
@ens r.l() =~= self_.l().insert(self_.rank - axis, len as nat)
@loop 0
@inv self.rank == self_.rank;; $e - $s == self_.rank - axis;;
  self.dims@ =~= Seq::new(6, |j: int| if self_.rank - ($i - $s) < j <= self_.rank { self_.dims@[j - 1] } else { self_.dims@[j] })

@fn From<&Shape> for Shape::from(value) -> r
@prop C02
@ens r.l() =~= value.l()

@fn From<usize> for Shape::from(value) -> r
@prop C02
@ens r.l() =~= seq![value as nat]

@template shape_from(ty)
@fn From<%ty%> for Shape::from(value) -> r
@prop C02
@valid value@.len() <= 6
@ens r.l() =~= nats(value@)
@loop 0
@inv $i <= 6;; $e == value@.len();; dims@ =~= Seq::new(6, |j: int| if j < $i { value@[value@.len() - 1 - j] as u32 } else { 0u32 });;
  forall|j: int| value@.len() - $i <= j < value@.len() ==> value@[j] as u32 == #[trigger] value@[j]
@endtemplate
@use shape_from(&[usize])
@use shape_from([usize;N])

@fn From<Vec<usize>> for Shape::from(value) -> r
@prop C02
@valid value@.len() <= 6;; pos(nats(value@))
@ens r.l() =~= nats(value@)
@loop 0
@inv $i <= 6;; $e == value@.len();; dims@ =~= Seq::new(6, |j: int| if j < $i { value@[value@.len() - 1 - j] as u32 } else { 0u32 });;
  forall|j: int| value@.len() - $i <= j < value@.len() ==> value@[j] as u32 == #[trigger] value@[j];;
  forall|j: int| value@.len() - $i <= j < value@.len() ==> #[trigger] value@[j] > 0
@start assert(nats(value@)[value@.len() - 1 - $x] == value@[value@.len() - 1 - $x]);

@fn PartialEq<Shape> for Shape::eq(self_, other) -> r
@prop C02
@ens r == (self_.l() == other.l())
@post if self_.l() == other.l() { lemma_shape_ext(*self_, *other); }

@fn Axis::axis(axis) -> r
@prop C03
@ens r.axis == Some(axis)

@fn Axis::axis_opt(axis) -> r
@prop C03
@ens r.axis == axis

@fn Axis::get_axis(self_) -> r
@prop C03
@ens r == self_.axis

@fn From<Option<isize>> for Axis::from(value) -> r
@prop C03
@ens r.axis == value

@fn From<isize> for Axis::from(axis) -> r
@prop C03
@ens r.axis == Some(axis)

@fn Axis::axis_from_rank(self_, rank) -> r
@prop C03
@req self_.axis.is_some() ==> rank > 0 && okax(self_.axis.unwrap() as int, rank as int)
@ens self_.axis.is_none() ==> r == 0;; self_.axis.is_some() ==> r == nax(self_.axis.unwrap() as int, rank as int)
@pre if self_.axis.is_some() { lemma_trem(self_.axis.unwrap() as int, rank as int); }

@fn Axis::reduce(self_, shape) -> r
@prop C03 C07
@req self_.axis.is_some() ==> shape.rank > 0 && okax(self_.axis.unwrap() as int, shape.rank as int)
@valid self_.axis.is_some() && shape.rank > 1 ==> pos(shape.l().remove(nax(self_.axis.unwrap() as int, shape.rank as int)))
@ens r.0.l() =~= red_l(self_.axis, shape.l());; r.1 == red_outer(self_.axis, shape.l());; r.2 == red_len(self_.axis, shape.l());; r.3 == red_inner(self_.axis, shape.l())
@pre if self_.axis.is_some() { lemma_trem(self_.axis.unwrap() as int, shape.rank as int); lemma_sprod_empty(shape.l(), 0); lemma_sprod_empty(shape.l(), shape.rank as int); if shape.rank == 1 { lemma_sprod_full(shape.l()); lemma_sprod_one(shape.l(), 0); } }
@loop 0
@inv outer == sprod(shape.l(), 0, $i as int);; vec@.len() == $i;; forall|j: int| 0 <= j < $i ==> #[trigger] vec@[j] == shape.l()[j];; $s == 0;; $e == axis
@end lemma_sprod_right(shape.l(), 0, $i as int);
@before lemma_sprod_empty(shape.l(), 0);
@loop 1
@inv inner == sprod(shape.l(), axis + 1, $i as int);; vec@.len() == $i - 1;; forall|j: int| 0 <= j < $i - 1 ==> #[trigger] vec@[j] == shape.l()[if j < axis { j } else { j + 1 }];; $s == axis + 1;; $e == shape.rank
@end lemma_sprod_right(shape.l(), axis + 1, $i as int);
@before lemma_sprod_empty(shape.l(), axis + 1);
@after assert(nats(vec@) =~= shape.l().remove(axis as int));

@spec
pub open spec fn red_l(a: Option<isize>, l: Seq<nat>) -> Seq<nat> { if a.is_none() { Seq::empty() } else { l.remove(nax(a.unwrap() as int, l.len() as int)) } }
pub open spec fn red_outer(a: Option<isize>, l: Seq<nat>) -> nat { if a.is_none() { 1 } else { sprod(l, 0, nax(a.unwrap() as int, l.len() as int)) } }
pub open spec fn red_len(a: Option<isize>, l: Seq<nat>) -> nat { if a.is_none() { prod(l) } else { l[nax(a.unwrap() as int, l.len() as int)] } }
pub open spec fn red_inner(a: Option<isize>, l: Seq<nat>) -> nat { if a.is_none() { 1 } else { sprod(l, nax(a.unwrap() as int, l.len() as int) + 1, l.len() as int) } }
// rows: the innermost dimension is replaced by cols
pub open spec fn rrow_l(a: Option<isize>, l: Seq<nat>, cols: nat) -> Seq<nat> {
    if a.is_none() || l.len() == 1 { seq![cols] } else { l.drop_last().remove(nax(a.unwrap() as int, l.len() as int)).push(cols) } }
pub open spec fn rrow_outer(a: Option<isize>, l: Seq<nat>) -> nat { if a.is_none() || l.len() == 1 { 1 } else { sprod(l, 0, nax(a.unwrap() as int, l.len() as int)) } }
pub open spec fn rrow_len(a: Option<isize>, l: Seq<nat>) -> nat { if a.is_none() { sprod(l, 0, l.len() - 1) } else if l.len() == 1 { 1 } else { l[nax(a.unwrap() as int, l.len() as int)] } }
pub open spec fn rrow_inner(a: Option<isize>, l: Seq<nat>) -> nat { if a.is_none() || l.len() == 1 { 1 } else { sprod(l, nax(a.unwrap() as int, l.len() as int) + 1, l.len() - 1) } }

@fn Axis::reduce_row(self_, shape, cols) -> r
@prop C03 C08
@req self_.axis.is_some() ==> shape.rank > 0 && okax(self_.axis.unwrap() as int, shape.rank as int)
@valid self_.axis.is_some() && shape.rank > 1 ==> nax(self_.axis.unwrap() as int, shape.rank as int) + 1 < shape.rank && pos(rrow_l(self_.axis, shape.l(), cols as nat));;
  self_.axis.is_none() ==> shape.s_cols() > 0
@ens r.0.l() =~= rrow_l(self_.axis, shape.l(), cols as nat);; r.1 == rrow_outer(self_.axis, shape.l());; r.2 == rrow_len(self_.axis, shape.l());; r.3 == rrow_inner(self_.axis, shape.l())
@pre lemma_sprod_empty(shape.l(), 0); if self_.axis.is_some() { lemma_trem(self_.axis.unwrap() as int, shape.rank as int); }
   if self_.axis.is_none() && shape.s_cols() > 0 { lemma_sprod_full(shape.l()); lemma_sprod_right(shape.l(), 0, shape.rank as int); lemma_dm(sprod(shape.l(), 0, shape.rank - 1) as int, shape.s_cols() as int, 0); }
@loop 0
@inv outer == sprod(shape.l(), 0, $i as int);; vec@.len() == $i;; forall|j: int| 0 <= j < $i ==> #[trigger] vec@[j] == shape.l()[j];; $s == 0;; $e == axis
@end lemma_sprod_right(shape.l(), 0, $i as int);
@before lemma_sprod_empty(shape.l(), 0);
@loop 1
@inv inner == sprod(shape.l(), axis + 1, $i as int);; vec@.len() == $i - 1;; forall|j: int| 0 <= j < $i - 1 ==> #[trigger] vec@[j] == shape.l()[if j < axis { j } else { j + 1 }];; $s == axis + 1;; $e == shape.rank - 1
@end lemma_sprod_right(shape.l(), axis + 1, $i as int);
@before lemma_sprod_empty(shape.l(), axis + 1);
@call From<Vec<usize>> for Shape::from
assert(nats($0@) =~= rrow_l(self_.axis, shape.l(), cols as nat));
