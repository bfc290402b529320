
@spec
// row-major offset of a coordinate list
pub open spec fn off(l: Seq<nat>, ix: Seq<int>) -> int decreases l.len() {
    if l.len() == 0 { 0 } else { off(l.drop_last(), ix.drop_last()) * l.last() + ix.last() }
}
pub open spec fn inb(l: Seq<nat>, ix: Seq<int>) -> bool { ix.len() == l.len() && forall|i: int| 0 <= i < l.len() ==> 0 <= #[trigger] ix[i] < l[i] }
pub proof fn lemma_off(l: Seq<nat>, ix: Seq<int>)
    requires inb(l, ix)
    ensures 0 <= off(l, ix) < prod(l)
    decreases l.len()
{
    if l.len() > 0 {
        assert(inb(l.drop_last(), ix.drop_last()));
        lemma_off(l.drop_last(), ix.drop_last());
        assert(0 <= ix[l.len() - 1] < l[l.len() - 1]);
        lemma_lin(off(l.drop_last(), ix.drop_last()), prod(l.drop_last()) as int, l.last() as int, ix.last());
    }
}
// an offset below the size bounds the outermost position
pub proof fn lemma_off_outer(l: Seq<nat>, ix: Seq<int>)
    requires ix.len() == l.len(), l.len() >= 1, forall|i: int| 0 <= i < ix.len() ==> 0 <= #[trigger] ix[i], off(l, ix) < prod(l)
    ensures ix[0] < l[0]
    decreases l.len()
{
    let (m, j) = (l.drop_last(), ix.drop_last());
    let (p, q, d, x) = (off(m, j), prod(m) as int, l.last() as int, ix.last());
    assert(x >= 0) by { assert(ix[ix.len() - 1] >= 0); }
    if l.len() == 1 {
        assert(m =~= Seq::<nat>::empty()); assert(j =~= Seq::<int>::empty()); assert(p == 0 && q == 1);
        assert(0 * d == 0 && 1 * d == d) by(nonlinear_arith);
    } else {
        assert forall|i: int| 0 <= i < j.len() implies 0 <= #[trigger] j[i] by { assert(ix[i] >= 0); }
        if p >= q { assert(p * d >= q * d) by(nonlinear_arith) requires p >= q, d >= 0; }
        lemma_off_outer(m, j);
        assert(j[0] == ix[0] && m[0] == l[0]);
    }
}

@fn Index<(usize,usize)> for Tensor<T>::index(self_, index) -> r
@prop C04
@req self_.shape.rank == 2
@valid index.0 < self_.l()[0];; index.1 < self_.l()[1]
@ens *r == self_.e()[off(self_.l(), seq![index.0 as int, index.1 as int])]
@pre let L = self_.l(); let x = seq![index.0 as int, index.1 as int];
  assert(inb(L, x) ==> 0 <= off(L, x) < prod(L)) by { if inb(L, x) { lemma_off(L, x); } }
  assert(off(L, x) < prod(L) ==> x[0] < L[0]) by { if off(L, x) < prod(L) { lemma_off_outer(L, x); } }
  let L2 = L.subrange(0, 2); let x2 = x.subrange(0, 2);
  let L1 = L.subrange(0, 1); let x1 = x.subrange(0, 1);
  assert(L2 =~= L); assert(x2 =~= x); assert(off(L.subrange(0, 0), x.subrange(0, 0)) == 0);
  assert(L1.drop_last() =~= L.subrange(0, 0)); assert(x1.drop_last() =~= x.subrange(0, 0)); assert(off(L1, x1) == off(L.subrange(0, 0), x.subrange(0, 0)) * L[0] + x[0]);
  assert(0 * L[0] == 0) by(nonlinear_arith);
  assert(L2.drop_last() =~= L1); assert(x2.drop_last() =~= x1); assert(off(L2, x2) == off(L1, x1) * L[1] + x[1]);
  assert(off(L1, x1) * L[1] == L[1] * off(L1, x1)) by(nonlinear_arith);

@fn Index<(usize,usize,usize)> for Tensor<T>::index(self_, index) -> r
@prop C04
@req self_.shape.rank == 3
@valid index.0 < self_.l()[0];; index.1 < self_.l()[1];; index.2 < self_.l()[2]
@ens *r == self_.e()[off(self_.l(), seq![index.0 as int, index.1 as int, index.2 as int])]
@pre let L = self_.l(); let x = seq![index.0 as int, index.1 as int, index.2 as int];
  assert(inb(L, x) ==> 0 <= off(L, x) < prod(L)) by { if inb(L, x) { lemma_off(L, x); } }
  assert(off(L, x) < prod(L) ==> x[0] < L[0]) by { if off(L, x) < prod(L) { lemma_off_outer(L, x); } }
  let L3 = L.subrange(0, 3); let x3 = x.subrange(0, 3);
  let L2 = L.subrange(0, 2); let x2 = x.subrange(0, 2);
  let L1 = L.subrange(0, 1); let x1 = x.subrange(0, 1);
  assert(L3 =~= L); assert(x3 =~= x); assert(off(L.subrange(0, 0), x.subrange(0, 0)) == 0);
  assert(L1.drop_last() =~= L.subrange(0, 0)); assert(x1.drop_last() =~= x.subrange(0, 0)); assert(off(L1, x1) == off(L.subrange(0, 0), x.subrange(0, 0)) * L[0] + x[0]);
  assert(0 * L[0] == 0) by(nonlinear_arith);
  assert(L2.drop_last() =~= L1); assert(x2.drop_last() =~= x1); assert(off(L2, x2) == off(L1, x1) * L[1] + x[1]);
  assert(off(L1, x1) * L[1] == L[1] * off(L1, x1)) by(nonlinear_arith);
  assert(L3.drop_last() =~= L2); assert(x3.drop_last() =~= x2); assert(off(L3, x3) == off(L2, x2) * L[2] + x[2]);
  assert(off(L2, x2) * L[2] == L[2] * off(L2, x2)) by(nonlinear_arith);

@fn Index<(usize,usize,usize,usize)> for Tensor<T>::index(self_, index) -> r
@prop C04
@req self_.shape.rank == 4
@valid index.0 < self_.l()[0];; index.1 < self_.l()[1];; index.2 < self_.l()[2];; index.3 < self_.l()[3]
@ens *r == self_.e()[off(self_.l(), seq![index.0 as int, index.1 as int, index.2 as int, index.3 as int])]
@pre let L = self_.l(); let x = seq![index.0 as int, index.1 as int, index.2 as int, index.3 as int];
  assert(inb(L, x) ==> 0 <= off(L, x) < prod(L)) by { if inb(L, x) { lemma_off(L, x); } }
  assert(off(L, x) < prod(L) ==> x[0] < L[0]) by { if off(L, x) < prod(L) { lemma_off_outer(L, x); } }
  let L4 = L.subrange(0, 4); let x4 = x.subrange(0, 4);
  let L3 = L.subrange(0, 3); let x3 = x.subrange(0, 3);
  let L2 = L.subrange(0, 2); let x2 = x.subrange(0, 2);
  let L1 = L.subrange(0, 1); let x1 = x.subrange(0, 1);
  assert(L4 =~= L); assert(x4 =~= x); assert(off(L.subrange(0, 0), x.subrange(0, 0)) == 0);
  assert(L1.drop_last() =~= L.subrange(0, 0)); assert(x1.drop_last() =~= x.subrange(0, 0)); assert(off(L1, x1) == off(L.subrange(0, 0), x.subrange(0, 0)) * L[0] + x[0]);
  assert(0 * L[0] == 0) by(nonlinear_arith);
  assert(L2.drop_last() =~= L1); assert(x2.drop_last() =~= x1); assert(off(L2, x2) == off(L1, x1) * L[1] + x[1]);
  assert(off(L1, x1) * L[1] == L[1] * off(L1, x1)) by(nonlinear_arith);
  assert(L3.drop_last() =~= L2); assert(x3.drop_last() =~= x2); assert(off(L3, x3) == off(L2, x2) * L[2] + x[2]);
  assert(off(L2, x2) * L[2] == L[2] * off(L2, x2)) by(nonlinear_arith);
  assert(L4.drop_last() =~= L3); assert(x4.drop_last() =~= x3); assert(off(L4, x4) == off(L3, x3) * L[3] + x[3]);
  assert(off(L3, x3) * L[3] == L[3] * off(L3, x3)) by(nonlinear_arith);

@fn Index<(usize,usize,usize,usize,usize)> for Tensor<T>::index(self_, index) -> r
@prop C04
@req self_.shape.rank == 5
@valid index.0 < self_.l()[0];; index.1 < self_.l()[1];; index.2 < self_.l()[2];; index.3 < self_.l()[3];; index.4 < self_.l()[4]
@ens *r == self_.e()[off(self_.l(), seq![index.0 as int, index.1 as int, index.2 as int, index.3 as int, index.4 as int])]
@pre let L = self_.l(); let x = seq![index.0 as int, index.1 as int, index.2 as int, index.3 as int, index.4 as int];
  assert(inb(L, x) ==> 0 <= off(L, x) < prod(L)) by { if inb(L, x) { lemma_off(L, x); } }
  assert(off(L, x) < prod(L) ==> x[0] < L[0]) by { if off(L, x) < prod(L) { lemma_off_outer(L, x); } }
  let L5 = L.subrange(0, 5); let x5 = x.subrange(0, 5);
  let L4 = L.subrange(0, 4); let x4 = x.subrange(0, 4);
  let L3 = L.subrange(0, 3); let x3 = x.subrange(0, 3);
  let L2 = L.subrange(0, 2); let x2 = x.subrange(0, 2);
  let L1 = L.subrange(0, 1); let x1 = x.subrange(0, 1);
  assert(L5 =~= L); assert(x5 =~= x); assert(off(L.subrange(0, 0), x.subrange(0, 0)) == 0);
  assert(L1.drop_last() =~= L.subrange(0, 0)); assert(x1.drop_last() =~= x.subrange(0, 0)); assert(off(L1, x1) == off(L.subrange(0, 0), x.subrange(0, 0)) * L[0] + x[0]);
  assert(0 * L[0] == 0) by(nonlinear_arith);
  assert(L2.drop_last() =~= L1); assert(x2.drop_last() =~= x1); assert(off(L2, x2) == off(L1, x1) * L[1] + x[1]);
  assert(off(L1, x1) * L[1] == L[1] * off(L1, x1)) by(nonlinear_arith);
  assert(L3.drop_last() =~= L2); assert(x3.drop_last() =~= x2); assert(off(L3, x3) == off(L2, x2) * L[2] + x[2]);
  assert(off(L2, x2) * L[2] == L[2] * off(L2, x2)) by(nonlinear_arith);
  assert(L4.drop_last() =~= L3); assert(x4.drop_last() =~= x3); assert(off(L4, x4) == off(L3, x3) * L[3] + x[3]);
  assert(off(L3, x3) * L[3] == L[3] * off(L3, x3)) by(nonlinear_arith);
  assert(L5.drop_last() =~= L4); assert(x5.drop_last() =~= x4); assert(off(L5, x5) == off(L4, x4) * L[4] + x[4]);
  assert(off(L4, x4) * L[4] == L[4] * off(L4, x4)) by(nonlinear_arith);
