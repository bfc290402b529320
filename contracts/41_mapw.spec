@spec
// ---- suffixes and sizes
pub proof fn lemma_suf(x: Seq<nat>, y: Seq<nat>)
    requires bc(x, y), x.len() <= y.len()
    ensures prod(y) == prod(y.subrange(0, y.len() - x.len())) * prod(x), prod(x) > 0 ==> prod(y) as int % prod(x) as int == 0, prod(y) > 0 ==> prod(x) > 0 && prod(y) >= prod(x)
{
    let h = y.subrange(0, y.len() - x.len());
    assert(tl(x, x.len() as int) =~= x); assert(y =~= h + x); lemma_prod_concat(h, x);
    if prod(x) > 0 { lemma_dm(prod(h) as int, prod(x) as int, 0); }
    let p = prod(h) as int; let q = prod(x) as int;
    assert(p * q > 0 ==> q > 0 && p * q >= q) by(nonlinear_arith) requires p >= 0, q >= 0;
}
pub proof fn lemma_bc2(a: Seq<nat>, b: Seq<nat>)
    requires bc(a, b), prod(a) > 0, prod(b) > 0
    ensures ({ let x = prod(a) as int; let y = prod(b) as int; prod(bcl(a, b)) == smax(x, y) && smax(x, y) % smin(x, y) == 0 })
{
    if a.len() <= b.len() { lemma_suf(a, b); if a.len() == b.len() { lemma_suf2(a, b); } } else { assert(bc(b, a)); lemma_suf(b, a); }
}
pub proof fn lemma_suf2(a: Seq<nat>, b: Seq<nat>) requires bc(a, b), a.len() == b.len() ensures a =~= b { assert(tl(a, a.len() as int) =~= a); assert(tl(b, a.len() as int) =~= b); }
// suffix order is total on suffixes of one list
pub proof fn lemma_bc_chain(x: Seq<nat>, y: Seq<nat>, l: Seq<nat>)
    requires bc(x, l), bc(y, l), x.len() <= l.len(), y.len() <= l.len()
    ensures bc(x, y), bc(y, x)
{
    let n = smin(x.len() as int, y.len() as int);
    assert(tl(x, x.len() as int) =~= x); assert(tl(y, y.len() as int) =~= y);
    assert forall|i: int| 0 <= i < n implies tl(x, n)[i] == tl(y, n)[i] by { assert(tl(l, x.len() as int)[x.len() - n + i] == x[x.len() - n + i]); assert(tl(l, y.len() as int)[y.len() - n + i] == y[y.len() - n + i]); }
}
pub proof fn lemma_bc_div(x: Seq<nat>, y: Seq<nat>)
    requires bc(x, y), prod(x) > 0, prod(y) > 0, prod(y) <= prod(x)
    ensures prod(x) as int % prod(y) as int == 0
{
    assert(bc(y, x));
    if y.len() <= x.len() { lemma_suf(y, x); } else { lemma_suf(x, y); assert(prod(x) == prod(y)); lemma_dm(1, prod(y) as int, 0); assert(1 * prod(y) == prod(y)); }
}
pub proof fn lemma_bc3(a: Seq<nat>, b: Seq<nat>, c: Seq<nat>)
    requires bc(a, b), bc(bcl(a, b), c), prod(a) > 0, prod(b) > 0, prod(c) > 0
    ensures ({ let x = prod(a) as int; let y = prod(b) as int; let z = prod(c) as int; let m = mn3(x, y, z); prod(bcl(bcl(a, b), c)) == mx3(x, y, z) && x % m == 0 && y % m == 0 && z % m == 0 })
{
    let ab = bcl(a, b); let l = bcl(ab, c);
    lemma_bc2(a, b); lemma_bc2(ab, c);
    assert(bc(b, a));
    assert(bc(c, ab)); assert(bc(ab, ab)); assert(bc(c, c)); assert(bc(a, a)); assert(bc(b, b));
    if ab.len() >= c.len() {
        lemma_bc_chain(a, c, ab); lemma_bc_chain(b, c, ab);
    } else {
        lemma_sufsuf(a, ab, c); lemma_sufsuf(b, ab, c); 
    }
    let x = prod(a) as int; let y = prod(b) as int; let z = prod(c) as int; let m = mn3(x, y, z);
    if m == x { lemma_bc_div(b, a); lemma_bc_div(c, a); lemma_dm(1, m, 0); }
    else if m == y { lemma_bc_div(a, b); lemma_bc_div(c, b); lemma_dm(1, m, 0); }
    else { lemma_bc_div(a, c); lemma_bc_div(b, c); lemma_dm(1, m, 0); }
    assert(1 * m == m);
}
pub proof fn lemma_sufsuf(x: Seq<nat>, y: Seq<nat>, z: Seq<nat>)
    requires bc(x, y), x.len() <= y.len(), bc(y, z), y.len() <= z.len()
    ensures bc(x, z), bc(z, x)
{
    assert(tl(x, x.len() as int) =~= x); assert(tl(y, y.len() as int) =~= y);
    assert forall|i: int| 0 <= i < x.len() implies tl(z, x.len() as int)[i] == x[i] by { assert(tl(y, x.len() as int)[i] == x[i]); assert(tl(z, y.len() as int)[y.len() - x.len() + i] == y[y.len() - x.len() + i]); }
}

@fn Tensor::init(shape0, f) -> r
@prop C14
@req any0(*old(f))
@ens r.shape == shape0;; ran0(*old(f), *final(f), r.e())

@fn Tensor::init_rindexed(shape0, f) -> r
@prop C14
@req cooL(*old(f), idims(shape0))
@ens r.shape == shape0;; exists|a: Seq<Seq<usize>>| #[trigger] ranL(*old(f), *final(f), a, r.e()) && forall|k: int| 0 <= k < a.len() ==> isco(#[trigger] a[k], rco(idims(shape0), k))

@fn Tensor::map(self_, f) -> r
@prop C06
@req anyR(*old(f))
@ens r.shape == self_.shape;; ranR(*old(f), *final(f), self_.e(), r.e())

@fn Tensor::map_row(self_, f) -> r
@prop C08
@req anyL(*old(f))
@valid self_.shape.s_cols() > 0
@pre lemma_cols(self_.shape); if self_.shape.s_cols() > 0 { lemma_dm(sprod(self_.l(), 0, self_.shape.rank - 1) as int, self_.shape.s_cols() as int, 0); lemma_prod_last(self_.l(), N as nat); }
@ens r.l() =~= (if N == 1 && self_.shape.rank > 1 { self_.l().drop_last() } else { self_.l().update(self_.shape.rank - 1, N as nat) });;
  exists|x: Seq<[U; N]>| #[trigger] ranL(*old(f), *final(f), rowsq(self_.e(), self_.shape.s_cols() as int, (self_.n() / self_.shape.s_cols()) as nat), x) && laid(r.e(), x)

@fn Tensor::map_expand(self_, f) -> r
@prop C08
@req anyR(*old(f))
@valid self_.shape.rank < 6
@pre lemma_push(self_.l(), N as nat);
@ens r.l() =~= self_.l().push(N as nat);; exists|x: Seq<[U; N]>| #[trigger] ranR(*old(f), *final(f), self_.e(), x) && laid(r.e(), x)

@spec
pub proof fn lemma_push(l: Seq<nat>, c: nat) ensures prod(l.push(c)) == c * prod(l), l.insert(l.len() as int, c) =~= l.push(c), l.insert(l.len() - 0, c) =~= l.push(c)
{ assert(l.push(c).drop_last() =~= l); assert(prod(l) * c == c * prod(l)) by(nonlinear_arith); }
pub proof fn lemma_prod_last(l: Seq<nat>, c: nat)
    requires l.len() > 0
    ensures prod(l.update(l.len() - 1, c)) == c * sprod(l, 0, l.len() - 1), prod(l.drop_last()) == sprod(l, 0, l.len() - 1), l.remove(l.len() - 1) =~= l.drop_last(), l.remove(l.len() - 1 - 0) =~= l.drop_last()
{ let u = l.update(l.len() - 1, c); assert(u.drop_last() =~= l.drop_last()); assert(l.drop_last() =~= l.subrange(0, l.len() - 1)); let p = prod(l.drop_last()); assert(p * c == c * p) by(nonlinear_arith); }

@fn Tensor::map2(self_, rhs, f) -> r
@prop C06
@req anyRR(*old(f))
@valid bc(self_.l(), rhs.l());; self_.n() > 0;; rhs.n() > 0
@pre if bc(self_.l(), rhs.l()) && self_.n() > 0 && rhs.n() > 0 { lemma_bc2(self_.l(), rhs.l()); }
@ens r.l() == bcl(self_.l(), rhs.l());; ranRR(*old(f), *final(f), wrap(self_.e(), r.n()), wrap(rhs.e(), r.n()), r.e())

@fn Tensor::map3(self_, b, c, f) -> r
@prop C06
@req anyRRR(*old(f))
@valid bc(self_.l(), b.l());; bc(bcl(self_.l(), b.l()), c.l());; self_.n() > 0;; b.n() > 0;; c.n() > 0
@pre if bc(self_.l(), b.l()) && bc(bcl(self_.l(), b.l()), c.l()) && self_.n() > 0 && b.n() > 0 && c.n() > 0 { lemma_bc3(self_.l(), b.l(), c.l()); }
@ens r.l() == bcl(bcl(self_.l(), b.l()), c.l());; ranRRR(*old(f), *final(f), wrap(self_.e(), r.n()), wrap(b.e(), r.n()), wrap(c.e(), r.n()), r.e())

@fn Tensor::fold(self_, init, f) -> r
@prop C07
@req anyVR(*old(f))
@ens r.l() =~= Seq::<nat>::empty();; r.e().len() == 1;; foldedVR::<S, T, V, F>(old(f).env(), init, self_.e(), r.e()[0])

@fn Tensor::fold_axis(self_, axis0, init, f) -> r
@prop C07
@req anyVR(*old(f));; axis0.axis.is_some() ==> self_.shape.rank > 0 && okax(axis0.axis.unwrap() as int, self_.shape.rank as int)
@valid axis0.axis.is_some() && self_.shape.rank > 1 ==> pos(self_.l().remove(nax(axis0.axis.unwrap() as int, self_.shape.rank as int)))
@ens r.l() =~= red_l(axis0.axis, self_.l());; ({ let A = red_outer(axis0.axis, self_.l()) as int; let B = red_len(axis0.axis, self_.l()); let C = red_inner(axis0.axis, self_.l()) as int;
   r.n() == A * C && self_.n() == A * B * C && forall|n: int, i: int| 0 <= n < A && 0 <= i < C ==> foldedVR::<S, T, V, F>(old(f).env(), init, lane(self_.e(), n, i, B, C), r.e()[#[trigger] idx2(n, i, C)]) })

@fn Tensor::reduce(self_, f) -> r
@prop C07
@req anyVV(*old(f))
@valid self_.n() > 0
@ens r.l() =~= Seq::<nat>::empty();; r.e().len() == 1;; redV::<T, $F(f)>(old(f).env(), self_.e(), r.e()[0])

@fn Tensor::reduce_axis(self_, axis0, f) -> r
@prop C07
@req anyVV(*old(f));; axis0.axis.is_some() ==> self_.shape.rank > 0 && okax(axis0.axis.unwrap() as int, self_.shape.rank as int)
@valid axis0.axis.is_some() && self_.shape.rank > 1 ==> pos(self_.l().remove(nax(axis0.axis.unwrap() as int, self_.shape.rank as int)))
@treq self_.n() > 0
@ens r.l() =~= red_l(axis0.axis, self_.l());; ({ let A = red_outer(axis0.axis, self_.l()) as int; let B = red_len(axis0.axis, self_.l()); let C = red_inner(axis0.axis, self_.l()) as int;
   r.n() == A * C && self_.n() == A * B * C && forall|n: int, i: int| 0 <= n < A && 0 <= i < C ==> redV::<T, $F(f)>(old(f).env(), lane(self_.e(), n, i, B, C), r.e()[#[trigger] idx2(n, i, C)]) })

@fn Tensor::fold_row(self_, axis0, init, f) -> r
@prop C08
@req anyVL(*old(f));; axis0.axis.is_some() ==> self_.shape.rank > 0 && okax(axis0.axis.unwrap() as int, self_.shape.rank as int)
@valid axis0.axis.is_some() && self_.shape.rank > 1 ==> nax(axis0.axis.unwrap() as int, self_.shape.rank as int) + 1 < self_.shape.rank && pos(rrow_l(axis0.axis, self_.l(), N as nat));;
  axis0.axis.is_none() ==> self_.shape.s_cols() > 0
@treq self_.shape.s_cols() > 0
@ens r.l() =~= rrow_l(axis0.axis, self_.l(), N as nat);; ({ let A = rrow_outer(axis0.axis, self_.l()) as int; let B = rrow_len(axis0.axis, self_.l()); let C = rrow_inner(axis0.axis, self_.l()) as int; let w = self_.shape.s_cols() as int;
   r.n() == (A * C) * N && self_.n() == (A * B * C) * w && forall|n: int, i: int| 0 <= n < A && 0 <= i < C ==> frow::<S, T, V, F, N>(old(f).env(), init, lanerow(self_.e(), n, i, B, C, w), r.e(), #[trigger] idx3(n, i, 0, C, N as int)) })

@fn Tensor::normalize(self_, axis0, init, accum, complete, norm) -> r
@prop C09
@req anyVR(*old(accum));; anyV(*old(complete));; anyRR(*old(norm));; axis0.axis.is_some() ==> self_.shape.rank > 0 && okax(axis0.axis.unwrap() as int, self_.shape.rank as int)
@valid axis0.axis.is_some() && self_.shape.rank > 1 ==> pos(self_.l().remove(nax(axis0.axis.unwrap() as int, self_.shape.rank as int)))
@ens r.shape == self_.shape;; ({ let A = red_outer(axis0.axis, self_.l()) as int; let B = red_len(axis0.axis, self_.l()); let C = red_inner(axis0.axis, self_.l()) as int;
   r.n() == A * B * C && forall|n: int, i: int| 0 <= n < A && 0 <= i < C && #[trigger] lane_ok(n, i) ==> normed::<S, S1, T, V, F, G, H>(old(accum).env(), old(complete).env(), old(norm).env(), init, lane(self_.e(), n, i, B, C), lane(r.e(), n, i, B, C)) })
