@spec
// ---- transpose: the two innermost coordinates swapped in every batch
pub open spec fn tr_l(l: Seq<nat>) -> Seq<nat> { if l.len() == 1 { seq![l[0], 1nat] } else { l.update(l.len() - 1, l[l.len() - 2]).update(l.len() - 2, l[l.len() - 1]) } }
pub open spec fn tr_r(l: Seq<nat>) -> int { if l.len() >= 2 { l[l.len() - 2] as int } else { 1 } }
pub open spec fn tr_c(l: Seq<nat>) -> int { l[l.len() - 1] as int }
pub open spec fn tr_b(l: Seq<nat>) -> int { if l.len() >= 2 { sprod(l, 0, l.len() - 2) as int } else { 1 } }
pub open spec fn transposed<T>(l: Seq<nat>, a: Seq<T>, o: Seq<T>) -> bool {
    &&& a.len() == tr_b(l) * tr_r(l) * tr_c(l) && o.len() == a.len()
    &&& forall|n: int, j: int, i: int| 0 <= n < tr_b(l) && 0 <= j < tr_r(l) && 0 <= i < tr_c(l) ==> #[trigger] o[idx3(n, i, j, tr_c(l), tr_r(l))] == a[idx3(n, j, i, tr_r(l), tr_c(l))]
}
pub proof fn lemma_tr(l: Seq<nat>)
    requires l.len() > 0
    ensures prod(l) == tr_b(l) * tr_r(l) * tr_c(l), prod(tr_l(l)) == prod(l), tr_b(l) >= 0
{
    let b = tr_b(l); let r = tr_r(l); let c = tr_c(l); let t = tr_l(l);
    assert(b * c * r == b * r * c) by(nonlinear_arith);
    lemma_sprod_full(l); lemma_sprod_right(l, 0, l.len() as int);
    if l.len() == 1 {
        lemma_sprod_empty(l, 0); assert(1 * c == c && 1 * 1 * c == c) by(nonlinear_arith);
        assert(t.drop_last() =~= l); assert(prod(l) * 1 == prod(l)) by(nonlinear_arith);
    } else {
        lemma_sprod_right(l, 0, l.len() - 1);
        lemma_sprod_full(t); lemma_sprod_right(t, 0, t.len() as int); lemma_sprod_right(t, 0, t.len() - 1);
        assert(t.subrange(0, t.len() - 2) =~= l.subrange(0, l.len() - 2));
    }
}

@fn transpose::transpose(tensor0) -> r
@prop C12
@valid tensor0.shape.rank > 0
@treq tensor0.n() > 0
@ens tensor0.n() > 0 ==> r.l() =~= tr_l(tensor0.l());; tensor0.n() > 0 ==> transposed(tensor0.l(), tensor0.e(), r.e())
@pre if tensor0.shape.rank > 0 { lemma_tr(tensor0.l()); if tensor0.n() > 0 { lemma_pos_n(tensor0.l()); assert(tr_c(tensor0.l()) * tr_r(tensor0.l()) > 0) by(nonlinear_arith) requires tr_c(tensor0.l()) > 0, tr_r(tensor0.l()) > 0; } }
@loop 0
@inv $e == batch;; $s == 0;; __h.cap() == size;; size == tensor.n();; x@ == tensor.e();; rows > 0;; cols > 0;; tensor.n() > 0 ==> batch * rows * cols == size;; n_inner == cols * rows;; tensor.n() == 0 ==> batch == 0;;
  forall|n: int, i: int, j: int| 0 <= n < $i && 0 <= j < rows && 0 <= i < cols ==> __h.has(#[trigger] idx3(n, i, j, cols as int, rows as int)) && __h.at(idx3(n, i, j, cols as int, rows as int)) == tensor.e()[idx3(n, j, i, rows as int, cols as int)]
@before assert(cols * rows == rows * cols) by(nonlinear_arith); if tensor.n() > 0 { assert(tr_b(tensor.l()) * tr_r(tensor.l()) * tr_c(tensor.l()) == tr_b(tensor.l()) * (cols * rows)) by(nonlinear_arith) requires tr_r(tensor.l()) == rows, tr_c(tensor.l()) == cols; lemma_dm(tr_b(tensor.l()), n_inner as int, 0); } else { lemma_dm(0, n_inner as int, 0); assert(0 * n_inner == 0) by(nonlinear_arith); }
@loop 1
@inv $e1 == rows;; $s1 == 0;; __h.cap() == size;;
  forall|n: int, i: int, j: int| 0 <= n < $x0 && 0 <= j < rows && 0 <= i < cols ==> __h.has(#[trigger] idx3(n, i, j, cols as int, rows as int)) && __h.at(idx3(n, i, j, cols as int, rows as int)) == tensor.e()[idx3(n, j, i, rows as int, cols as int)];;
  forall|i: int, j: int| 0 <= j < $i1 && 0 <= i < cols ==> __h.has(#[trigger] idx3($x0 as int, i, j, cols as int, rows as int)) && __h.at(idx3($x0 as int, i, j, cols as int, rows as int)) == tensor.e()[idx3($x0 as int, j, i, rows as int, cols as int)]
@loop 2
@inv $e2 == cols;; $s2 == 0;; __h.cap() == size;;
  forall|n: int, i: int, j: int| 0 <= n < $x0 && 0 <= j < rows && 0 <= i < cols ==> __h.has(#[trigger] idx3(n, i, j, cols as int, rows as int)) && __h.at(idx3(n, i, j, cols as int, rows as int)) == tensor.e()[idx3(n, j, i, rows as int, cols as int)];;
  forall|i: int, j: int| 0 <= j < $x1 && 0 <= i < cols ==> __h.has(#[trigger] idx3($x0 as int, i, j, cols as int, rows as int)) && __h.at(idx3($x0 as int, i, j, cols as int, rows as int)) == tensor.e()[idx3($x0 as int, j, i, rows as int, cols as int)];;
  forall|i: int| 0 <= i < $i2 ==> __h.has(#[trigger] idx3($x0 as int, i, $x1 as int, cols as int, rows as int)) && __h.at(idx3($x0 as int, i, $x1 as int, cols as int, rows as int)) == tensor.e()[idx3($x0 as int, $x1 as int, i, rows as int, cols as int)]
@start lemma_idx3($x0 as int, $x2 as int, $x1 as int, batch as int, cols as int, rows as int); lemma_idx3($x0 as int, $x1 as int, $x2 as int, batch as int, rows as int, cols as int); assert(cols * rows == rows * cols) by(nonlinear_arith);
@fin if tensor0.n() > 0 { assert(shape.l() =~= tr_l(tensor0.l())); } assert(batch * cols * rows == batch * rows * cols) by(nonlinear_arith); assert forall|k: int| 0 <= k < __h.cap() implies #[trigger] __h.has(k) by { lemma_unidx3(k, batch as int, cols as int, rows as int); assert(__h.has(idx3((k / (rows as int)) / (cols as int), (k / (rows as int)) % (cols as int), k % (rows as int), cols as int, rows as int))); }
  if tensor0.n() > 0 { assert forall|n: int, j: int, i: int| 0 <= n < batch && 0 <= j < rows && 0 <= i < cols implies #[trigger] __h.seq()[idx3(n, i, j, cols as int, rows as int)] == tensor0.e()[idx3(n, j, i, rows as int, cols as int)] by { lemma_idx3(n, i, j, batch as int, cols as int, rows as int); } assert(transposed(tensor0.l(), tensor0.e(), __h.seq())); }

@template tr(name)
@fn Tensor::%name%(self_) -> r
@prop C12
@valid self_.shape.rank > 0
@treq self_.n() > 0
@ens self_.n() > 0 ==> r.l() =~= tr_l(self_.l());; self_.n() > 0 ==> transposed(self_.l(), self_.e(), r.e())
@endtemplate
@use tr(transpose)
@use tr(t)

@spec
// ---- splitting: consecutive distinct cuts delimit the pieces
pub open spec fn prv(c: Seq<usize>, k: int) -> int { if k <= 0 { 0 } else { c[k - 1] as int } }
pub open spec fn pcs(c: Seq<usize>, k: int) -> Seq<(int, int)> decreases k {
    if k <= 0 { Seq::empty() } else if c[k - 1] == prv(c, k - 1) { pcs(c, k - 1) } else { pcs(c, k - 1).push((prv(c, k - 1), c[k - 1] as int)) }
}
#[verifier::opaque]
pub open spec fn incr(c: Seq<usize>, k: int, n: int) -> bool { forall|j: int| 0 <= j < k ==> prv(c, j) <= #[trigger] c[j] <= n }
pub proof fn lemma_incr_at(c: Seq<usize>, k: int, n: int, j: int) requires 0 <= j < k ensures incr(c, k, n) ==> prv(c, j) <= c[j] <= n { reveal(incr); }
pub proof fn lemma_incr_push(c: Seq<usize>, k: int, n: int) requires incr(c, k, n), 0 <= k, prv(c, k) <= c[k] <= n ensures incr(c, k + 1, n) { reveal(incr); }
// r holds the coordinates a..b of t along axis ax
#[verifier::opaque]
pub open spec fn piece<T>(t: Tensor<T>, ax: int, a: int, b: int, r: Tensor<T>) -> bool {
    let B = t.l()[ax] as int; let C = sprod(t.l(), ax + 1, t.l().len() as int) as int; let A = sprod(t.l(), 0, ax) as int;
    &&& 0 <= a < b <= B && r.l() =~= t.l().update(ax, (b - a) as nat) && r.e().len() == A * (b - a) * C && t.e().len() == A * B * C
    &&& forall|j: int, k: int, i: int| 0 <= j < A && 0 <= k < b - a && 0 <= i < C ==> r.e()[#[trigger] idx3(j, k, i, b - a, C)] == t.e()[idx3(j, a + k, i, B, C)]
}
#[verifier::opaque]
pub open spec fn piecesok<T>(t: Tensor<T>, ax: int, c: Seq<usize>, k: int, r: Seq<Tensor<T>>) -> bool {
    r.len() == pcs(c, k).len() && forall|m: int| 0 <= m < r.len() ==> (#[trigger] r[m]).wf() && piece(t, ax, pcs(c, k)[m].0, pcs(c, k)[m].1, r[m])
}
pub proof fn lemma_flat3b(n: int, k: int, i: int, b: int, c: int) ensures n * b * c + k * c + i == idx3(n, k, i, b, c), n * c * b + k * c + i == idx3(n, k, i, b, c)
{ assert((n * b + k) * c == n * b * c + k * c) by(nonlinear_arith); assert(n * c * b == n * b * c) by(nonlinear_arith); }
pub proof fn lemma_prod_at(s: Seq<nat>, a: int, x: nat)
    requires 0 <= a < s.len()
    ensures prod(s) == sprod(s, 0, a) * s[a] * sprod(s, a + 1, s.len() as int), prod(s.update(a, x)) == sprod(s, 0, a) * x * sprod(s, a + 1, s.len() as int)
{
    lemma_prod_rem(s, a); let t = s.update(a, x); lemma_prod_rem(t, a);
    assert(t.subrange(0, a) =~= s.subrange(0, a)); assert(t.subrange(a + 1, t.len() as int) =~= s.subrange(a + 1, s.len() as int));
}
// the last position read bounds the cut
pub proof fn lemma_cut_bound(A: int, B: int, C: int, x: int)
    requires A > 0, C > 0, idx3(A - 1, x - 1, C - 1, B, C) < A * B * C
    ensures x <= B
{
    assert(((A - 1) * B + (x - 1)) * C + C - 1 == (A - 1) * B * C + x * C - 1) by(nonlinear_arith);
    assert(A * B * C == (A - 1) * B * C + B * C) by(nonlinear_arith);
    assert(x * C - 1 < B * C);
    assert(x <= B) by(nonlinear_arith) requires x * C - 1 < B * C, C > 0;
}

@spec
pub proof fn lemma_push_any<T>(t: Tensor<T>, ax: int, c: Seq<usize>, k: int, r: Seq<Tensor<T>>, x: Tensor<T>)
    requires piecesok(t, ax, c, k, r), 0 <= k < c.len(), c[k] != prv(c, k), x.wf(), piece(t, ax, prv(c, k), c[k] as int, x)
    ensures piecesok(t, ax, c, k + 1, r.push(x))
{
    reveal(piecesok);
    let q = r.push(x); assert forall|m: int| 0 <= m < q.len() implies (#[trigger] q[m]).wf() && piece(t, ax, pcs(c, k + 1)[m].0, pcs(c, k + 1)[m].1, q[m]) by { if m < r.len() { assert(q[m] == r[m]); } }
}
pub proof fn lemma_skip_piece<T>(t: Tensor<T>, ax: int, c: Seq<usize>, k: int, r: Seq<Tensor<T>>)
    requires piecesok(t, ax, c, k, r), 0 <= k < c.len(), c[k] == prv(c, k)
    ensures piecesok(t, ax, c, k + 1, r)
{ reveal(piecesok); }
pub proof fn lemma_no_piece<T>(t: Tensor<T>, ax: int, c: Seq<usize>) ensures piecesok(t, ax, c, 0, Seq::<Tensor<T>>::empty()) { reveal(piecesok); }
@spec
// where position q of the piece [p, p+W) of an axis of length AL comes from
#[verifier::opaque]
pub open spec fn ssrc(q: int, p: int, W: int, AL: int, NI: int) -> int { idx3((q / NI) / W, p + (q / NI) % W, q % NI, AL, NI) }
#[verifier::opaque]
pub open spec fn cellok<T>(v: T, e: Seq<T>, p: int, W: int, AL: int, NI: int, q: int) -> bool { v == e[ssrc(q, p, W, AL, NI)] && ssrc(q, p, W, AL, NI) < e.len() }
#[verifier::opaque]
pub open spec fn cidx(j: int, k: int, i: int, W: int, NI: int) -> int { idx3(j, k, i, W, NI) }
pub proof fn lemma_cidx(j: int, k: int, i: int, W: int, NI: int)
    ensures cidx(j, k, i, W, NI) == idx3(j, k, i, W, NI), cidx(j, k, i + 1, W, NI) == cidx(j, k, i, W, NI) + 1
{ reveal(cidx); }
pub proof fn lemma_carry(j: int, k: int, W: int, NI: int)
    ensures cidx(0, 0, 0, W, NI) == 0, cidx(j, k, NI, W, NI) == cidx(j, k + 1, 0, W, NI), cidx(j, W, 0, W, NI) == cidx(j + 1, 0, 0, W, NI)
{ reveal(cidx); assert((0 * W + 0) * NI == 0) by(nonlinear_arith); assert((j * W + k) * NI + NI == (j * W + (k + 1)) * NI) by(nonlinear_arith); assert(j * W + W == (j + 1) * W) by(nonlinear_arith); }
#[verifier::opaque]
pub open spec fn pfx<T>(h: OutBuf<T>, e: Seq<T>, p: int, W: int, AL: int, NI: int, cnt: int) -> bool { forall|q: int| 0 <= q < cnt ==> #[trigger] h.has(q) && cellok(h.at(q), e, p, W, AL, NI, q) }
// one more cell written, right behind the prefix
pub proof fn lemma_pfx_push<T>(h0: OutBuf<T>, h: OutBuf<T>, e: Seq<T>, p: int, W: int, AL: int, NI: int, q: int, src: int)
    requires pfx(h0, e, p, W, AL, NI, q), ssrc(q, p, W, AL, NI) == src, 0 <= q, 0 <= src < e.len(),
        h.has(q), h.at(q) == e[src], forall|k: int| k != q ==> #[trigger] h.has(k) == h0.has(k), forall|k: int| k != q ==> #[trigger] h.at(k) == h0.at(k)
    ensures pfx(h, e, p, W, AL, NI, q + 1)
{ reveal(pfx); reveal(cellok); assert forall|z: int| 0 <= z < q + 1 implies #[trigger] h.has(z) && cellok(h.at(z), e, p, W, AL, NI, z) by { if z < q { assert(h0.has(z)); } else { assert(z == q); } } }
pub proof fn lemma_ssrc(j: int, k: int, i: int, p: int, W: int, AL: int, NI: int)
    requires 0 <= j, 0 <= k < W, 0 <= i < NI
    ensures ssrc(idx3(j, k, i, W, NI), p, W, AL, NI) == idx3(j, p + k, i, AL, NI)
{ reveal(ssrc); lemma_dm(j * W + k, NI, i); lemma_dm(j, W, k); }

@fn split::split_by_axis(tensor, axis, cuts) -> r
@prop C11
@valid axis < tensor.shape.rank;; incr(cuts@, cuts@.len() as int, tensor.l()[axis as int] as int)
@treq pos(tensor.l())
@ens piecesok(tensor, axis as int, cuts@, cuts@.len() as int, r@)
@last reveal(piecesok);
@loop 0
@inv x@ == tensor.e();; n_outer == sprod(tensor.l(), 0, axis as int);; n_inner == sprod(tensor.l(), axis + 1, tensor.shape.rank as int);; axis_len == tensor.l()[axis as int];; axis < tensor.shape.rank;; tensor.n() == n_outer * axis_len * n_inner;;
  $b == cuts;; prev == prv(cuts@, $i as int);; incr(cuts@, $i as int, axis_len as int);; piecesok(tensor, axis as int, cuts@, $i as int, slices@)
@ghost sl0: Seq<Tensor<T>> = Seq::empty()
@ghost h0: OutBuf<T> = arbitrary()
@before lemma_prod_at(tensor.l(), axis as int, 0); lemma_no_piece(tensor, axis as int, cuts@); assert(slices@ =~= Seq::empty()); assert(incr(cuts@, 0, axis_len as int)) by { reveal(incr); }
@start sl0 = slices@; lemma_incr_at(cuts@, cuts@.len() as int, axis_len as int, $x as int); if cuts@[$x as int] == prv(cuts@, $x as int) { lemma_skip_piece(tensor, axis as int, cuts@, $x as int, sl0); if $x > 0 { lemma_incr_at(cuts@, $x as int, axis_len as int, $x - 1); } lemma_incr_push(cuts@, $x as int, axis_len as int); }
@end if (cut as int) != prv(cuts@, $x as int) { let x0 = slices@.last(); lemma_incr_push(cuts@, $x as int, axis_len as int); assert(piece(tensor, axis as int, prv(cuts@, $x as int), cut as int, x0)) by { reveal(piece); } lemma_push_any(tensor, axis as int, cuts@, $x as int, sl0, x0); assert(slices@ =~= sl0.push(x0)); }
@loop 1
@inv $e1 == axis;; $s1 == 0;; shape@.len() == $i1;; forall|j: int| 0 <= j < $i1 ==> #[trigger] shape@[j] == tensor.l()[j]
@loop 2
@inv $e2 == tensor.shape.rank;; $s2 == axis + 1;; shape@.len() == $i2;; forall|j: int| 0 <= j < $i2 ==> #[trigger] shape@[j] == (if j == axis { (cut - prev) as nat } else { tensor.l()[j] })
@after assert(nats(shape@) =~= tensor.l().update(axis as int, (cut - prev) as nat)); lemma_prod_at(tensor.l(), axis as int, (cut - prev) as nat); assert(n_outer * n_inner * (cut - prev) == n_outer * (cut - prev) * n_inner) by(nonlinear_arith);
   if pos(tensor.l().update(axis as int, (cut - prev) as nat)) { let L = tensor.l(); let M = L.update(axis as int, (cut - prev) as nat); assert forall|j: int| 0 <= j < axis implies #[trigger] L.subrange(0, axis as int)[j] > 0 by { assert(M[j] > 0); } assert forall|j: int| 0 <= j < L.len() - axis - 1 implies #[trigger] L.subrange(axis + 1, L.len() as int)[j] > 0 by { assert(M[j + axis + 1] > 0); } lemma_pos_prod(L.subrange(0, axis as int)); lemma_pos_prod(L.subrange(axis + 1, L.len() as int)); }
@loop 3
@inv $e3 == n_outer;; $s3 == 0;; prev < cut;; __h.cap() == n_outer * (cut - prev) * n_inner;; pfx(__h, tensor.e(), prev as int, cut - prev, axis_len as int, n_inner as int, cidx($i3 as int, 0, 0, cut - prev, n_inner as int))
@before lemma_carry(0, 0, cut - prev, n_inner as int); reveal(pfx);
@loop 4
@inv $e4 == cut;; $s4 == prev;; prev < cut;; __h.cap() == n_outer * (cut - prev) * n_inner;; pfx(__h, tensor.e(), prev as int, cut - prev, axis_len as int, n_inner as int, cidx($x3 as int, $i4 - prev, 0, cut - prev, n_inner as int))
@before lemma_carry($x3 as int, 0, cut - prev, n_inner as int); assert($i4 - prev == 0); assert(cidx($x3 as int, $i4 - prev, 0, cut - prev, n_inner as int) == cidx($x3 as int, 0, 0, cut - prev, n_inner as int));
@after lemma_carry($x3 as int, 0, cut - prev, n_inner as int); assert($i4 - prev == cut - prev); assert($x3 + 1 == $i3); assert(cidx($x3 as int, $i4 - prev, 0, cut - prev, n_inner as int) == cidx($i3 as int, 0, 0, cut - prev, n_inner as int));
@loop 5
@inv $e5 == n_inner;; $s5 == 0;; prev < cut;; __h.cap() == n_outer * (cut - prev) * n_inner;; pfx(__h, tensor.e(), prev as int, cut - prev, axis_len as int, n_inner as int, cidx($x3 as int, $x4 - prev, $i5 as int, cut - prev, n_inner as int))
@before assert($i5 == 0); assert(cidx($x3 as int, $x4 - prev, $i5 as int, cut - prev, n_inner as int) == cidx($x3 as int, $x4 - prev, 0, cut - prev, n_inner as int));
@start h0 = __h; let q = idx3($x3 as int, $x4 - prev, $x5 as int, cut - prev, n_inner as int); lemma_idx3($x3 as int, $x4 - prev, $x5 as int, n_outer as int, cut - prev, n_inner as int); lemma_flat3b($x3 as int, $x4 - prev, $x5 as int, cut - prev, n_inner as int); lemma_flat3b($x3 as int, $x4 as int, $x5 as int, axis_len as int, n_inner as int); lemma_carry($x3 as int, $x4 - prev, cut - prev, n_inner as int); lemma_cidx($x3 as int, $x4 - prev, $x5 as int, cut - prev, n_inner as int); lemma_ssrc($x3 as int, $x4 - prev, $x5 as int, prev as int, cut - prev, axis_len as int, n_inner as int); if $x4 < axis_len { lemma_idx3($x3 as int, $x4 as int, $x5 as int, n_outer as int, axis_len as int, n_inner as int); }
@end assert($x5 + 1 == $i5); let q = idx3($x3 as int, $x4 - prev, $x5 as int, cut - prev, n_inner as int); lemma_pfx_push(h0, __h, tensor.e(), prev as int, cut - prev, axis_len as int, n_inner as int, q, idx3($x3 as int, $x4 as int, $x5 as int, axis_len as int, n_inner as int)); assert(cidx($x3 as int, $x4 - prev, $i5 as int, cut - prev, n_inner as int) == q + 1);
@after lemma_carry($x3 as int, $x4 - prev, cut - prev, n_inner as int); assert($i5 == n_inner); assert($x4 - prev + 1 == $i4 - prev); assert(cidx($x3 as int, $x4 - prev, $i5 as int, cut - prev, n_inner as int) == cidx($x3 as int, $i4 - prev, 0, cut - prev, n_inner as int));
@fin reveal(pfx); let w = cut - prev; lemma_cidx(n_outer as int, 0, 0, w, n_inner as int); assert(n_outer * n_inner * w == n_outer * w * n_inner) by(nonlinear_arith); assert(idx3(n_outer as int, 0, 0, w, n_inner as int) == n_outer * w * n_inner) by(nonlinear_arith);
   assert forall|j: int, k: int, i: int| 0 <= j < n_outer && 0 <= k < w && 0 <= i < n_inner implies __h.seq()[#[trigger] idx3(j, k, i, w, n_inner as int)] == tensor.e()[idx3(j, prev + k, i, axis_len as int, n_inner as int)] by { let q = idx3(j, k, i, w, n_inner as int); lemma_idx3(j, k, i, n_outer as int, w, n_inner as int); lemma_ssrc(j, k, i, prev as int, w, axis_len as int, n_inner as int); assert(__h.has(q)); reveal(cellok); }
   if n_outer > 0 && n_inner > 0 { let q = idx3(n_outer - 1, w - 1, n_inner - 1, w, n_inner as int); lemma_idx3(n_outer - 1, w - 1, n_inner - 1, n_outer as int, w, n_inner as int); lemma_ssrc(n_outer - 1, w - 1, n_inner - 1, prev as int, w, axis_len as int, n_inner as int); assert(__h.has(q)); reveal(cellok); lemma_cut_bound(n_outer as int, axis_len as int, n_inner as int, cut as int); }

@spec
pub proof fn lemma_pos_prod(l: Seq<nat>) requires pos(l) ensures prod(l) > 0 decreases l.len()
{
    if l.len() > 0 {
        assert forall|i: int| 0 <= i < l.drop_last().len() implies #[trigger] l.drop_last()[i] > 0 by { assert(l[i] > 0); }
        lemma_pos_prod(l.drop_last()); assert(l[l.len() - 1] > 0);
        assert(prod(l.drop_last()) * l.last() > 0) by(nonlinear_arith) requires prod(l.drop_last()) > 0, l.last() > 0;
    }
}
@spec
// the cut points a sections argument stands for, on an axis of length n
#[verifier::opaque]
pub open spec fn sec_cuts(sec: Sections, n: int, c: Seq<usize>) -> bool {
    match sec {
        Sections::SplitEqual(m) => m > 0 && ({ let step = n / m as int;
            step > 0 && c.len() * step >= n && (c.len() - 1) * step < n && (n % m as int == 0 ==> c.len() == m) && forall|k: int| 0 <= k < c.len() ==> #[trigger] c[k] == (k + 1) * step }),
        Sections::SplitCuts(v) => c.len() == v@.len() + 1 && c[v@.len() as int] == n && forall|k: int| 0 <= k < v@.len() ==> #[trigger] c[k] == v@[k],
    }
}
// what may be asked for
pub open spec fn sec_ok(sec: Sections, n: int) -> bool {
    match sec {
        Sections::SplitEqual(m) => m > 0 && n > 0 && n % m as int == 0,
        Sections::SplitCuts(v) => incr(v@, v@.len() as int, n),
    }
}
pub open spec fn split_ok<T>(t: Tensor<T>, ax: int, sec: Sections, r: Seq<Tensor<T>>) -> bool {
    exists|c: Seq<usize>| #[trigger] sec_cuts(sec, t.l()[ax] as int, c) && incr(c, c.len() as int, t.l()[ax] as int) && piecesok(t, ax, c, c.len() as int, r)
}
pub open spec fn axo(a: Option<isize>, rank: int) -> int { if a.is_none() { 0 } else { nax(a.unwrap() as int, rank) } }
pub proof fn lemma_eq_cuts(n: int, m: int, k: int)
    requires n >= 0, m > 0, n / m > 0, k >= 0, k * (n / m) >= n, k > 0 ==> (k - 1) * (n / m) < n
    ensures n % m == 0 ==> k == m
{
    lemma_dm_rev(n, m); let t = n / m;
    if n % m == 0 {
        assert(t * m == m * t) by(nonlinear_arith);
        if k < m { assert(k * t < m * t) by(nonlinear_arith) requires k < m, t > 0; }
        if k > m { assert((k - 1) * t >= m * t) by(nonlinear_arith) requires k - 1 >= m, t > 0; }
    }
}
pub proof fn lemma_eq_low(n: int, m: int, q: int)
    requires n > 0, m > 0, n % m == 0, q >= 0, q * (n / m) < n
    ensures (q + 1) * (n / m) <= n, n / m > 0
{
    lemma_dm_rev(n, m); let t = n / m;
    assert(t * m == m * t) by(nonlinear_arith);
    assert(t > 0) by { if t == 0 { assert(0 * m == 0) by(nonlinear_arith); } };
    if q + 1 > m { assert(q * t >= m * t) by(nonlinear_arith) requires q >= m, t > 0; }
    assert((q + 1) * t <= m * t) by(nonlinear_arith) requires q + 1 <= m, t > 0;
}
pub proof fn lemma_sub_piece<T>(t: Tensor<T>, a: int, b: int, r: Tensor<T>)
    requires t.wf(), r.wf(), t.l().len() > 0, 0 <= a < b <= t.l()[0], r.l() =~= t.l().update(0, (b - a) as nat), ({ let w = sprod(t.l(), 1, t.l().len() as int); r.e() =~= t.e().subrange(a * w, (a + (b - a)) * w) })
    ensures piece(t, 0, a, b, r)
{
    reveal(piece);
    let w = sprod(t.l(), 1, t.l().len() as int) as int; let B = t.l()[0] as int; let d = b - a;
    lemma_prod_at(t.l(), 0, d as nat); lemma_sprod_empty(t.l(), 0);
    assert forall|j: int, k: int, i: int| 0 <= j < 1 && 0 <= k < d && 0 <= i < w implies r.e()[#[trigger] idx3(j, k, i, d, w)] == t.e()[idx3(j, a + k, i, B, w)] by {
        assert(j * d == 0 && j * B == 0) by(nonlinear_arith) requires j == 0; assert(idx3(j, k, i, d, w) == k * w + i && idx3(j, a + k, i, B, w) == (a + k) * w + i);
        lemma_lin(k, d, w, i); assert((a + d) * w <= B * w) by(nonlinear_arith) requires a + d <= B, w >= 0; assert(1 * B * w == B * w && 1 * d * w == d * w) by(nonlinear_arith); assert((a + k) * w == a * w + k * w) by(nonlinear_arith); assert(a * w >= 0) by(nonlinear_arith) requires a >= 0, w >= 0; assert((a + d) * w == a * w + d * w) by(nonlinear_arith);
    }
}
pub proof fn lemma_sec(sec: Sections, n: int)
    requires sec_ok(sec, n)
    ensures match sec { Sections::SplitEqual(m) => n / m as int > 0, _ => true }, forall|c: Seq<usize>| #[trigger] sec_cuts(sec, n, c) ==> incr(c, c.len() as int, n)
{
    reveal(sec_cuts); reveal(incr); if let Sections::SplitEqual(m) = sec { assert(0 * (n / m as int) == 0); lemma_eq_low(n, m as int, 0); }
    assert forall|c: Seq<usize>| #[trigger] sec_cuts(sec, n, c) implies incr(c, c.len() as int, n) by {
        match sec {
            Sections::SplitEqual(m) => { let t = n / m as int;
                assert forall|j: int| 0 <= j < c.len() implies prv(c, j) <= #[trigger] c[j] <= n by {
                    assert((j + 1) * t == j * t + t) by(nonlinear_arith);
                    assert(j * t <= (c.len() - 1) * t) by(nonlinear_arith) requires j <= c.len() - 1, t > 0;
                    assert(0 * t == 0); lemma_eq_low(n, m as int, j); if j > 0 { assert(c[j - 1] == (j - 1 + 1) * t); } } }
            Sections::SplitCuts(v) => { assert forall|j: int| 0 <= j < c.len() implies prv(c, j) <= #[trigger] c[j] <= n by { if j > 0 { assert(c[j - 1] == v@[j - 1]); } if j < v@.len() { assert(v@[j] <= n); } } }
        }
    }
}
pub proof fn lemma_push_piece<T>(t: Tensor<T>, c: Seq<usize>, k: int, r: Seq<Tensor<T>>, x: Tensor<T>)
    requires piecesok(t, 0, c, k, r), 0 <= k < c.len(), c[k] != prv(c, k), t.wf(), x.wf(), t.l().len() > 0, prv(c, k) <= c[k] <= t.l()[0], x.l() =~= t.l().update(0, (c[k] - prv(c, k)) as nat), ({ let w = sprod(t.l(), 1, t.l().len() as int); x.e() =~= t.e().subrange(prv(c, k) * w, (prv(c, k) + (c[k] - prv(c, k))) * w) })
    ensures piecesok(t, 0, c, k + 1, r.push(x))
{ lemma_sub_piece(t, prv(c, k), c[k] as int, x); lemma_push_any(t, 0, c, k, r, x); }
@fn split::split_axis(axis0, tensor0, sections) -> r
@prop C11
@req axis0.axis.is_some() ==> tensor0.shape.rank > 0 && okax(axis0.axis.unwrap() as int, tensor0.shape.rank as int)
@valid tensor0.shape.rank > 0
@treq pos(tensor0.l());; sec_ok(s1_into_sections::<$F(sections), Sections>(sections), tensor0.l()[axo(axis0.axis, tensor0.shape.rank as int)] as int)
@ens split_ok(tensor0, axo(axis0.axis, tensor0.shape.rank as int), s1_into_sections::<$F(sections), Sections>(sections), r@)
@pre let sec = s1_into_sections::<$F(sections), Sections>(sections); if tensor0.shape.rank > 0 { let N = tensor0.l()[axo(axis0.axis, tensor0.shape.rank as int)] as int; if sec_ok(sec, N) { lemma_sec(sec, N); } }
@loop 0
@inv step == len as int / n as int;; n > 0;; step > 0;; i == cuts@.len() * step;; cuts@.len() > 0 ==> (cuts@.len() - 1) * step < len;; forall|k: int| 0 <= k < cuts@.len() ==> #[trigger] cuts@[k] == (k + 1) * step
@dec len + step - i
@before assert(0 * step == 0);
@start let q = cuts@.len() as int; assert((q + 1) * step == q * step + step) by(nonlinear_arith); if len as int % n as int == 0 { lemma_eq_low(len as int, n as int, q); }
@after let q = cuts@.len() as int; assert(q == 0 ==> q * step == 0) by(nonlinear_arith); assert(len > 0) by { lemma_dm_rev(len as int, n as int); if len == 0 { lemma_dm(0, n as int, 0); assert(0 * n == 0) by(nonlinear_arith); } } lemma_eq_cuts(len as int, n as int, q);
@loop 1
@inv tensor == tensor0;; tensor.wf();; tensor.l().len() > 0;; $b == cuts;; sec_cuts(s1_into_sections::<$F(sections), Sections>(sections), tensor0.l()[0] as int, cuts@);; prev == prv(cuts@, $i as int);; incr(cuts@, $i as int, tensor0.l()[0] as int);;
  piecesok(tensor, 0, cuts@, $i as int, slices@)
@ghost sl0: Seq<Tensor<T>> = Seq::empty()
@before lemma_no_piece(tensor, 0, cuts@); assert(slices@ =~= Seq::empty()); assert(incr(cuts@, 0, tensor0.l()[0] as int)) by { reveal(incr); }
@start sl0 = slices@; lemma_incr_at(cuts@, cuts@.len() as int, tensor0.l()[0] as int, $x as int);
@end if $x > 0 { lemma_incr_at(cuts@, $x as int, tensor0.l()[0] as int, $x - 1); } lemma_incr_push(cuts@, $x as int, tensor0.l()[0] as int); if i_1 != prv(cuts@, $x as int) { lemma_push_piece(tensor, cuts@, $x as int, sl0, slices@.last()); assert(slices@ =~= sl0.push(slices@.last())); } else { lemma_skip_piece(tensor, 0, cuts@, $x as int, sl0); }
@after assert(forall|k: int| 0 <= k < slices@.len() ==> (#[trigger] slices@[k]).wf()) by { reveal(piecesok); }
@last assert(sec_cuts(s1_into_sections::<$F(sections), Sections>(sections), tensor0.l()[axo(axis0.axis, tensor0.shape.rank as int)] as int, cuts@)) by { reveal(sec_cuts); }

@spec
// ---- concatenation along an axis
// where argument m starts along the axis
pub open spec fn coff<T>(a: Seq<Tensor<T>>, ax: int, m: int) -> int decreases m { if m <= 0 { 0 } else { coff(a, ax, m - 1) + a[m - 1].l()[ax] } }
pub open spec fn cA<T>(a: Seq<Tensor<T>>, ax: int) -> int { sprod(a[0].l(), 0, ax) as int }
pub open spec fn cC<T>(a: Seq<Tensor<T>>, ax: int) -> int { sprod(a[0].l(), ax + 1, a[0].l().len() as int) as int }
pub open spec fn ctot<T>(a: Seq<Tensor<T>>, ax: int) -> int { coff(a, ax, a.len() as int) }
pub open spec fn alike(x: Seq<nat>, y: Seq<nat>, ax: int) -> bool { x.len() == y.len() && forall|j: int| 0 <= j < x.len() && j != ax ==> #[trigger] x[j] == y[j] }
pub open spec fn cat_same<T>(a: Seq<Tensor<T>>, ax: int) -> bool { a.len() > 0 && 0 <= ax < a[0].l().len() && forall|m: int| 0 <= m < a.len() ==> alike((#[trigger] a[m]).l(), a[0].l(), ax) }
pub open spec fn cat_fits<T>(a: Seq<Tensor<T>>, ax: int) -> bool { ctot(a, ax) <= usize::MAX && cC(a, ax) * ctot(a, ax) <= usize::MAX && cA(a, ax) * ctot(a, ax) * cC(a, ax) <= usize::MAX }
// position of element (j, k, i) of argument m in the result
pub open spec fn cpos<T>(a: Seq<Tensor<T>>, ax: int, m: int, j: int, k: int, i: int) -> int { idx3(j, coff(a, ax, m) + k, i, ctot(a, ax), cC(a, ax)) }
pub open spec fn cin<T>(a: Seq<Tensor<T>>, ax: int, m: int, j: int, k: int, i: int) -> bool { 0 <= m < a.len() && 0 <= j < cA(a, ax) && 0 <= k < a[m].l()[ax] && 0 <= i < cC(a, ax) }
pub open spec fn cval<T>(a: Seq<Tensor<T>>, ax: int, m: int, j: int, k: int, i: int) -> T { a[m].e()[idx3(j, k, i, a[m].l()[ax] as int, cC(a, ax))] }
pub open spec fn cat_ok<T>(a: Seq<Tensor<T>>, ax: int, r: Tensor<T>) -> bool {
    &&& r.l() =~= a[0].l().update(ax, ctot(a, ax) as nat)
    &&& forall|m: int, j: int, k: int, i: int| cin(a, ax, m, j, k, i) ==> r.e()[#[trigger] cpos(a, ax, m, j, k, i)] == cval(a, ax, m, j, k, i)
}
pub proof fn lemma_coff_mono<T>(a: Seq<Tensor<T>>, ax: int, m: int, n: int) requires 0 <= m <= n ensures 0 <= coff(a, ax, m) <= coff(a, ax, n) decreases n
{ if m < n { lemma_coff_mono(a, ax, m, n - 1); } else if n > 0 { lemma_coff_mono(a, ax, m - 1, n - 1); } }
pub proof fn lemma_cpos<T>(a: Seq<Tensor<T>>, ax: int, m: int, j: int, k: int, i: int)
    requires cin(a, ax, m, j, k, i)
    ensures 0 <= cpos(a, ax, m, j, k, i) < cA(a, ax) * ctot(a, ax) * cC(a, ax),
        cpos(a, ax, m, j, k, i) == j * (cC(a, ax) * ctot(a, ax)) + coff(a, ax, m) * cC(a, ax) + k * cC(a, ax) + i,
        j * (cC(a, ax) * ctot(a, ax)) + coff(a, ax, m) * cC(a, ax) + k * cC(a, ax) >= 0, coff(a, ax, m) * cC(a, ax) >= 0, k * cC(a, ax) >= 0, j * (cC(a, ax) * ctot(a, ax)) >= 0,
        forall|n: int, x: int, y: int, z: int| cin(a, ax, n, x, y, z) && #[trigger] cpos(a, ax, n, x, y, z) == cpos(a, ax, m, j, k, i) ==> n == m && x == j && y == k && z == i,
{
    let A = cA(a, ax); let B = ctot(a, ax); let C = cC(a, ax); let o = coff(a, ax, m);
    lemma_coff_mono(a, ax, 0, m); lemma_coff_mono(a, ax, m + 1, a.len() as int);
    lemma_idx3(j, o + k, i, A, B, C);
    assert(C * B == B * C && (o + k) * C == o * C + k * C) by(nonlinear_arith);
    assert(o * C >= 0 && k * C >= 0 && j * (C * B) >= 0) by(nonlinear_arith) requires o >= 0, C >= 0, k >= 0, j >= 0, B >= 0;
    assert forall|n: int, x: int, y: int, z: int| cin(a, ax, n, x, y, z) && #[trigger] cpos(a, ax, n, x, y, z) == cpos(a, ax, m, j, k, i) implies n == m && x == j && y == k && z == i by {
        lemma_coff_mono(a, ax, 0, n); lemma_coff_mono(a, ax, n + 1, a.len() as int);
        assert(idx3(x, coff(a, ax, n) + y, z, B, C) == idx3(j, o + k, i, B, C));
        if n < m { lemma_coff_mono(a, ax, n + 1, m); } else if m < n { lemma_coff_mono(a, ax, m + 1, n); }
    }
}
pub proof fn lemma_cfind<T>(a: Seq<Tensor<T>>, ax: int, n: int, y: int) -> (m: int)
    requires 0 <= y < coff(a, ax, n), n >= 0
    ensures 0 <= m < n, coff(a, ax, m) <= y < coff(a, ax, m) + a[m].l()[ax]
    decreases n
{ if n <= 0 { 0 } else if y >= coff(a, ax, n - 1) { n - 1 } else { lemma_cfind(a, ax, n - 1, y) } }
// every position is the position of some element
pub proof fn lemma_cover<T>(a: Seq<Tensor<T>>, ax: int, q: int) -> (r: (int, int, int, int))
    requires 0 <= q < cA(a, ax) * ctot(a, ax) * cC(a, ax)
    ensures cin(a, ax, r.0, r.1, r.2, r.3), cpos(a, ax, r.0, r.1, r.2, r.3) == q
{
    let A = cA(a, ax); let B = ctot(a, ax); let C = cC(a, ax);
    lemma_coff_mono(a, ax, 0, a.len() as int);
    assert(B > 0 && C > 0) by(nonlinear_arith) requires 0 < A * B * C, A >= 0, B >= 0, C >= 0;
    lemma_unidx3(q, A, B, C);
    let j = (q / C) / B; let y = (q / C) % B; let i = q % C;
    let m = lemma_cfind(a, ax, a.len() as int, y);
    (m, j, y - coff(a, ax, m), i)
}
pub proof fn lemma_cat_arg<T>(a: Seq<Tensor<T>>, ax: int, m: int)
    requires cat_same(a, ax), 0 <= m < a.len()
    ensures sprod(a[m].l(), 0, ax) == cA(a, ax), sprod(a[m].l(), ax + 1, a[m].l().len() as int) == cC(a, ax), a[m].n() == cA(a, ax) * a[m].l()[ax] * cC(a, ax)
{
    let x = a[m].l(); let y = a[0].l(); assert(alike(x, y, ax));
    assert(x.subrange(0, ax) =~= y.subrange(0, ax)); assert(x.subrange(ax + 1, x.len() as int) =~= y.subrange(ax + 1, y.len() as int));
    lemma_prod_at(x, ax, 0);
}
pub proof fn lemma_cat_shape<T>(a: Seq<Tensor<T>>, ax: int)
    requires cat_same(a, ax)
    ensures ({ let y = a[0].l(); let r = y.remove(ax); r.insert(ax, ctot(a, ax) as nat) =~= y.update(ax, ctot(a, ax) as nat) && sprod(r, 0, ax) == cA(a, ax) && sprod(r, ax, r.len() as int) == cC(a, ax) && prod(y.update(ax, ctot(a, ax) as nat)) == cA(a, ax) * ctot(a, ax) * cC(a, ax) }), ctot(a, ax) >= 0
{
    let y = a[0].l(); let r = y.remove(ax); lemma_coff_mono(a, ax, 0, a.len() as int);
    assert(r.subrange(0, ax) =~= y.subrange(0, ax)); assert(r.subrange(ax, r.len() as int) =~= y.subrange(ax + 1, y.len() as int));
    lemma_prod_at(y, ax, ctot(a, ax) as nat);
}
pub open spec fn cdone<T>(h: OutBuf<T>, a: Seq<Tensor<T>>, ax: int, m: int, j: int, k: int, i: int) -> bool { h.has(cpos(a, ax, m, j, k, i)) && h.at(cpos(a, ax, m, j, k, i)) == cval(a, ax, m, j, k, i) }

@fn stack::validate_concat(args, axis) -> r
@prop C10
@treq args@.len() > 0;; forall|m: int| 0 <= m < args@.len() ==> alike((#[trigger] args@[m]).l(), args@[0].l(), axis as int);; axis < args@[0].l().len() ==> ctot(args@, axis as int) <= usize::MAX
@ens args@.len() > 0;; forall|m: int| 0 <= m < args@.len() ==> alike((#[trigger] args@[m]).l(), args@[0].l(), axis as int);; axis < args@[0].l().len() ==> r == ctot(args@, axis as int)
@loop 0
@inv shape.l() == args@[0].l();; shape.wf();; args@.len() > 0;; $b == args;; axis < args@[0].l().len() ==> axis_len == coff(args@, axis as int, $i as int);; axis >= args@[0].l().len() ==> axis_len == 0;; forall|m: int| 0 <= m < $i ==> alike((#[trigger] args@[m]).l(), args@[0].l(), axis as int)
@loop 1
@inv $e1 == shape.rank;; $s1 == 0;; forall|j: int| 0 <= j < $i1 && j != axis ==> #[trigger] x_shape.l()[j] == shape.l()[j];; axis < args@[0].l().len() ==> axis_len == coff(args@, axis as int, $x0 as int) + (if $i1 > axis { args@[$x0 as int].l()[axis as int] as int } else { 0 });; axis >= args@[0].l().len() ==> axis_len == 0
@before if axis < args@[0].l().len() { lemma_coff_mono(args@, axis as int, $i0 as int, args@.len() as int); }

@fn stack::concat_axis(axis, args) -> r
@prop C10
@valid cat_same(args@, axis as int)
@treq cat_fits(args@, axis as int)
@ens cat_ok(args@, axis as int, r)
@loop 0
@inv cat_same(args@, axis as int);; $b@ == args@;; $v == cA(args@, axis as int) * coff(args@, axis as int, $i as int) * cC(args@, axis as int)
@before assert(cat_same(args@, axis as int)); lemma_cat_shape(args@, axis as int); assert(cA(args@, axis as int) * 0 * cC(args@, axis as int) == 0) by(nonlinear_arith);
@start lemma_cat_arg(args@, axis as int, $x as int); let A = cA(args@, axis as int); let C = cC(args@, axis as int); let o = coff(args@, axis as int, $x as int); let d = args@[$x as int].l()[axis as int] as int; assert(A * (o + d) * C == A * o * C + A * d * C) by(nonlinear_arith); let w = ctot(args@, axis as int); lemma_coff_mono(args@, axis as int, $x + 1, args@.len() as int); assert(A * (o + d) * C <= A * w * C) by(nonlinear_arith) requires A >= 0, C >= 0, o + d <= w;
@loop 1
@inv $b@ == args@;; n_outer == cA(args@, axis as int);; n_inner == cC(args@, axis as int);; axis_len == ctot(args@, axis as int);; j_stride == n_inner * axis_len;; __h.cap() == n_outer * axis_len * n_inner;; t_1 == coff(args@, axis as int, $i as int) * n_inner;;
  forall|m: int, j: int, k: int, i: int| #![trigger cpos(args@, axis as int, m, j, k, i)] cin(args@, axis as int, m, j, k, i) && m < $i ==> cdone(__h, args@, axis as int, m, j, k, i)
@before assert(0 * n_inner == 0);
@start let C = n_inner as int; let o = coff(args@, axis as int, $x as int); let d = args@[$x as int].l()[axis as int] as int; assert((o + d) * C == o * C + d * C) by(nonlinear_arith); lemma_coff_mono(args@, axis as int, $x + 1, args@.len() as int); assert((o + d) * C <= C * axis_len) by(nonlinear_arith) requires C >= 0, o + d <= axis_len; lemma_cat_arg(args@, axis as int, $x as int); lemma_coff_mono(args@, axis as int, 0, $x as int); assert(o * C >= 0 && d * C >= 0) by(nonlinear_arith) requires o >= 0, d >= 0, C >= 0;
@end assert forall|m: int, j: int, k: int, i: int| #![trigger cpos(args@, axis as int, m, j, k, i)] cin(args@, axis as int, m, j, k, i) && m < $i implies cdone(__h, args@, axis as int, m, j, k, i) by { if m == $x { assert(cdone(__h, args@, axis as int, $x as int, j, k, i)); } }
@loop 2
@inv $s2 == 0;; $e2 == n_outer;; __h.cap() == n_outer * axis_len * n_inner;;
  forall|m: int, j: int, k: int, i: int| #![trigger cpos(args@, axis as int, m, j, k, i)] cin(args@, axis as int, m, j, k, i) && m < $x1 ==> cdone(__h, args@, axis as int, m, j, k, i);;
  forall|j: int, k: int, i: int| #![trigger cpos(args@, axis as int, $x1 as int, j, k, i)] cin(args@, axis as int, $x1 as int, j, k, i) && j < $i2 ==> cdone(__h, args@, axis as int, $x1 as int, j, k, i)
@loop 3
@inv $s3 == 0;; $e3 == n_axis;; __h.cap() == n_outer * axis_len * n_inner;;
  forall|m: int, j: int, k: int, i: int| #![trigger cpos(args@, axis as int, m, j, k, i)] cin(args@, axis as int, m, j, k, i) && m < $x1 ==> cdone(__h, args@, axis as int, m, j, k, i);;
  forall|j: int, k: int, i: int| #![trigger cpos(args@, axis as int, $x1 as int, j, k, i)] cin(args@, axis as int, $x1 as int, j, k, i) && j < $x2 ==> cdone(__h, args@, axis as int, $x1 as int, j, k, i);;
  forall|k: int, i: int| #![trigger cpos(args@, axis as int, $x1 as int, $x2 as int, k, i)] cin(args@, axis as int, $x1 as int, $x2 as int, k, i) && k < $i3 ==> cdone(__h, args@, axis as int, $x1 as int, $x2 as int, k, i)
@loop 4
@inv $s4 == 0;; $e4 == n_inner;; __h.cap() == n_outer * axis_len * n_inner;;
  forall|m: int, j: int, k: int, i: int| #![trigger cpos(args@, axis as int, m, j, k, i)] cin(args@, axis as int, m, j, k, i) && m < $x1 ==> cdone(__h, args@, axis as int, m, j, k, i);;
  forall|j: int, k: int, i: int| #![trigger cpos(args@, axis as int, $x1 as int, j, k, i)] cin(args@, axis as int, $x1 as int, j, k, i) && j < $x2 ==> cdone(__h, args@, axis as int, $x1 as int, j, k, i);;
  forall|k: int, i: int| #![trigger cpos(args@, axis as int, $x1 as int, $x2 as int, k, i)] cin(args@, axis as int, $x1 as int, $x2 as int, k, i) && k < $x3 ==> cdone(__h, args@, axis as int, $x1 as int, $x2 as int, k, i);;
  forall|i: int| #![trigger cpos(args@, axis as int, $x1 as int, $x2 as int, $x3 as int, i)] cin(args@, axis as int, $x1 as int, $x2 as int, $x3 as int, i) && i < $i4 ==> cdone(__h, args@, axis as int, $x1 as int, $x2 as int, $x3 as int, i)
@start lemma_cpos(args@, axis as int, $x1 as int, $x2 as int, $x3 as int, $x4 as int); lemma_flat3b($x2 as int, $x3 as int, $x4 as int, n_axis as int, n_inner as int); lemma_idx3($x2 as int, $x3 as int, $x4 as int, n_outer as int, n_axis as int, n_inner as int);
@fin assert forall|q: int| 0 <= q < __h.cap() implies #[trigger] __h.has(q) by { let r = lemma_cover(args@, axis as int, q); assert(cdone(__h, args@, axis as int, r.0, r.1, r.2, r.3)); }
  assert forall|m: int, j: int, k: int, i: int| cin(args@, axis as int, m, j, k, i) implies __h.seq()[#[trigger] cpos(args@, axis as int, m, j, k, i)] == cval(args@, axis as int, m, j, k, i) by { lemma_cpos(args@, axis as int, m, j, k, i); assert(cdone(__h, args@, axis as int, m, j, k, i)); }

@spec
// ---- stacking along a new axis
pub open spec fn stk_in<T>(a: Seq<Tensor<T>>, ax: int) -> int { sprod(a[0].l(), ax, a[0].l().len() as int) as int }
pub open spec fn stk_out<T>(a: Seq<Tensor<T>>, ax: int) -> int { sprod(a[0].l(), 0, ax) as int }
pub open spec fn stk_same<T>(a: Seq<Tensor<T>>) -> bool { a.len() > 0 && forall|m: int| 0 <= m < a.len() ==> (#[trigger] a[m]).l() == a[0].l() }
pub open spec fn stk_ok<T>(a: Seq<Tensor<T>>, ax: int, r: Tensor<T>) -> bool {
    &&& r.l() =~= a[0].l().insert(ax, a.len())
    &&& forall|k: int, m: int, i: int| 0 <= k < stk_out(a, ax) && 0 <= m < a.len() && 0 <= i < stk_in(a, ax) ==> r.e()[#[trigger] idx3(k, m, i, a.len() as int, stk_in(a, ax))] == a[m].e()[k * stk_in(a, ax) + i]
}
pub proof fn lemma_stk<T>(a: Seq<Tensor<T>>, ax: int)
    requires stk_same(a), 0 <= ax <= a[0].l().len()
    ensures a[0].n() == stk_out(a, ax) * stk_in(a, ax), prod(a[0].l().insert(ax, a.len())) == stk_out(a, ax) * a.len() * stk_in(a, ax), stk_out(a, ax) * a.len() * stk_in(a, ax) == a.len() * a[0].n()
{
    let y = a[0].l(); let t = y.insert(ax, a.len());
    lemma_sprod_full(y); lemma_sprod_split(y, 0, ax, y.len() as int); lemma_prod_at(t, ax, 0);
    assert(t.subrange(0, ax) =~= y.subrange(0, ax)); assert(t.subrange(ax + 1, t.len() as int) =~= y.subrange(ax, y.len() as int));
    let A = stk_out(a, ax); let C = stk_in(a, ax); let n = a.len() as int; assert(A * n * C == n * (A * C)) by(nonlinear_arith);
}

@fn stack::stack_vec(axis0, x0) -> r
@prop C10
@req axis0.axis.is_some() && x0@.len() > 0 ==> okax(axis0.axis.unwrap() as int, x0@[0].shape.rank + 1)
@valid stk_same(x0@);; x0@[0].shape.rank < 6;; stk_in(x0@, axo(axis0.axis, x0@[0].shape.rank + 1)) > 0
@treq x0@.len() * x0@[0].n() <= usize::MAX
@ens stk_ok(x0@, axo(axis0.axis, x0@[0].shape.rank + 1), r)
@loop 0
@inv $b == x0;; $i == 0 ==> shape.is_none();; $i > 0 ==> shape.is_some() && shape.unwrap().wf() && shape.unwrap().l() == x0@[0].l();; forall|m: int| 0 <= m < $i ==> (#[trigger] x0@[m]).l() == x0@[0].l()
@loop 1
@inv $b@ == x0@;; $v == $i * x0@[0].n();; stk_same(x0@);; axis_1 == axo(axis0.axis, x0@[0].shape.rank + 1);; n_inner == stk_in(x0@, axis_1 as int);; n_outer == stk_out(x0@, axis_1 as int);; n_inner > 0
@before lemma_stk(x0@, axis_1 as int); lemma_dm(stk_out(x0@, axis_1 as int), n_inner as int, 0); assert(0 * x0@[0].n() == 0);
@start assert(($x + 1) * x0@[0].n() == $x * x0@[0].n() + x0@[0].n()) by(nonlinear_arith); let w = x0@[0].n() as int; let L = x0@.len() as int; assert(($x + 1) * w <= L * w) by(nonlinear_arith) requires $x + 1 <= L, w >= 0; assert(x0@[$x as int].n() == w);
@loop 2
@inv $b@ == x0@;; n_args == x0@.len();; __h.cap() == n_outer * n_args * n_inner;;
  forall|k: int, m: int, i: int| 0 <= k < n_outer && 0 <= m < $i && 0 <= i < n_inner ==> __h.has(#[trigger] idx3(k, m, i, n_args as int, n_inner as int)) && __h.at(idx3(k, m, i, n_args as int, n_inner as int)) == x0@[m].e()[k * n_inner + i]
@start assert(x0@[$x as int].n() == x0@[0].n());
@end assert forall|k: int, m: int, i: int| 0 <= k < n_outer && 0 <= m < $i && 0 <= i < n_inner implies __h.has(#[trigger] idx3(k, m, i, n_args as int, n_inner as int)) && __h.at(idx3(k, m, i, n_args as int, n_inner as int)) == x0@[m].e()[k * n_inner + i] by { if m == $x { assert(idx3(k, m, i, n_args as int, n_inner as int) == idx3(k, $x as int, i, n_args as int, n_inner as int)); } }
@loop 3
@inv $s3 == 0;; $e3 == n_outer;; __h.cap() == n_outer * n_args * n_inner;;
  forall|k: int, m: int, i: int| 0 <= k < n_outer && 0 <= m < $x2 && 0 <= i < n_inner ==> __h.has(#[trigger] idx3(k, m, i, n_args as int, n_inner as int)) && __h.at(idx3(k, m, i, n_args as int, n_inner as int)) == x0@[m].e()[k * n_inner + i];;
  forall|k: int, i: int| 0 <= k < $i3 && 0 <= i < n_inner ==> __h.has(#[trigger] idx3(k, $x2 as int, i, n_args as int, n_inner as int)) && __h.at(idx3(k, $x2 as int, i, n_args as int, n_inner as int)) == x0@[$x2 as int].e()[k * n_inner + i]
@loop 4
@inv $s4 == 0;; $e4 == n_inner;; __h.cap() == n_outer * n_args * n_inner;;
  forall|k: int, m: int, i: int| 0 <= k < n_outer && 0 <= m < $x2 && 0 <= i < n_inner ==> __h.has(#[trigger] idx3(k, m, i, n_args as int, n_inner as int)) && __h.at(idx3(k, m, i, n_args as int, n_inner as int)) == x0@[m].e()[k * n_inner + i];;
  forall|k: int, i: int| 0 <= k < $x3 && 0 <= i < n_inner ==> __h.has(#[trigger] idx3(k, $x2 as int, i, n_args as int, n_inner as int)) && __h.at(idx3(k, $x2 as int, i, n_args as int, n_inner as int)) == x0@[$x2 as int].e()[k * n_inner + i];;
  forall|i: int| 0 <= i < $i4 ==> __h.has(#[trigger] idx3($x3 as int, $x2 as int, i, n_args as int, n_inner as int)) && __h.at(idx3($x3 as int, $x2 as int, i, n_args as int, n_inner as int)) == x0@[$x2 as int].e()[$x3 * n_inner + i]
@start lemma_idx3($x3 as int, $x2 as int, $x4 as int, n_outer as int, n_args as int, n_inner as int); lemma_lin($x3 as int, n_outer as int, n_inner as int, $x4 as int); assert(n_outer * n_inner == x_len);
  assert($x3 * n_args >= 0 && ($x3 * n_args + $x2) * n_inner >= 0) by(nonlinear_arith) requires $x3 >= 0, n_args >= 0, n_inner >= 0, $x2 >= 0; assert($x3 * n_args + $x2 <= ($x3 * n_args + $x2) * n_inner) by(nonlinear_arith) requires $x3 * n_args + $x2 >= 0, n_inner > 0; assert(__h.cap() <= usize::MAX);
@fin lemma_stk(x0@, axis_1 as int); assert forall|q: int| 0 <= q < __h.cap() implies #[trigger] __h.has(q) by { let C = n_inner as int; let B = n_args as int; lemma_unidx3(q, n_outer as int, B, C); assert(__h.has(idx3((q / C) / B, (q / C) % B, q % C, B, C))); }
  assert forall|k: int, m: int, i: int| 0 <= k < n_outer && 0 <= m < n_args && 0 <= i < n_inner implies __h.seq()[#[trigger] idx3(k, m, i, n_args as int, n_inner as int)] == x0@[m].e()[k * n_inner + i] by { lemma_idx3(k, m, i, n_outer as int, n_args as int, n_inner as int); }

@fn IntoTensorList<T> for Vec<Tensor<T>>::into_list(self_, vec)
@prop C10
@ens final(vec)@ =~= old(vec)@ + s_items::<Vec<Tensor<T>>, T>(self_)
@pre axiom_items_vec(self_);
@fn IntoTensorList<T> for &[Tensor<T>]::into_list(self_, vec)
@prop C10
@ens final(vec)@ =~= old(vec)@ + s_items::<&[Tensor<T>], T>(self_)
@pre axiom_items_slice(self_);
@loop 0
@inv $b@ == self_@;; vec@ =~= old(vec)@ + self_@.subrange(0, $i as int)
@fn stack::concatenate(x) -> r
@prop C10
@valid cat_same(s_items::<$F(x), T>(x), 0)
@treq cat_fits(s_items::<$F(x), T>(x), 0)
@ens cat_ok(s_items::<$F(x), T>(x), 0, r)
@fn stack::concatenate_axis(axis0, x) -> r
@prop C10
@req axis0.axis.is_some() && s_items::<$F(x), T>(x).len() > 0 ==> s_items::<$F(x), T>(x)[0].l().len() > 0 && okax(axis0.axis.unwrap() as int, s_items::<$F(x), T>(x)[0].l().len() as int)
@valid s_items::<$F(x), T>(x).len() > 0;; cat_same(s_items::<$F(x), T>(x), axo(axis0.axis, s_items::<$F(x), T>(x)[0].l().len() as int))
@treq cat_fits(s_items::<$F(x), T>(x), axo(axis0.axis, s_items::<$F(x), T>(x)[0].l().len() as int))
@ens cat_ok(s_items::<$F(x), T>(x), axo(axis0.axis, s_items::<$F(x), T>(x)[0].l().len() as int), r)
@fn stack::stack(x) -> r
@prop C10
@valid stk_same(s_items::<$F(x), T>(x));; s_items::<$F(x), T>(x)[0].shape.rank < 6;; stk_in(s_items::<$F(x), T>(x), 0) > 0
@treq s_items::<$F(x), T>(x).len() * s_items::<$F(x), T>(x)[0].n() <= usize::MAX
@ens stk_ok(s_items::<$F(x), T>(x), 0, r)
@fn stack::stack_axis(axis0, x) -> r
@prop C10
@req axis0.axis.is_some() && s_items::<$F(x), T>(x).len() > 0 ==> okax(axis0.axis.unwrap() as int, s_items::<$F(x), T>(x)[0].shape.rank + 1)
@valid stk_same(s_items::<$F(x), T>(x));; s_items::<$F(x), T>(x)[0].shape.rank < 6;; stk_in(s_items::<$F(x), T>(x), axo(axis0.axis, s_items::<$F(x), T>(x)[0].shape.rank + 1)) > 0
@treq s_items::<$F(x), T>(x).len() * s_items::<$F(x), T>(x)[0].n() <= usize::MAX
@ens stk_ok(s_items::<$F(x), T>(x), axo(axis0.axis, s_items::<$F(x), T>(x)[0].shape.rank + 1), r)

@spec
// the arguments of vstack and dstack, as concatenate sees them
pub open spec fn vs_of<T>(ys: Seq<Tensor<T>>, xs: Seq<Tensor<T>>) -> bool { ys.len() == xs.len() && forall|m: int| 0 <= m < xs.len() ==> (#[trigger] ys[m]).wf() && ys[m].l() =~= xs[m].l().insert(0, 1nat) && ys[m].e() == xs[m].e() }
pub open spec fn ds_l(l: Seq<nat>) -> Seq<nat> { if l.len() == 1 { seq![1nat, l[0], 1nat] } else if l.len() == 2 { seq![l[0], l[1], 1nat] } else { l } }
pub open spec fn ds_of<T>(ys: Seq<Tensor<T>>, xs: Seq<Tensor<T>>) -> bool { ys.len() == xs.len() && forall|m: int| 0 <= m < xs.len() ==> (#[trigger] ys[m]).wf() && ys[m].l() =~= ds_l(xs[m].l()) && ys[m].e() == xs[m].e() }
pub open spec fn dstack_ok<T>(xs: Seq<Tensor<T>>, r: Tensor<T>) -> bool { exists|ys: Seq<Tensor<T>>| #[trigger] ds_of(ys, xs) && cat_same(ys, 2) && cat_ok(ys, 2, r) }
pub proof fn lemma_vs_off<T>(ys: Seq<Tensor<T>>, xs: Seq<Tensor<T>>, m: int)
    requires vs_of(ys, xs), 0 <= m <= xs.len()
    ensures coff(ys, 0, m) == m
    decreases m
{ if m > 0 { lemma_vs_off(ys, xs, m - 1); assert(ys[m - 1].l()[0] == 1); } }
pub proof fn lemma_vs<T>(ys: Seq<Tensor<T>>, xs: Seq<Tensor<T>>)
    requires vs_of(ys, xs), xs.len() > 0
    ensures stk_same(xs) <==> cat_same(ys, 0), cA(ys, 0) == 1, ctot(ys, 0) == xs.len(), cC(ys, 0) == xs[0].n()
{
    let x = xs[0].l(); let y = ys[0].l(); assert(y =~= x.insert(0, 1nat));
    lemma_vs_off(ys, xs, xs.len() as int); lemma_sprod_empty(y, 0);
    assert(y.subrange(1, y.len() as int) =~= x);
    if stk_same(xs) { assert forall|m: int| 0 <= m < ys.len() implies alike((#[trigger] ys[m]).l(), y, 0) by { assert(xs[m].l() == x); } }
    if cat_same(ys, 0) { assert forall|m: int| 0 <= m < xs.len() implies (#[trigger] xs[m]).l() == x by { assert(alike(ys[m].l(), y, 0)); assert(ys[m].l() =~= xs[m].l().insert(0, 1nat)); assert(xs[m].l().len() == x.len()); assert forall|j: int| 0 <= j < x.len() implies #[trigger] xs[m].l()[j] == x[j] by { assert(ys[m].l()[j + 1] == y[j + 1]); } assert(xs[m].l() =~= x); } }
}
pub proof fn lemma_vs_ok<T>(ys: Seq<Tensor<T>>, xs: Seq<Tensor<T>>, r: Tensor<T>)
    requires vs_of(ys, xs), xs.len() > 0, cat_same(ys, 0), cat_ok(ys, 0, r)
    ensures stk_ok(xs, 0, r)
{
    lemma_vs(ys, xs); lemma_sprod_full(xs[0].l()); lemma_sprod_empty(xs[0].l(), 0); let C = stk_in(xs, 0); let n = xs.len() as int;
    assert(ys[0].l() =~= xs[0].l().insert(0, 1nat));
    assert(r.l() =~= xs[0].l().insert(0, xs.len()));
    assert forall|k: int, m: int, i: int| 0 <= k < stk_out(xs, 0) && 0 <= m < xs.len() && 0 <= i < C implies r.e()[#[trigger] idx3(k, m, i, n, C)] == xs[m].e()[k * C + i] by {
        lemma_vs_off(ys, xs, m); assert(k == 0); assert(0 * C == 0 && 0 * 1 == 0); assert(ys[m].l()[0] == 1); assert(cin(ys, 0, m, 0, 0, i)); assert(cpos(ys, 0, m, 0, 0, i) == idx3(k, m, i, n, C)); assert(cval(ys, 0, m, 0, 0, i) == ys[m].e()[idx3(0, 0, i, 1, C)]);
    }
}
pub proof fn lemma_ds_same<T>(ys: Seq<Tensor<T>>, xs: Seq<Tensor<T>>)
    requires ds_of(ys, xs), stk_same(xs), xs[0].l().len() > 0
    ensures cat_same(ys, 2)
{ assert(ys[0].l() =~= ds_l(xs[0].l())); assert forall|m: int| 0 <= m < ys.len() implies alike((#[trigger] ys[m]).l(), ys[0].l(), 2) by { assert(xs[m].l() == xs[0].l()); } }
pub proof fn lemma_ds_l(l: Seq<nat>)
    requires l.len() > 0
    ensures prod(ds_l(l)) == prod(l), ds_l(l).len() >= 3, l.len() == 1 ==> prod(l) == l[0]
{
    if l.len() == 1 { lemma_prod_one(l[0]); lemma_prod_ins1(l, 0); assert(l.insert(0, 1nat) =~= seq![1nat, l[0]]); let m = seq![1nat, l[0]]; lemma_prod_ins1(m, 2); assert(m.insert(2, 1nat) =~= ds_l(l)); assert(l =~= seq![l[0]]); }
    else if l.len() == 2 { lemma_prod_ins1(l, 2); assert(l.insert(2, 1nat) =~= ds_l(l)); }
}
pub open spec fn ds_fits<T>(xs: Seq<Tensor<T>>) -> bool { forall|ys: Seq<Tensor<T>>| #[trigger] ds_of(ys, xs) ==> cat_fits(ys, 2) }

@template vst(key | params | xs | T)
@fn %key%(%params%) -> r
@prop C10
@valid stk_same(%xs%);; %xs%[0].shape.rank < 6
@treq %xs%.len() * %xs%[0].n() <= usize::MAX
@ens stk_ok(%xs%, 0, r)
@endtemplate
@use vst(stack::vstack_vec | x | x@ | D)
@loop 0
@inv $b@ == x@;; $v@.len() == $i;; forall|k: int| 0 <= k < $i ==> *(#[trigger] $v@[k]) == x@[k]
@loop 1
@inv $b@ == x_ptr@;; x_ptr@.len() == x@.len();; forall|k: int| 0 <= k < x@.len() ==> *(#[trigger] x_ptr@[k]) == x@[k];; $v@.len() == $i;; $i > 0 ==> x@[0].shape.rank < 6;; forall|k: int| 0 <= k < $i ==> (#[trigger] $v@[k]).wf() && $v@[k].l() =~= x@[k].l().insert(0, 1nat) && $v@[k].e() == x@[k].e()
@start assert(x@[$x as int].wf()); lemma_prod_ins1(x@[$x as int].l(), 0); if stk_same(x@) { assert(x@[$x as int].l() == x@[0].l()); }
@call stack::concatenate_axis
axiom_items_slice($1); assert(vs_of($1@, x@)); if x@.len() > 0 { lemma_vs($1@, x@); let n = x@[0].n() as int; let L = x@.len() as int; assert(1 * L * n == L * n && n * L == L * n) by(nonlinear_arith); }
@post lemma_vs_ok(expand_args@, x@, r);

@template dst(key | params | xs | T)
@fn %key%(%params%) -> r
@prop C10
@valid stk_same(%xs%);; %xs%[0].shape.rank > 0
@treq ds_fits(%xs%)
@ens dstack_ok(%xs%, r)
@endtemplate
@use dst(stack::dstack_vec | x | x@ | T)
@loop 0
@inv $b@ == x@;; shape == x@[0].shape;; x@.len() > 0;; $v@.len() == $i;; forall|k: int| 0 <= k < $i ==> (#[trigger] $v@[k]).wf() && $v@[k].l() =~= ds_l(x@[k].l()) && $v@[k].e() == x@[k].e();; forall|k: int| 0 <= k < $i ==> (#[trigger] x@[k]).l() == x@[0].l() && x@[k].l().len() > 0
@start assert(x@[$x as int].wf()); if x@[$x as int].l().len() > 0 { lemma_ds_l(x@[$x as int].l()); } if stk_same(x@) { assert(x@[$x as int].l() == x@[0].l()); }
@call stack::concatenate_axis
axiom_items_slice($1); assert(ds_of($1@, x@)); lemma_ds_same($1@, x@); lemma_ds_l(x@[0].l()); assert($1@[0].l() =~= ds_l(x@[0].l()));
@call Tensor::reshape
assert($1.l() =~= ds_l($0.l()));

@spec
pub open spec fn hax<T>(xs: Seq<Tensor<T>>) -> int { if xs[0].l().len() == 1 { 0 } else { 1 } }
@fn stack::hstack(x) -> r
@prop C10
@req s_items::<$F(x), D>(x).len() > 0 ==> s_items::<$F(x), D>(x)[0].l().len() > 0
@valid cat_same(s_items::<$F(x), D>(x), hax(s_items::<$F(x), D>(x)))
@treq cat_fits(s_items::<$F(x), D>(x), hax(s_items::<$F(x), D>(x)))
@ens cat_ok(s_items::<$F(x), D>(x), hax(s_items::<$F(x), D>(x)), r)
@call stack::concatenate_axis
axiom_items_vec($1); assert($1@ =~= s_items::<$F(x), D>(x));
@use vst(stack::vstack | x | s_items::<$F(x), T>(x) | T)
@use dst(stack::dstack | x | s_items::<$F(x), T>(x) | T)

@template ilv(ty | init)
@fn IntoTensorList<T> for %ty%::into_list(self_, vec)
@prop C10
@ens final(vec)@ =~= old(vec)@ + Seq::new(self_@.len(), |k: int| *self_@[k])
@loop 0
@inv $b%init%@ == self_@;; vec@ =~= old(vec)@ + Seq::new($i as nat, |k: int| *self_@[k])
@endtemplate
@use ilv(Vec<&Tensor<T>> | )
@use ilv(&[&Tensor<T>] | )
@use ilv([&Tensor<T>;N] | )
@fn IntoTensorList<T> for [Tensor<T>;N]::into_list(self_, vec)
@prop C10
@ens final(vec)@ =~= old(vec)@ + self_@
@loop 0
@inv $b@ == self_@;; vec@ =~= old(vec)@ + self_@.subrange(0, $i as int)
@fn IntoTensorList<D> for (P0)::into_list(self_, vec)
@prop C10
@ens final(vec)@ =~= old(vec)@ + seq![self_.0]
@fn IntoTensorList<D> for (P0,P1)::into_list(self_, vec)
@prop C10
@ens final(vec)@ =~= old(vec)@ + seq![self_.0, self_.1]
@fn IntoTensorList<D> for (P0,P1,P2)::into_list(self_, vec)
@prop C10
@ens final(vec)@ =~= old(vec)@ + seq![self_.0, self_.1, self_.2]
@fn IntoTensorList<D> for (P0,P1,P2,P3)::into_list(self_, vec)
@prop C10
@ens final(vec)@ =~= old(vec)@ + seq![self_.0, self_.1, self_.2, self_.3]
@fn IntoTensorList<D> for (P0,P1,P2,P3,P4)::into_list(self_, vec)
@prop C10
@ens final(vec)@ =~= old(vec)@ + seq![self_.0, self_.1, self_.2, self_.3, self_.4]
@fn IntoTensorList<D> for (P0,P1,P2,P3,P4,P5)::into_list(self_, vec)
@prop C10
@ens final(vec)@ =~= old(vec)@ + seq![self_.0, self_.1, self_.2, self_.3, self_.4, self_.5]
@fn IntoTensorList<D> for (P0,P1,P2,P3,P4,P5,P6)::into_list(self_, vec)
@prop C10
@ens final(vec)@ =~= old(vec)@ + seq![self_.0, self_.1, self_.2, self_.3, self_.4, self_.5, self_.6]
@fn IntoTensorList<D> for (P0,P1,P2,P3,P4,P5,P6,P7)::into_list(self_, vec)
@prop C10
@ens final(vec)@ =~= old(vec)@ + seq![self_.0, self_.1, self_.2, self_.3, self_.4, self_.5, self_.6, self_.7]
@fn IntoTensorList<D> for (P0,P1,P2,P3,P4,P5,P6,P7,P8)::into_list(self_, vec)
@prop C10
@ens final(vec)@ =~= old(vec)@ + seq![self_.0, self_.1, self_.2, self_.3, self_.4, self_.5, self_.6, self_.7, self_.8]
@fn IntoTensorList<D> for (P0,P1,P2,P3,P4,P5,P6,P7,P8,P9)::into_list(self_, vec)
@prop C10
@ens final(vec)@ =~= old(vec)@ + seq![self_.0, self_.1, self_.2, self_.3, self_.4, self_.5, self_.6, self_.7, self_.8, self_.9]

@template cat(key | params | xs)
@fn %key%(%params%) -> r
@prop C10
@valid cat_same(%xs%, 0)
@treq cat_fits(%xs%, 0)
@ens cat_ok(%xs%, 0, r)
@endtemplate
@template catx(key | params | xs | ax)
@fn %key%(%params%) -> r
@prop C10
@req %ax%.axis.is_some() ==> self_.l().len() > 0 && okax(%ax%.axis.unwrap() as int, self_.l().len() as int)
@valid cat_same(%xs%, axo(%ax%.axis, self_.l().len() as int))
@treq cat_fits(%xs%, axo(%ax%.axis, self_.l().len() as int))
@ens cat_ok(%xs%, axo(%ax%.axis, self_.l().len() as int), r)
@endtemplate
@use cat(Tensor::concatenate | self_, others | seq![*self_] + s_items::<$F(others), T>(others))
@call stack::concatenate
axiom_items_vec($0); assert($0@ =~= seq![*self_] + s_items::<$F(others), T>(others));
@use catx(Tensor::concatenate_axis | self_, axis, others | (seq![*self_] + s_items::<$F(others), T>(others)) | axis)
@call stack::concatenate_axis
axiom_items_vec($1); assert($1@ =~= seq![*self_] + s_items::<$F(others), T>(others));
@fn Tensor::stack(self_, others, axis) -> r
@prop C10
@req axis.axis.is_some() ==> okax(axis.axis.unwrap() as int, self_.shape.rank + 1)
@valid stk_same(seq![*self_] + s_items::<$F(others), T>(others));; self_.shape.rank < 6;; stk_in(seq![*self_] + s_items::<$F(others), T>(others), axo(axis.axis, self_.shape.rank + 1)) > 0
@treq (seq![*self_] + s_items::<$F(others), T>(others)).len() * self_.n() <= usize::MAX
@ens stk_ok(seq![*self_] + s_items::<$F(others), T>(others), axo(axis.axis, self_.shape.rank + 1), r)
@call stack::stack_vec
assert($1@ =~= seq![*self_] + s_items::<$F(others), T>(others));
@use vst(Tensor::vstack | self_, others | (seq![*self_] + s_items::<$F(others), T>(others)) | T)
@call stack::vstack_vec
assert($0@ =~= seq![*self_] + s_items::<$F(others), T>(others));
@use dst(Tensor::dstack | self_, others | (seq![*self_] + s_items::<$F(others), T>(others)) | T)
@call stack::dstack_vec
assert($0@ =~= seq![*self_] + s_items::<$F(others), T>(others));

@spec
// the elements of the tensors of a list, one after the other
pub open spec fn flat_e<T>(a: Seq<Tensor<T>>, k: int) -> Seq<T> decreases k { if k <= 0 { Seq::empty() } else { flat_e(a, k - 1) + a[k - 1].e() } }
@fn Tensor::from_merge(vec, shape0) -> r
@prop C10
@valid shape0.n() == flat_e(vec@, vec@.len() as int).len()
@treq shape0.n() <= usize::MAX
@ens r.shape == shape0;; r.e() =~= flat_e(vec@, vec@.len() as int)
@loop 0
@inv $b@ == vec@;; $v == flat_e(vec@, $i as int).len()
@start lemma_flat_mono(vec@, $x + 1, vec@.len() as int);
@loop 1
@inv $b@ == vec@;; $v@ =~= flat_e(vec@, $i as int)
@loop 2
@inv $b2@ == vec@[$x1 as int].e();; $v1@ =~= flat_e(vec@, $x1 as int) + vec@[$x1 as int].e().subrange(0, $i2 as int)
@end assert(vec@[$x1 as int].e().subrange(0, $i2 as int) =~= vec@[$x1 as int].e().subrange(0, $x2 as int).push(vec@[$x1 as int].e()[$x2 as int]));
@after assert(vec@[$x1 as int].e().subrange(0, $i2 as int) =~= vec@[$x1 as int].e());

@spec
pub proof fn lemma_flat_mono<T>(a: Seq<Tensor<T>>, m: int, n: int) requires 0 <= m <= n ensures flat_e(a, m).len() <= flat_e(a, n).len() decreases n - m { if m < n { lemma_flat_mono(a, m, n - 1); } }
pub proof fn lemma_append<T>(a: Tensor<T>, b: Tensor<T>, r: Tensor<T>)
    requires a.wf(), b.wf(), r.wf(), cat_same(seq![a, b], 0), r.l() =~= a.l().update(0, a.l()[0] + b.l()[0]), r.e() =~= flat_e(seq![a, b], 2)
    ensures cat_ok(seq![a, b], 0, r)
{
    let s = seq![a, b]; reveal_with_fuel(flat_e, 3); reveal_with_fuel(coff, 3);
    lemma_cat_arg(s, 0, 0); lemma_cat_arg(s, 0, 1); lemma_sprod_empty(a.l(), 0); let C = cC(s, 0); let d0 = a.l()[0] as int; let d1 = b.l()[0] as int;
    assert(s[0] == a && s[1] == b); assert(1 * d0 * C == d0 * C && 1 * d1 * C == d1 * C) by(nonlinear_arith); assert(ctot(s, 0) == d0 + d1);
    assert forall|m: int, j: int, k: int, i: int| cin(s, 0, m, j, k, i) implies r.e()[#[trigger] cpos(s, 0, m, j, k, i)] == cval(s, 0, m, j, k, i) by {
        let d = s[m].l()[0] as int; let w = ctot(s, 0);
        assert(j == 0); assert(j * w == 0 && j * d == 0) by(nonlinear_arith) requires j == 0; lemma_lin(k, d, C, i);
        assert(cpos(s, 0, m, j, k, i) == (coff(s, 0, m) + k) * C + i); assert((d0 + k) * C == d0 * C + k * C && (0 + k) * C == k * C) by(nonlinear_arith); assert(cval(s, 0, m, j, k, i) == s[m].e()[k * C + i]);
        if m == 0 { assert(coff(s, 0, 0) == 0); } else { assert(m == 1); assert(coff(s, 0, 1) == d0); }
    }
}
pub proof fn lemma_app_pre<T>(a: Tensor<T>, b: Tensor<T>)
    ensures cat_same(seq![a, b], 0) <==> (a.l().len() > 0 && b.l().len() > 0 && a.l().remove(0) =~= b.l().remove(0))
{
    let s = seq![a, b]; assert(s[0] == a && s[1] == b);
    if cat_same(s, 0) { assert(alike(s[1].l(), a.l(), 0)); assert forall|j: int| 0 <= j < a.l().len() - 1 implies #[trigger] a.l().remove(0)[j] == b.l().remove(0)[j] by { assert(b.l()[j + 1] == a.l()[j + 1]); } }
    if a.l().len() > 0 && b.l().len() > 0 && a.l().remove(0) =~= b.l().remove(0) {
        assert(a.l().len() == a.l().remove(0).len() + 1);
        assert forall|j: int| 0 <= j < b.l().len() && j != 0 implies #[trigger] b.l()[j] == a.l()[j] by { assert(a.l().remove(0)[j - 1] == b.l().remove(0)[j - 1]); }
    }
}
pub proof fn lemma_app_n<T>(a: Tensor<T>, b: Tensor<T>)
    requires a.wf(), b.wf(), cat_same(seq![a, b], 0)
    ensures prod(a.l().update(0, a.l()[0] + b.l()[0])) == flat_e(seq![a, b], 2).len(), cA(seq![a, b], 0) * ctot(seq![a, b], 0) * cC(seq![a, b], 0) == flat_e(seq![a, b], 2).len(), ctot(seq![a, b], 0) == a.l()[0] + b.l()[0]
{
    let s = seq![a, b]; reveal_with_fuel(flat_e, 3); reveal_with_fuel(coff, 3); lemma_cat_arg(s, 0, 0); lemma_cat_arg(s, 0, 1); lemma_sprod_empty(a.l(), 0);
    assert(s[0] == a && s[1] == b); lemma_prod_at(a.l(), 0, a.l()[0] + b.l()[0]); let C = cC(s, 0); let d0 = a.l()[0] as int; let d1 = b.l()[0] as int;
    assert(1 * (d0 + d1) * C == 1 * d0 * C + 1 * d1 * C) by(nonlinear_arith);
}
@fn Tensor::append(self_, tensor0) -> r
@prop C10
@valid self_.shape.rank > 0;; cat_same(seq![*self_, tensor0], 0)
@treq cat_fits(seq![*self_, tensor0], 0);; pos(self_.l())
@ens cat_ok(seq![*self_, tensor0], 0, r)
@pre lemma_app_pre(*self_, tensor0); if cat_same(seq![*self_, tensor0], 0) { lemma_app_n(*self_, tensor0); }
@last assert(nats(vec@) =~= self_.l().update(0, self_.l()[0] + tensor0.l()[0]));
@call Tensor::from_merge
assert($0@ =~= seq![*self_, tensor0]); assert($1.l() =~= self_.l().update(0, self_.l()[0] + tensor0.l()[0]));
@post assert(r.l() =~= self_.l().update(0, self_.l()[0] + tensor0.l()[0])); lemma_append(*self_, tensor0, r);

@template spl(key | params | ax)
@fn %key%(%params%) -> r
@prop C11
@req okax(%ax%, self_.shape.rank as int)
@treq pos(self_.l());; sec_ok(s1_into_sections::<$F(sections), Sections>(sections), self_.l()[%ax%] as int)
@ens split_ok(*self_, %ax%, s1_into_sections::<$F(sections), Sections>(sections), r@)
@endtemplate
@use spl(Tensor::vsplit | self_, sections | 0)
@use spl(Tensor::hsplit | self_, sections | 1)
@use spl(Tensor::dsplit | self_, sections | 2)
@fn Tensor::split(self_, sections) -> r
@prop C11
@valid self_.shape.rank > 0
@treq pos(self_.l());; sec_ok(s1_into_sections::<$F(sections), Sections>(sections), self_.l()[0] as int)
@ens split_ok(*self_, 0, s1_into_sections::<$F(sections), Sections>(sections), r@)
@fn Tensor::split_axis(self_, axis, sections) -> r
@prop C11
@req axis.axis.is_some() ==> self_.shape.rank > 0 && okax(axis.axis.unwrap() as int, self_.shape.rank as int)
@valid self_.shape.rank > 0
@treq pos(self_.l());; sec_ok(s1_into_sections::<$F(sections), Sections>(sections), self_.l()[axo(axis.axis, self_.shape.rank as int)] as int)
@ens split_ok(*self_, axo(axis.axis, self_.shape.rank as int), s1_into_sections::<$F(sections), Sections>(sections), r@)
@fn IntoSections for usize::into_sections(self_) -> r
@prop C11
@ens r == Sections::SplitEqual(self_)
@template sec(ty)
@fn IntoSections for %ty%::into_sections(self_) -> r
@prop C11
@ens match r { Sections::SplitCuts(v) => v@ =~= self_@, _ => false }
@endtemplate
@use sec(&Vec<usize>)
@use sec(&[usize])
@use sec(Vec<usize>)
@use sec([usize;N])

@spec
// ---- tiling; dimensions and multiples innermost first, absent ones count as one
pub open spec fn sd(s: Seq<usize>, i: int) -> int { if 0 <= i < s.len() { s[i] as int } else { 1 } }
pub open spec fn tP(s: Seq<usize>, k: int) -> int decreases k { if k <= 0 { 1 } else { tP(s, k - 1) * sd(s, k - 1) } }
pub open spec fn tB(s: Seq<usize>, m: Seq<usize>, k: int) -> int decreases k { if k <= 0 { 1 } else { tB(s, m, k - 1) * (sd(s, k - 1) * sd(m, k - 1)) } }
// the source offset of output offset q: in every dimension the coordinate modulo the source dimension
pub open spec fn tsrc(s: Seq<usize>, m: Seq<usize>, k: int, q: int) -> int decreases k { if k <= 0 { 0 } else { ((q / tB(s, m, k - 1)) % sd(s, k - 1)) * tP(s, k - 1) + tsrc(s, m, k - 1, q % tB(s, m, k - 1)) } }
pub open spec fn posn(s: Seq<usize>, k: int) -> bool { forall|i: int| 0 <= i < k ==> #[trigger] sd(s, i) > 0 }
pub proof fn lemma_tpos(s: Seq<usize>, m: Seq<usize>, k: int)
    ensures tP(s, k) >= 0, tB(s, m, k) >= 0, tB(s, m, k) == tP(s, k) * tP(m, k), posn(s, k) ==> tP(s, k) > 0, posn(s, k) && posn(m, k) ==> tB(s, m, k) > 0
    decreases k
{
    if k > 0 {
        lemma_tpos(s, m, k - 1); let a = tP(s, k - 1); let b = tP(m, k - 1); let c = tB(s, m, k - 1); let x = sd(s, k - 1); let y = sd(m, k - 1);
        assert(a * x >= 0 && x * y >= 0) by(nonlinear_arith) requires a >= 0, x >= 0, y >= 0;
        assert(c * (x * y) >= 0) by(nonlinear_arith) requires c >= 0, x * y >= 0;
        if posn(s, k) { assert(x > 0); assert(a * x > 0) by(nonlinear_arith) requires a > 0, x > 0; }
        if posn(s, k) && posn(m, k) { assert(x > 0 && y > 0); assert(x * y > 0) by(nonlinear_arith) requires x > 0, y > 0; assert(c * (x * y) > 0) by(nonlinear_arith) requires c > 0, x * y > 0; }
        assert((a * b) * (x * y) == (a * x) * (b * y)) by(nonlinear_arith);
    }
}
pub proof fn lemma_tPmono(s: Seq<usize>, a: int, b: int) requires 0 <= a <= b, posn(s, b) ensures 0 < tP(s, a) <= tP(s, b) decreases b
{
    if b > 0 {
        if a < b { lemma_tPmono(s, a, b - 1); let x = tP(s, b - 1); let y = sd(s, b - 1); assert(x * y >= x) by(nonlinear_arith) requires x > 0, y > 0; }
        else { lemma_tPmono(s, a - 1, b - 1); let x = tP(s, b - 1); let y = sd(s, b - 1); assert(x * y > 0) by(nonlinear_arith) requires x > 0, y > 0; }
    }
}
// the block r, sub-block i, offset p inside it
pub proof fn lemma_tsrc(s: Seq<usize>, m: Seq<usize>, j: int, r: int, i: int, p: int)
    requires 0 <= j, 0 <= r, 0 <= i < sd(s, j), 0 <= p < tB(s, m, j)
    ensures tsrc(s, m, j + 1, (r * sd(s, j) + i) * tB(s, m, j) + p) == i * tP(s, j) + tsrc(s, m, j, p)
{
    let d = sd(s, j); let b = tB(s, m, j);
    assert(r * d >= 0) by(nonlinear_arith) requires r >= 0, d > 0;
    lemma_dm(r * d + i, b, p); lemma_dm(r, d, i);
}
pub proof fn lemma_tin(r: int, i: int, p: int, d: int, m: int, b: int)
    requires 0 <= r < m, 0 <= i < d, 0 <= p <= b, b >= 0
    ensures 0 <= (r * d + i) * b, (r * d + i) * b + p <= b * (d * m), (r * d + i + 1) * b == (r * d + i) * b + b, (r * d + i + 1) * b <= b * (d * m), r * (d * b) + i * b == (r * d + i) * b, (r + 1) * (d * b) == (r * d + (d - 1) + 1) * b
{
    assert(0 <= r * d && r * d + i + 1 <= d * m) by(nonlinear_arith) requires 0 <= r, r + 1 <= m, 0 <= i, i + 1 <= d;
    assert((r * d + i) * b >= 0) by(nonlinear_arith) requires r * d + i >= 0, b >= 0;
    assert((r * d + i + 1) * b <= b * (d * m)) by(nonlinear_arith) requires r * d + i + 1 <= d * m, b >= 0;
    assert((r * d + i + 1) * b == (r * d + i) * b + b) by(nonlinear_arith);
    assert(r * (d * b) + i * b == (r * d + i) * b && (r + 1) * (d * b) == (r * d + (d - 1) + 1) * b) by(nonlinear_arith);
}
pub open spec fn tdone<D>(h: OutBuf<D>, x: Seq<D>, xo: int, s: Seq<usize>, m: Seq<usize>, k: int, o: int, n: int) -> bool {
    forall|q: int| #![trigger h.has(q)] #![trigger h.at(q)] o <= q < o + n ==> h.has(q) && h.at(q) == x[xo + tsrc(s, m, k, q - o)]
}
pub open spec fn tframe<D>(h: OutBuf<D>, g: OutBuf<D>, a: int, b: int) -> bool {
    h.cap() == g.cap() && forall|q: int| #![trigger h.has(q)] #![trigger h.at(q)] q < a || q >= b ==> h.has(q) == g.has(q) && h.at(q) == g.at(q)
}
pub proof fn lemma_tjoin<D>(h1: OutBuf<D>, h2: OutBuf<D>, x: Seq<D>, xo: int, s: Seq<usize>, m: Seq<usize>, j: int, r: int, i: int, o: int)
    requires 0 <= j, 0 <= r, 0 <= i < sd(s, j), tB(s, m, j) >= 0,
        tdone(h1, x, xo, s, m, j + 1, o, (r * sd(s, j) + i) * tB(s, m, j)), ({ let cur = o + (r * sd(s, j) + i) * tB(s, m, j); tframe(h2, h1, cur, cur + tB(s, m, j)) && tdone(h2, x, xo + i * tP(s, j), s, m, j, cur, tB(s, m, j)) })
    ensures tdone(h2, x, xo, s, m, j + 1, o, (r * sd(s, j) + i) * tB(s, m, j) + tB(s, m, j))
{
    let b = tB(s, m, j); let w = (r * sd(s, j) + i) * b; let cur = o + w;
    assert forall|q: int| #![trigger h2.has(q)] #![trigger h2.at(q)] o <= q < o + (w + b) implies h2.has(q) && h2.at(q) == x[xo + tsrc(s, m, j + 1, q - o)] by {
        if q < cur { assert(h1.has(q) && h1.at(q) == x[xo + tsrc(s, m, j + 1, q - o)]); assert(h2.has(q) == h1.has(q) && h2.at(q) == h1.at(q)); }
        else { lemma_tsrc(s, m, j, r, i, q - cur); assert(h2.has(q) && h2.at(q) == x[xo + i * tP(s, j) + tsrc(s, m, j, q - cur)]); }
    }
}
pub proof fn lemma_rev(l: Seq<nat>, r: Seq<usize>, k: int)
    requires 0 <= k <= l.len(), l.len() == r.len(), forall|i: int| 0 <= i < l.len() ==> #[trigger] l[i] == r[l.len() - 1 - i]
    ensures sprod(l, l.len() - k, l.len() as int) == tP(r, k)
    decreases k
{
    if k <= 0 { lemma_sprod_empty(l, l.len() as int); } else { lemma_rev(l, r, k - 1); lemma_sprod_left(l, l.len() - k, l.len() as int); assert(l[l.len() - k] == r[k - 1]); let a = sd(r, k - 1); let b = tP(r, k - 1); assert(a * b == b * a) by(nonlinear_arith); }
}
pub proof fn lemma_revB(l: Seq<nat>, s: Seq<usize>, m: Seq<usize>, k: int)
    requires 0 <= k <= l.len(), forall|i: int| 0 <= i < l.len() ==> #[trigger] l[i] == sd(s, l.len() - 1 - i) * sd(m, l.len() - 1 - i)
    ensures sprod(l, l.len() - k, l.len() as int) == tB(s, m, k)
    decreases k
{
    if k <= 0 { lemma_sprod_empty(l, l.len() as int); } else { lemma_revB(l, s, m, k - 1); lemma_sprod_left(l, l.len() - k, l.len() as int); assert(l[l.len() - k] == sd(s, k - 1) * sd(m, k - 1)); let a = sd(s, k - 1) * sd(m, k - 1); let b = tB(s, m, k - 1); assert(a * b == b * a) by(nonlinear_arith); }
}
pub proof fn lemma_tPext(s: Seq<usize>, k: int) requires k >= s.len() ensures tP(s, k) == tP(s, s.len() as int) decreases k
{ if k > s.len() { lemma_tPext(s, k - 1); let a = tP(s, k - 1); assert(a * 1 == a) by(nonlinear_arith); } }

@fn tile::tile_rec(o, x, x_off, x_len, x_shape_r, mult_r, j, offset)
@prop C13
@req o.off@ == 0;; x_len == tP(x_shape_r@, j + 1);; x_off + x_len <= x@.len();; *old(offset) + tB(x_shape_r@, mult_r@, j + 1) <= old(__h).cap();; old(__h).cap() <= usize::MAX;; j < usize::MAX
@treq posn(x_shape_r@, j + 1);; posn(mult_r@, j + 1)
@ens *final(offset) == *old(offset) + tB(x_shape_r@, mult_r@, j + 1);; tframe(*final(__h), *old(__h), *old(offset) as int, *final(offset) as int);; tdone(*final(__h), x@, x_off as int, x_shape_r@, mult_r@, j + 1, *old(offset) as int, tB(x_shape_r@, mult_r@, j + 1))
@dec j
@pre let S = x_shape_r@; let M = mult_r@; lemma_tpos(S, M, j + 1); lemma_tpos(S, M, j as int); assert(tB(S, M, j + 1) == tB(S, M, j as int) * (sd(S, j as int) * sd(M, j as int))); assert(tP(S, j + 1) == tP(S, j as int) * sd(S, j as int)); let d = sd(S, j as int); let b = tB(S, M, j as int); let m = sd(M, j as int); assert(m * (d * b) == b * (d * m) && 0 * (d * b) == 0) by(nonlinear_arith);
@loop 0
@inv $s == 0;; $e == sd(mult_r@, j as int);; *offset == *old(offset) + $i * (sd(x_shape_r@, j as int) * tB(x_shape_r@, mult_r@, j as int));; *offset <= *old(offset) + tB(x_shape_r@, mult_r@, j + 1);; tframe(*__h, *old(__h), *old(offset) as int, *offset as int);; tdone(*__h, x@, x_off as int, x_shape_r@, mult_r@, j + 1, *old(offset) as int, *offset - *old(offset))
@ghost off0: int = 0;; hb: OutBuf<D> = *__h;; ci: int = 0;; cr: int = 0
@start cr = $x as int; off0 = *offset as int; hb = *__h; ci = 0; lemma_tpos(x_shape_r@, mult_r@, j as int); if sd(x_shape_r@, j as int) > 0 { lemma_tin($x as int, sd(x_shape_r@, j as int) - 1, 0, sd(x_shape_r@, j as int), sd(mult_r@, j as int), tB(x_shape_r@, mult_r@, j as int)); }
@end let d = sd(x_shape_r@, j as int); let b = tB(x_shape_r@, mult_r@, j as int); let m = sd(mult_r@, j as int); assert(($x + 1) * (d * b) == $x * (d * b) + d * b && d * 1 == d && 1 * b == b) by(nonlinear_arith); assert(($x + 1) * (d * b) <= b * (d * m)) by(nonlinear_arith) requires $x + 1 <= m, d >= 0, b >= 0; assert(j == 0 ==> b == 1);
@loop 1
@inv $s1 == 0;; $e1 == x_len;; tB(x_shape_r@, mult_r@, 0) == 1;; *offset == off0;; x_len == sd(x_shape_r@, 0);; tframe(*__h, *old(__h), *old(offset) as int, off0 + $i1);; tdone(*__h, x@, x_off as int, x_shape_r@, mult_r@, 1, *old(offset) as int, off0 + $i1 - *old(offset));; off0 == *old(offset) + $x0 * sd(x_shape_r@, 0)
@before assert(1 * sd(x_shape_r@, 0) == sd(x_shape_r@, 0) && sd(x_shape_r@, 0) * 1 == sd(x_shape_r@, 0)) by(nonlinear_arith); assert(tP(x_shape_r@, 1) == tP(x_shape_r@, 0) * sd(x_shape_r@, 0));
@start lemma_tpos(x_shape_r@, mult_r@, 0); lemma_tsrc(x_shape_r@, mult_r@, 0, $x0 as int, $x1 as int, 0); lemma_tin($x0 as int, $x1 as int, 0, sd(x_shape_r@, 0), sd(mult_r@, 0), 1); assert(($x0 * sd(x_shape_r@, 0) + $x1) * 1 == $x0 * sd(x_shape_r@, 0) + $x1 && $x1 * 1 == $x1) by(nonlinear_arith);
@loop 2
@inv $s2 == 0;; $b2@ == x_shape_r@;; $e2 == j;; $v2 == tP(x_shape_r@, $i2 as int)
@start if posn(x_shape_r@, j + 1) { lemma_tPmono(x_shape_r@, $x2 + 1, j + 1); }
@loop 3
@inv $s3 == 0;; $e3 == sd(x_shape_r@, j as int);; x_len_1 == tP(x_shape_r@, j as int);; *offset == off0 + $i3 * tB(x_shape_r@, mult_r@, j as int);; tframe(*__h, *old(__h), *old(offset) as int, *offset as int);; tdone(*__h, x@, x_off as int, x_shape_r@, mult_r@, j + 1, *old(offset) as int, *offset - *old(offset));; off0 == *old(offset) + $x0 * (sd(x_shape_r@, j as int) * tB(x_shape_r@, mult_r@, j as int))
@start lemma_tpos(x_shape_r@, mult_r@, j as int); hb = *__h; ci = $x3 as int; let d = sd(x_shape_r@, j as int); let b = tB(x_shape_r@, mult_r@, j as int); let P = tP(x_shape_r@, j as int); lemma_tin($x0 as int, $x3 as int, 0, d, sd(mult_r@, j as int), b); assert($x3 * P + P <= P * d && $x3 * P >= 0) by(nonlinear_arith) requires 0 <= $x3, $x3 + 1 <= d, P >= 0; assert(($x3 + 1) * b == $x3 * b + b) by(nonlinear_arith);
@ret tile::tile_rec
lemma_tpos(x_shape_r@, mult_r@, j as int); let d = sd(x_shape_r@, j as int); let b = tB(x_shape_r@, mult_r@, j as int); let P = tP(x_shape_r@, j as int); lemma_tin(cr, ci, 0, d, sd(mult_r@, j as int), b); assert(0 * P == 0 && 0 * b == 0) by(nonlinear_arith); lemma_tjoin(hb, *__h, x@, x_off as int, x_shape_r@, mult_r@, j as int, cr, ci, *old(offset) as int);

@spec
pub open spec fn trank(a: int, b: int) -> int { if a > b { a } else { b } }
pub open spec fn t_s<T>(t: Tensor<T>) -> Seq<usize> { Seq::new(t.l().len(), |i: int| t.l()[t.l().len() - 1 - i] as usize) }
pub open spec fn tiled<T>(t: Tensor<T>, m: Seq<usize>, r: Tensor<T>) -> bool {
    let S = t_s(t); let M = m.reverse(); let R = trank(S.len() as int, M.len() as int);
    &&& r.l().len() == R
    &&& forall|k: int| 0 <= k < R ==> #[trigger] r.l()[k] == sd(S, R - 1 - k) * sd(M, R - 1 - k)
    &&& forall|q: int| 0 <= q < r.n() ==> #[trigger] r.e()[q] == t.e()[tsrc(S, M, R, q)]
}
@spec
pub proof fn lemma_tBmax(s: Seq<usize>, m: Seq<usize>, i: int, k: int)
    requires posn(s, k), posn(m, k), 0 <= i < k
    ensures sd(s, i) * sd(m, i) <= tB(s, m, k)
    decreases k
{
    lemma_tpos(s, m, k - 1); let c = tB(s, m, k - 1); let z = sd(s, k - 1) * sd(m, k - 1);
    assert(z > 0) by(nonlinear_arith) requires z == sd(s, k - 1) * sd(m, k - 1), sd(s, k - 1) > 0, sd(m, k - 1) > 0;
    if i == k - 1 { assert(c * z >= z) by(nonlinear_arith) requires c > 0, z > 0; }
    else { lemma_tBmax(s, m, i, k - 1); assert(c * z >= c) by(nonlinear_arith) requires c > 0, z > 0; }
}
pub proof fn lemma_tPs(s: Seq<usize>, k: int) requires 0 <= k <= s.len() ensures sprod(nats(s), 0, k) == tP(s, k) decreases k
{
    if k <= 0 { lemma_sprod_empty(nats(s), 0); } else { lemma_tPs(s, k - 1); lemma_sprod_right(nats(s), 0, k); assert(nats(s)[k - 1] == s[k - 1] as nat); }
}
// facts about the reversed dimension and multiple lists of tile
pub proof fn lemma_tile<T>(t: Tensor<T>, m: Seq<usize>)
    requires t.wf()
    ensures ({ let S = t_s(t); let M = m.reverse(); let R = trank(S.len() as int, M.len() as int);
        &&& tP(S, R) == t.n() && tP(M, R) == tP(m, m.len() as int) && tB(S, M, R) == t.n() * tP(m, m.len() as int)
        &&& S.len() == t.l().len()
        &&& forall|i: int| 0 <= i < S.len() ==> #[trigger] S[i] == t.l()[S.len() - 1 - i]
        &&& pos(t.l()) ==> posn(S, R)
        &&& posn(m, m.len() as int) ==> posn(M, R) })
{
    let S = t_s(t); let M = m.reverse(); let R = trank(S.len() as int, M.len() as int);
    lemma_rev(t.l(), S, S.len() as int); lemma_sprod_full(t.l()); lemma_tPext(S, R); lemma_tPext(M, R);
    lemma_rev(nats(m), M, M.len() as int); lemma_tPs(m, m.len() as int); lemma_tpos(S, M, R);
    if pos(t.l()) { assert forall|i: int| 0 <= i < R implies #[trigger] sd(S, i) > 0 by { if i < S.len() { assert(S[i] == t.l()[S.len() - 1 - i]); } } }
    if posn(m, m.len() as int) { assert forall|i: int| 0 <= i < R implies #[trigger] sd(M, i) > 0 by { if i < M.len() { assert(sd(m, m.len() - 1 - i) > 0); } } }
}
@fn tile::tile(tensor0, multiples0) -> r
@prop C13 C01
@valid trank(tensor0.shape.rank as int, multiples0.n() as int) > 0
@treq pos(tensor0.l());; posn(multiples0.e(), multiples0.n() as int);; trank(tensor0.shape.rank as int, multiples0.n() as int) <= 6;; tensor0.n() * tP(multiples0.e(), multiples0.n() as int) <= usize::MAX
@ens tiled(tensor0, multiples0.e(), r)
@pre lemma_tile(tensor0, multiples0.e()); if pos(tensor0.l()) { lemma_pos_prod(tensor0.l()); }
@loop 0
@inv $s == 0;; $e == multiples.n();; $b@ == multiples.e();; $v == tP(multiples.e(), $i as int)
@start let a = tensor0.n() as int; let c = tP(multiples0.e(), multiples0.n() as int); if posn(multiples0.e(), multiples0.n() as int) { lemma_tPmono(multiples0.e(), $x + 1, multiples0.n() as int); } if a > 0 && c > 0 { assert(c <= a * c) by(nonlinear_arith) requires a > 0, c > 0; }
@loop 1
@inv $s1 == 0;; $e1 == trank(t_s(tensor0).len() as int, multiples0.n() as int);; o_shape_r@.len() == $i1;; shape_r@ =~= t_s(tensor0);; mult_r@ =~= multiples0.e().reverse();; forall|k: int| 0 <= k < $i1 ==> #[trigger] o_shape_r@[k] == sd(t_s(tensor0), k) * sd(multiples0.e().reverse(), k)
@before assert(shape_r@ =~= t_s(tensor0)) by { let v = shape_r@.reverse(); assert forall|i: int| 0 <= i < shape_r@.len() implies shape_r@[i] == t_s(tensor0)[i] by { assert(nats(v)[v.len() - 1 - i] == v[v.len() - 1 - i] as nat); assert(v[v.len() - 1 - i] == shape_r@[i]); } }
@start if posn(t_s(tensor0), $e1 as int) && posn(multiples0.e().reverse(), $e1 as int) { lemma_tBmax(t_s(tensor0), multiples0.e().reverse(), $x1 as int, $e1 as int); }
@after let S = t_s(tensor0); let M = multiples0.e().reverse(); let v = o_shape_r@.reverse(); let a = tensor0.n() as int; let c = tP(multiples0.e(), multiples0.n() as int); assert(c * a == a * c) by(nonlinear_arith);
  assert forall|i: int| 0 <= i < v.len() implies #[trigger] nats(v)[i] == sd(S, v.len() - 1 - i) * sd(M, v.len() - 1 - i) by { assert(v[i] == o_shape_r@[v.len() - 1 - i]); }
  if posn(S, v.len() as int) && posn(M, v.len() as int) { assert forall|i: int| 0 <= i < v.len() implies #[trigger] nats(v)[i] > 0 by { let x = sd(S, v.len() - 1 - i); let y = sd(M, v.len() - 1 - i); assert(x * y > 0) by(nonlinear_arith) requires x > 0, y > 0; } }
  lemma_revB(nats(v), S, M, v.len() as int); lemma_sprod_full(nats(v));
@fin assert(tB(t_s(tensor0), multiples0.e().reverse(), o_rank as int) == __h.cap());

@fn Tensor::tile(self_, multiples) -> r
@prop C13
@valid trank(self_.shape.rank as int, multiples.n() as int) > 0
@treq pos(self_.l());; posn(multiples.e(), multiples.n() as int);; trank(self_.shape.rank as int, multiples.n() as int) <= 6;; self_.n() * tP(multiples.e(), multiples.n() as int) <= usize::MAX
@ens tiled(*self_, multiples.e(), r)
