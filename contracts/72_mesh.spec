@spec
// ---- grids: list a of vectors, outermost dimension first; the m-th one's values over the whole grid
pub open spec fn szs<T>(a: Seq<Tensor<T>>) -> Seq<nat> { Seq::new(a.len(), |i: int| a[i].n()) }
pub open spec fn grid_v<T>(x: Seq<T>, k: int, q: int) -> T { x[(q / k) % (x.len() as int)] }
pub open spec fn grid_at<T>(a: Seq<Tensor<T>>, m: int, r: Tensor<T>) -> bool {
    r.l() =~= szs(a) && forall|q: int| 0 <= q < r.n() ==> #[trigger] r.e()[q] == grid_v(a[m].e(), sprod(szs(a), m + 1, a.len() as int) as int, q)
}
pub open spec fn grid_ok<T>(a: Seq<Tensor<T>>) -> bool { 0 < a.len() <= 6 && forall|i: int| 0 <= i < a.len() ==> (#[trigger] a[i]).wf() && a[i].shape.rank == 1 && a[i].n() > 0 }
pub proof fn lemma_grid(j: int, k: int, i: int, n: int, L: int, S: int)
    requires 0 <= k < L, 0 <= i < S, 0 <= j < n
    ensures idx3(j, k, i, L, S) / S % L == k, k * S + j * (L * S) + i == idx3(j, k, i, L, S), 0 <= idx3(j, k, i, L, S) < n * L * S, 0 <= k * S < n * L * S, 0 <= j * (L * S) < n * L * S, k * S + j * (L * S) < n * L * S
{
    lemma_idx3(j, k, i, n, L, S); lemma_dm(j * L + k, S, i); lemma_dm(j, L, k);
    assert(0 <= k * S && 0 <= j * (L * S)) by(nonlinear_arith) requires 0 <= k, 0 < S, 0 <= j, 0 < L;
}
@fn matrix::build_meshgrid_axis(x, shape, k_s) -> r
@prop C15
@treq x.shape.rank == 1;; x.n() > 0;; k_s > 0;; shape.n() > 0;; shape.n() as int % (x.n() as int * k_s) == 0
@ens r.l() =~= shape.l();; forall|q: int| 0 <= q < r.n() ==> #[trigger] r.e()[q] == grid_v(x.e(), k_s as int, q)
@pre if x.n() > 0 && k_s > 0 { assert(x.n() as int * k_s > 0) by(nonlinear_arith) requires x.n() > 0, k_s > 0; lemma_dm_rev(shape.n() as int, x.n() as int * k_s); let q = shape.n() as int / (x.n() as int * k_s); let a = x.n() as int; let b = k_s as int; if shape.n() as int % (a * b) == 0 { assert(q * (a * b) == (q * b) * a && q * (a * b) == (q * a) * b) by(nonlinear_arith); lemma_dm(q * b, a, 0); lemma_dm(q, b, 0); lemma_dm(q * a, b, 0); assert(q > 0 || shape.n() == 0) by(nonlinear_arith) requires q * (a * b) == shape.n(), a * b > 0; } }
@loop 0
@inv $e == len;; $s == 0;; __h.cap() == size;; size == j_n * len * k_s;; j_s == len * k_s;; i_n == k_s;; len > 0;; k_s > 0;; x_1@ == x.e();; len == x.n();;
  forall|j: int, k: int, i: int| 0 <= j < j_n && 0 <= k < $i && 0 <= i < k_s ==> __h.has(#[trigger] idx3(j, k, i, len as int, k_s as int)) && __h.at(idx3(j, k, i, len as int, k_s as int)) == x.e()[k]
@before let a = len as int; let b = k_s as int; lemma_dm_rev(size as int, a); lemma_dm_rev(n as int, b); assert(size == j_n * a * b && size == (a * b) * j_n + 0 && size == j_n * (a * b)) by(nonlinear_arith) requires size == n * a, n == j_n * b; lemma_dm(a * b, j_n as int, 0);
@after assert(len * k_s > 0) by(nonlinear_arith) requires len > 0, k_s > 0; lemma_dm(j_n as int, len as int * k_s, 0); assert(j_n * len * k_s == j_n * (len * k_s)) by(nonlinear_arith);
@loop 1
@inv $e == j_n;; $s == 0;; __h.cap() == size;; size == j_n * len * k_s;; j_s == len * k_s;; i_n == k_s;; len > 0;; k_s > 0;; x_1@ == x.e();; len == x.n();; 0 <= $x0 < len;;
  forall|j: int, k: int, i: int| 0 <= j < j_n && 0 <= k < $x0 && 0 <= i < k_s ==> __h.has(#[trigger] idx3(j, k, i, len as int, k_s as int)) && __h.at(idx3(j, k, i, len as int, k_s as int)) == x.e()[k];;
  forall|j: int, i: int| 0 <= j < $i && 0 <= i < k_s ==> __h.has(#[trigger] idx3(j, $x0 as int, i, len as int, k_s as int)) && __h.at(idx3(j, $x0 as int, i, len as int, k_s as int)) == x.e()[$x0 as int]
@loop 2
@inv $e == k_s;; $s == 0;; __h.cap() == size;; size == j_n * len * k_s;; j_s == len * k_s;; i_n == k_s;; len > 0;; k_s > 0;; x_1@ == x.e();; len == x.n();; 0 <= $x0 < len;; 0 <= $x1 < j_n;;
  forall|j: int, k: int, i: int| 0 <= j < j_n && 0 <= k < $x0 && 0 <= i < k_s ==> __h.has(#[trigger] idx3(j, k, i, len as int, k_s as int)) && __h.at(idx3(j, k, i, len as int, k_s as int)) == x.e()[k];;
  forall|j: int, i: int| 0 <= j < $x1 && 0 <= i < k_s ==> __h.has(#[trigger] idx3(j, $x0 as int, i, len as int, k_s as int)) && __h.at(idx3(j, $x0 as int, i, len as int, k_s as int)) == x.e()[$x0 as int];;
  forall|i: int| 0 <= i < $i ==> __h.has(#[trigger] idx3($x1 as int, $x0 as int, i, len as int, k_s as int)) && __h.at(idx3($x1 as int, $x0 as int, i, len as int, k_s as int)) == x.e()[$x0 as int]
@start lemma_grid($x1 as int, $x0 as int, $x as int, j_n as int, len as int, k_s as int); lemma_idx3($x1 as int, $x0 as int, $x as int, j_n as int, len as int, k_s as int);
@fin let jn = size as int / (len as int * k_s); assert(forall|j: int, k: int, i: int| 0 <= j < jn && 0 <= k < len && 0 <= i < k_s ==> __h.has(#[trigger] idx3(j, k, i, len as int, k_s as int))); assert forall|q: int| 0 <= q < __h.cap() implies #[trigger] __h.has(q) && __h.at(q) == grid_v(x.e(), k_s as int, q) by { lemma_unidx3(q, jn, len as int, k_s as int); assert(__h.has(idx3((q / (k_s as int)) / (len as int), (q / (k_s as int)) % (len as int), q % (k_s as int), len as int, k_s as int))); } assert forall|q: int| 0 <= q < __h.cap() implies #[trigger] __h.seq()[q] == grid_v(x.e(), k_s as int, q) by { assert(__h.has(q)); }
@fn matrix::build_meshgrid(axes0, order) -> r
@prop C15
@treq grid_ok(dr(axes0@));; prod(szs(dr(axes0@))) <= usize::MAX
@ens r@.len() == axes0@.len();; forall|m: int| 0 <= m < r@.len() ==> gridm(dr(axes0@), order, m, #[trigger] r@[m])
@pre lemma_oax(dr(axes0@), order); if grid_ok(dr(axes0@)) { let l = szs(dr(axes0@)); assert forall|i: int| 0 <= i < l.len() implies #[trigger] l[i] > 0 by { assert(dr(axes0@)[i].n() > 0); } lemma_pos_prod(l); }
@loop 0
@inv $e == dr(axes0@).len();; dr($b@) =~= oax(dr(axes0@), order);; nats($v@) =~= szs(oax(dr(axes0@), order)).subrange(0, $i as int)
@loop 1
@inv $s == 0;; $e == dr(axes0@).len();; dr($b@) =~= oax(dr(axes0@), order);; shape.wf();; shape.l() =~= szs(oax(dr(axes0@), order));; vec@.len() == $i;;
  inner == sprod(szs(oax(dr(axes0@), order)), $e - $i, $e as int);;
  forall|t: int| 0 <= t < $i ==> (#[trigger] vec@[t]).wf() && grid_at(oax(dr(axes0@), order), $e - 1 - t, vec@[t])
@before lemma_sprod_empty(szs(oax(dr(axes0@), order)), $e as int);
@start let a = oax(dr(axes0@), order); let m = $e - 1 - $x; lemma_oax(dr(axes0@), order); lemma_sprod_left(szs(a), m, $e as int); if prod(szs(a)) > 0 { lemma_sprod_mid(szs(a), m); } assert(szs(a)[m] == a[m].n()); assert(dr($b@)[m] == a[m]);
@end let a = oax(dr(axes0@), order);
@post let a = dr(axes0@); assert(axes0@.len() == a.len()); assert forall|m: int| 0 <= m < r@.len() implies gridm(a, order, m, #[trigger] r@[m]) by { }
@spec
pub open spec fn dr<T>(a: Seq<&Tensor<T>>) -> Seq<Tensor<T>> { Seq::new(a.len(), |i: int| *a[i]) }
// the m-th result of meshgrid over the vectors a
pub open spec fn gridm<T>(a: Seq<Tensor<T>>, o: Order, m: int, r: Tensor<T>) -> bool {
    match o { Order::IJ => grid_at(a, m, r), Order::XY => grid_at(a.reverse(), a.len() - 1 - m, r) }
}

// the vectors, outermost dimension first
pub open spec fn oax<T>(a: Seq<Tensor<T>>, o: Order) -> Seq<Tensor<T>> { match o { Order::IJ => a, Order::XY => a.reverse() } }
pub proof fn lemma_oax<T>(a: Seq<Tensor<T>>, o: Order) ensures oax(a, o).len() == a.len(), prod(szs(oax(a, o))) == prod(szs(a)), grid_ok(a) ==> grid_ok(oax(a, o))
{
    match o { Order::IJ => {}, Order::XY => { assert(szs(a.reverse()) =~= szs(a).reverse()); lemma_prod_rev(szs(a)); } }
}
pub proof fn lemma_prod_rev(l: Seq<nat>) ensures prod(l.reverse()) == prod(l) decreases l.len()
{
    if l.len() > 0 {
        let t = l.drop_last(); assert(l.reverse() =~= seq![l.last()] + t.reverse()); lemma_cons(l.last(), t.reverse()); lemma_prod_rev(t);
        assert(l.last() * prod(t) == prod(t) * l.last()) by(nonlinear_arith);
    } else { assert(l.reverse() =~= l); }
}
pub proof fn lemma_sprod_mid(l: Seq<nat>, m: int) requires 0 <= m < l.len(), prod(l) > 0
    ensures prod(l) as int % (l[m] as int * sprod(l, m + 1, l.len() as int)) == 0, l[m] as int * sprod(l, m + 1, l.len() as int) > 0, sprod(l, m + 1, l.len() as int) > 0, l[m] as int * sprod(l, m + 1, l.len() as int) <= prod(l)
{
    lemma_sprod_full(l); lemma_sprod_split(l, 0, m, l.len() as int); lemma_sprod_left(l, m, l.len() as int);
    let p = sprod(l, 0, m) as int; let s = sprod(l, m, l.len() as int) as int; let w = sprod(l, m + 1, l.len() as int) as int;
    assert(p > 0 && s > 0) by(nonlinear_arith) requires p * s > 0, p >= 0, s >= 0; assert(w > 0) by(nonlinear_arith) requires l[m] * w == s, s > 0, w >= 0, l[m] >= 0;
    lemma_dm(p, s, 0); assert(p * s >= s) by(nonlinear_arith) requires p >= 1, s > 0;
}

// the grid as an array of tensors
pub open spec fn grida<T>(a: Seq<Tensor<T>>, o: Order, r: Seq<Tensor<T>>) -> bool { r.len() == a.len() && forall|m: int| 0 <= m < r.len() ==> (#[trigger] r[m]).wf() && gridm(a, o, m, r[m]) }
@template mgr(n)
@fn Meshgrid<T> for [&Tensor<T>;%n%]::build(self_, order) -> r
@prop C15
@treq grid_ok(dr(self_@));; prod(szs(dr(self_@))) <= usize::MAX
@ens grida(dr(self_@), order, r@)
@fn Meshgrid<T> for [Tensor<T>;%n%]::build(self_, order) -> r
@prop C15
@treq grid_ok(self_@);; prod(szs(self_@)) <= usize::MAX
@ens grida(self_@, order, r@)
@loop 0
@inv $e == %n%;; $b@ == self_@;; dr(vec@) =~= self_@.subrange(0, $i as int)
@call matrix::build_meshgrid
assert(dr($0@) =~= self_@); assert forall|k: int| 0 <= k < $0@.len() implies (#[trigger] $0@[k]).wf() by { assert(dr($0@)[k] == self_@[k]); }
@endtemplate
@use mgr(1)
@use mgr(2)
@use mgr(3)
@fn Tensor::meshgrid(self_, other) -> r
@prop C15
@treq grid_ok(seq![*self_, *other]);; prod(szs(seq![*self_, *other])) <= usize::MAX
@ens grida(seq![*self_, *other], Order::XY, r@)
@call Meshgrid<T> for [&Tensor<T>;2]::build
assert(dr($0@) =~= seq![*self_, *other]);
@fn Tensor::meshgrid_ij(self_, other) -> r
@prop C15
@treq grid_ok(seq![*self_, *other]);; prod(szs(seq![*self_, *other])) <= usize::MAX
@ens grida(seq![*self_, *other], Order::IJ, r@)
@call Meshgrid<T> for [&Tensor<T>;2]::build
assert(dr($0@) =~= seq![*self_, *other]);
