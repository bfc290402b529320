@spec
// k-th of n evenly spaced samples from s to e (32-bit arithmetic as the crate does it)
pub open spec fn spv(s: f32, e: f32, n: usize, k: usize) -> f32 {
    let step = if n > 1 { s2_div::<f32, f32, f32>(s2_sub::<f32, f32, f32>(e, s), s1_cast::<usize, f32>((n - 1) as usize)) } else { sfl_0p0_f32() };
    s2_add::<f32, f32, f32>(s, s2_mul::<f32, f32, f32>(step, s1_cast::<usize, f32>(k)))
}
pub open spec fn sp_ok(s: Tensor<f32>, e: Tensor<f32>, f: spec_fn(f32) -> f32) -> bool {
    s.l() =~= e.l() && s.n() > 0 && forall|i: int| 0 <= i < s.n() ==> s2_le::<f32, f32, bool>(#[trigger] f(s.e()[i]), f(e.e()[i]))
}
pub open spec fn sp_at(s: Seq<f32>, e: Seq<f32>, len: usize, r: Seq<f32>, f: spec_fn(f32) -> f32, g: spec_fn(f32) -> f32) -> bool {
    r.len() == len * s.len() && forall|k: int, j: int| 0 <= k < len && 0 <= j < s.len() ==> #[trigger] r[idx2(k, j, s.len() as int)] == g(spv(f(s[j]), f(e[j]), len, k as usize))
}
pub open spec fn f_id() -> spec_fn(f32) -> f32 { |x: f32| x }
pub open spec fn f_ln() -> spec_fn(f32) -> f32 { |x: f32| s1_ln::<f32, f32>(x) }
pub open spec fn f_exp() -> spec_fn(f32) -> f32 { |x: f32| s1_exp::<f32, f32>(x) }
pub open spec fn f_pow(b: f32) -> spec_fn(f32) -> f32 { |x: f32| s2_powf::<f32, f32, f32>(b, x) }
@template spc(f | g)
@loop 0
@inv $s == 0;; $e == batch;; __h.cap() == size;; size == batch * len;; batch == smax(1, start.n() as int);; start.e() == start0.e();; end.e() == end0.e();; start.n() == start0.n();; end.n() == end0.n();;
  $i > 0 ==> start.n() > 0 && end.n() > 0;; $i <= start.n() || start.n() == 0;; $i <= end.n() || $i == 0;;
  forall|j: int| 0 <= j < $i ==> s2_le::<f32, f32, bool>(#[trigger] %f%(start.e()[j]), %f%(end.e()[j]));;
  forall|k: int, j: int| 0 <= k < len && 0 <= j < $i ==> __h.has(#[trigger] idx2(k, j, batch as int)) && __h.at(idx2(k, j, batch as int)) == %g%(spv(%f%(start.e()[j]), %f%(end.e()[j]), len, k as usize))
@start let _a = %f%(start0.e()[$x as int]);
@loop 1
@inv $s == 0;; $e == len;; __h.cap() == size;; size == batch * len;; 0 <= $x0 < batch;; start == %f%(start0.e()[$x0 as int]);; end == %f%(end0.e()[$x0 as int]);;
  step == (if len > 1 { s2_div::<f32, f32, f32>(s2_sub::<f32, f32, f32>(end, start), s1_cast::<usize, f32>((len - 1) as usize)) } else { sfl_0p0_f32() });;
  forall|k: int, j: int| 0 <= k < len && 0 <= j < $x0 ==> __h.has(#[trigger] idx2(k, j, batch as int)) && __h.at(idx2(k, j, batch as int)) == %g%(spv(%f%(start0.e()[j]), %f%(end0.e()[j]), len, k as usize));;
  forall|k: int| 0 <= k < $i ==> __h.has(#[trigger] idx2(k, $x0 as int, batch as int)) && __h.at(idx2(k, $x0 as int, batch as int)) == %g%(spv(start, end, len, k as usize))
@start lemma_idx2($x as int, $x0 as int, len as int, batch as int); assert(len * batch == batch * len) by(nonlinear_arith);
@fin assert(len * batch == batch * len) by(nonlinear_arith); assert forall|q: int| 0 <= q < __h.cap() implies #[trigger] __h.has(q) by { lemma_unidx2(q, len as int, batch as int); assert(__h.has(idx2(q / (batch as int), q % (batch as int), batch as int))); }
  assert forall|k: int, j: int| 0 <= k < len && 0 <= j < batch implies #[trigger] __h.seq()[idx2(k, j, batch as int)] == %g%(spv(%f%(start0.e()[j]), %f%(end0.e()[j]), len, k as usize)) by { lemma_idx2(k, j, len as int, batch as int); assert(__h.has(idx2(k, j, batch as int))); }
@endtemplate
@fn vector::linspace(start0, end0, len) -> r
@prop C16 C15
@valid sp_ok(start0, end0, f_id());; start0.shape.rank < 6
@treq len * start0.n() <= usize::MAX
@ens r.l() =~= seq![len as nat] + start0.l();; sp_at(start0.e(), end0.e(), len, r.e(), f_id(), f_id())
@pre assert(len * start0.n() == start0.n() * len) by(nonlinear_arith); lemma_cons(len as nat, start0.l());
@use spc(f_id() | f_id())
@ret Shape::insert
assert($r.l() =~= seq![len as nat] + start0.l());
@spec
pub open spec fn l_base(o: Logspace) -> f32 { match o.base { Some(b) => b, None => sfl_10p0_f32() } }
@fn vector::logspace_opt(start0, end0, len, opt0) -> r
@prop C16
@valid sp_ok(start0, end0, f_id());; start0.shape.rank < 6
@treq len * start0.n() <= usize::MAX
@ens r.l() =~= seq![len as nat] + start0.l();; sp_at(start0.e(), end0.e(), len, r.e(), f_id(), f_pow(l_base(opt0)))
@pre assert(len * start0.n() == start0.n() * len) by(nonlinear_arith); lemma_cons(len as nat, start0.l());
@use spc(f_id() | f_pow(base))
@ret Shape::insert
assert($r.l() =~= seq![len as nat] + start0.l());
@fn vector::logspace(start, end, len) -> r
@prop C16
@valid sp_ok(start, end, f_id());; start.shape.rank < 6
@treq len * start.n() <= usize::MAX
@ens r.l() =~= seq![len as nat] + start.l();; sp_at(start.e(), end.e(), len, r.e(), f_id(), f_pow(sfl_10p0_f32()))
@fn vector::geomspace(start0, end0, len) -> r
@prop C16
@valid sp_ok(start0, end0, f_ln());; start0.n() == 1 || start0.shape.rank < 6
@treq len * start0.n() <= usize::MAX
@ens r.l() =~= (if start0.n() == 1 { seq![len as nat] } else { seq![len as nat] + start0.l() });; sp_at(start0.e(), end0.e(), len, r.e(), f_ln(), f_exp())
@pre assert(len * start0.n() == start0.n() * len) by(nonlinear_arith); lemma_cons(len as nat, start0.l()); lemma_p1(len as nat);
@use spc(f_ln() | f_exp())
@last assert(o_shape.l() =~= (if start0.n() == 1 { seq![len as nat] } else { seq![len as nat] + start0.l() })); assert(start0.n() == 1 ==> o_shape.n() == len);
@ret Shape::insert
assert($r.l() =~= seq![len as nat] + start0.l());
@template spw(name | f | g | o)
@fn Tensor<f32>::%name%(self_, end, len) -> r
@prop C16
@valid sp_ok(*self_, *end, %f%);; %o% || self_.shape.rank < 6
@treq len * self_.n() <= usize::MAX
@ens r.l() =~= (if %o% { seq![len as nat] } else { seq![len as nat] + self_.l() });; sp_at(self_.e(), end.e(), len, r.e(), %f%, %g%)
@endtemplate
@use spw(linspace | f_id() | f_id() | false)
@use spw(logspace | f_id() | f_pow(sfl_10p0_f32()) | false)
@use spw(geomspace | f_ln() | f_exp() | self_.n() == 1)
@fn Logspace::base(base) -> r
@prop C16
@ens r.base == Some(base)
@fn From<Option<f32>> for Logspace::from(base) -> r
@prop C16
@ens r.base == base
@fn From<f32> for Logspace::from(base) -> r
@prop C16
@ens r.base == Some(base)
@fn Default for Logspace::default() -> r
@prop C16
@ens r.base is None
@spec
// start, start + step, ...
pub open spec fn ari(s: f32, d: f32, k: nat) -> f32 decreases k { if k == 0 { s } else { s2_add::<f32, f32, f32>(ari(s, d, (k - 1) as nat), d) } }
pub open spec fn ar_up(s: f32, e: f32, d: f32) -> bool { s2_le::<f32, f32, bool>(s, e) && s2_gt::<f32, f32, bool>(d, sfl_0p0_f32()) }
pub open spec fn ar_dn(s: f32, e: f32, d: f32) -> bool { s2_le::<f32, f32, bool>(e, s) && s2_lt::<f32, f32, bool>(d, sfl_0p0_f32()) }
// the end is passed after k steps
pub open spec fn ar_past(s: f32, e: f32, d: f32, k: nat) -> bool { if ar_up(s, e, d) { !s2_lt::<f32, f32, bool>(ari(s, d, k), e) } else { !s2_lt::<f32, f32, bool>(e, ari(s, d, k)) } }
pub open spec fn ar_is(s: f32, e: f32, d: f32, r: Seq<f32>) -> bool {
    ar_past(s, e, d, r.len()) && ar_pre(s, e, d, r)
}
pub open spec fn ar_pre(s: f32, e: f32, d: f32, r: Seq<f32>) -> bool { forall|k: int| 0 <= k < r.len() ==> #[trigger] r[k] == ari(s, d, k as nat) && !ar_past(s, e, d, k as nat) }
pub proof fn lemma_ar_push(s: f32, e: f32, d: f32, r: Seq<f32>) requires ar_pre(s, e, d, r), !ar_past(s, e, d, r.len()) ensures ar_pre(s, e, d, r.push(ari(s, d, r.len()))) { }
// the first k past the end
pub open spec fn ar_first(s: f32, e: f32, d: f32, k: nat) -> bool { ar_past(s, e, d, k) && forall|j: nat| j < k ==> !#[trigger] ar_past(s, e, d, j) }
pub open spec fn ar_min(s: f32, e: f32, d: f32) -> nat { choose|k: nat| #[trigger] ar_first(s, e, d, k) }
pub proof fn lemma_ar_min(s: f32, e: f32, d: f32, k: nat) requires ar_past(s, e, d, k) ensures ar_first(s, e, d, ar_min(s, e, d)) decreases k
{
    if exists|j: nat| j < k && ar_past(s, e, d, j) { let j = choose|j: nat| j < k && ar_past(s, e, d, j); lemma_ar_min(s, e, d, j); } else { assert(ar_first(s, e, d, k)); }
}
@fn vector::arange(start, end, step) -> r
@prop C16
@valid ar_up(start, end, step) || ar_dn(start, end, step)
@treq s2_ne::<f32, f32, bool>(step, sfl_0p0_f32());; exists|k: nat| ar_past(start, end, step, k)
@ens r.shape.rank == 1;; ar_is(start, end, step, r.e())
@ghost steps: nat = if exists|k: nat| ar_past(start, end, step, k) { ar_min(start, end, step) } else { 0 }
@pre if exists|k: nat| ar_past(start, end, step, k) { lemma_ar_min(start, end, step, choose|k: nat| ar_past(start, end, step, k)); }
@loop 0
@inv start_1 == ari(start, step, vec@.len());; ar_up(start, end, step);; ar_pre(start, end, step, vec@)
@tinv ar_past(start, end, step, steps);; forall|k: nat| k < steps ==> !#[trigger] ar_past(start, end, step, k);; vec@.len() <= steps
@tdec steps - vec@.len()
@start lemma_ar_push(start, end, step, vec@);
@loop 1
@inv start_1 == ari(start, step, vec@.len());; !ar_up(start, end, step);; ar_pre(start, end, step, vec@)
@tinv ar_past(start, end, step, steps);; forall|k: nat| k < steps ==> !#[trigger] ar_past(start, end, step, k);; vec@.len() <= steps
@tdec steps - vec@.len()
@start lemma_ar_push(start, end, step, vec@);
@fn Tensor<f32>::arange(start, end, step) -> r
@prop C16
@valid ar_up(start, end, step) || ar_dn(start, end, step)
@treq s2_ne::<f32, f32, bool>(step, sfl_0p0_f32());; exists|k: nat| ar_past(start, end, step, k)
@ens r.shape.rank == 1;; ar_is(start, end, step, r.e())
@spec
pub open spec fn hot(ix: Seq<usize>, n: nat, r: Seq<f32>) -> bool { r.len() == n && forall|k: int| 0 <= k < n ==> #[trigger] r[k] == (if ix.contains(k as usize) { sfl_1p0_f32() } else { sfl_0p0_f32() }) }
@template oh(key)
@fn %key%(indices, depth) -> r
@prop C16
@valid forall|k: int| 0 <= k < indices@.len() ==> #[trigger] indices@[k] < depth
@ens r.shape.rank == 1;; hot(indices@, depth as nat, r.e())
@endtemplate
@use oh(vector::one_hot)
@loop 0
@inv $s == 0;; $e == indices@.len();; $b@ == indices@;; vec@.len() == depth;; hot(indices@.subrange(0, $i as int), depth as nat, vec@);; forall|k: int| 0 <= k < $i ==> #[trigger] indices@[k] < depth
@end let a = indices@.subrange(0, $x as int); let b = indices@.subrange(0, $x + 1); assert(b =~= a.push(indices@[$x as int])); assert forall|k: usize| #[trigger] b.contains(k) == (a.contains(k) || k == indices@[$x as int]) by { if a.contains(k) { let j = a.index_of(k); assert(b[j] == k); } if k == indices@[$x as int] { assert(b[$x as int] == k); } if b.contains(k) { let j = b.index_of(k); if j < $x { assert(a[j] == k); } } }
@after assert(indices@.subrange(0, indices@.len() as int) =~= indices@);
@use oh(Tensor<f32>::one_hot)
@spec
// k-th coordinate of the axis 0 .. m-1
pub open spec fn mgv(m: usize, k: int) -> f32 { spv(sfl_0p0_f32(), s2_sub::<f32, f32, f32>(s1_cast::<usize, f32>(m), sfl_1p0_f32()), m, k as usize) }
pub open spec fn mg_ok(m: usize) -> bool { s2_le::<f32, f32, bool>(sfl_0p0_f32(), s2_sub::<f32, f32, f32>(s1_cast::<usize, f32>(m), sfl_1p0_f32())) }
pub open spec fn mg_ax(m: usize, x: Tensor<f32>) -> bool { x.l() =~= seq![m as nat] && x.n() == m && forall|k: int| 0 <= k < m ==> #[trigger] x.e()[k] == mgv(m, k) }
pub open spec fn mg_arg(m: usize, s: Tensor<f32>, e: Tensor<f32>) -> bool { s.l() =~= Seq::<nat>::empty() && e.l() =~= Seq::<nat>::empty() && s.e() =~= seq![sfl_0p0_f32()] && e.e() =~= seq![s2_sub::<f32, f32, f32>(s1_cast::<usize, f32>(m), sfl_1p0_f32())] }
@fn matrix::mgrid() -> r
@prop C15
@valid mg_ok(M);; mg_ok(N)
@treq M > 0;; N > 0;; M * N <= usize::MAX
@ens r@.len() == 2;; r@[0].l() =~= seq![N as nat, M as nat];; r@[1].l() =~= seq![N as nat, M as nat];;
  forall|q: int| 0 <= q < r@[0].n() ==> #[trigger] r@[0].e()[q] == mgv(M, q % (M as int));; forall|q: int| 0 <= q < r@[1].n() ==> #[trigger] r@[1].e()[q] == mgv(N, q / (M as int) % (N as int))
@call vector::linspace
assert(mg_arg(M, $0, $1) || mg_arg(N, $0, $1));  assert(f_id()($0.e()[0]) == $0.e()[0]);
@ret vector::linspace
lemma_p1($2 as nat); assert($0.l() =~= Seq::<nat>::empty());  assert($r.l() =~= seq![$2 as nat]); assert($0.e().len() == 1); assert forall|k: int| 0 <= k < $2 implies #[trigger] $r.e()[k] == spv($0.e()[0], $1.e()[0], $2, k as usize) by { assert($r.e()[idx2(k, 0, 1)] == f_id()(spv(f_id()($0.e()[0]), f_id()($1.e()[0]), $2, k as usize))); }
@call Meshgrid<T> for [Tensor<T>;2]::build
assert(szs($0@) =~= seq![M as nat, N as nat]); lemma_p2(M as nat, N as nat); assert(mg_ax(M, $0@[0]) && mg_ax(N, $0@[1]));
@ret Meshgrid<T> for [Tensor<T>;2]::build
lemma_mgrid(M, N, $0@, $r@);
@spec
pub proof fn lemma_mgrid(m: usize, n: usize, a: Seq<Tensor<f32>>, r: Seq<Tensor<f32>>)
    requires a.len() == 2, a[0].wf(), a[1].wf(), mg_ax(m, a[0]), mg_ax(n, a[1]), grida(a, Order::XY, r)
    ensures r.len() == 2, r[0].l() =~= seq![n as nat, m as nat], r[1].l() =~= seq![n as nat, m as nat],
        forall|q: int| 0 <= q < r[0].n() ==> #[trigger] r[0].e()[q] == mgv(m, q % (m as int)), forall|q: int| 0 <= q < r[1].n() ==> #[trigger] r[1].e()[q] == mgv(n, q / (m as int) % (n as int))
{
    let z = szs(a.reverse()); assert(z =~= seq![n as nat, m as nat]); lemma_sprod_empty(z, 2); lemma_sprod_left(z, 1, 2); lemma_p2(n as nat, m as nat);
    assert(a.reverse()[1] == a[0] && a.reverse()[0] == a[1]);
    assert(gridm(a, Order::XY, 0, r[0]) && gridm(a, Order::XY, 1, r[1]));
    assert(sprod(z, 2, 2) == 1 && sprod(z, 1, 2) == m) by { assert(m * 1 == m) by(nonlinear_arith); }
    assert forall|q: int| 0 <= q < r[0].n() implies #[trigger] r[0].e()[q] == mgv(m, q % (m as int)) by { lemma_unidx2(q, n as int, m as int); assert(q / 1 == q); assert(a[0].e()[q % (m as int)] == mgv(m, q % (m as int))); }
    assert forall|q: int| 0 <= q < r[1].n() implies #[trigger] r[1].e()[q] == mgv(n, q / (m as int) % (n as int)) by { lemma_unidx2(q, n as int, m as int); let w = q / (m as int); vstd::arithmetic::div_mod::lemma_small_mod(w as nat, n as nat); assert(a[1].e()[w % (n as int)] == mgv(n, w % (n as int))); }
}
