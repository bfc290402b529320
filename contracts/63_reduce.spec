@spec
// ---- reductions without an initial state: g over the elements, left to right from the first
pub open spec fn rdl<A>(g: spec_fn(A, A) -> A, a: Seq<A>) -> A { fl(g, a[0], a.subrange(1, a.len() as int)) }
pub proof fn lemma_flVV<A, F: FnVV<A, A, A>>(f: F, g: spec_fn(A, A) -> A, init: A, a: Seq<A>, s: A)
    requires foldVV::<A, F>(f.env(), init, a, s), forall|x: A, y: A, r: A| #[trigger] F::rel(f.env(), x, y, r) ==> r == g(x, y)
    ensures s == fl(g, init, a)
    decreases a.len()
{
    if a.len() > 0 { let m = choose|m: A| foldVV::<A, F>(f.env(), init, a.drop_last(), m) && #[trigger] F::rel(f.env(), m, a.last(), s); lemma_flVV::<A, F>(f, g, init, a.drop_last(), m); }
}
pub open spec fn fun2<F, A, V>(f: F, g: spec_fn(A, A) -> A) -> bool where F: FnVV<A, A, A> { forall|x: A, y: A, r: A| #[trigger] F::rel(f.env(), x, y, r) ==> r == g(x, y) }
// the reduction of every lane
pub open spec fn red_of<T>(t: Tensor<T>, ax: Option<isize>, g: spec_fn(Seq<T>) -> T, r: Tensor<T>) -> bool {
    let A = red_outer(ax, t.l()) as int; let B = red_len(ax, t.l()); let C = red_inner(ax, t.l()) as int;
    &&& r.l() =~= red_l(ax, t.l())
    &&& r.n() == A * C
    &&& forall|n: int, i: int| 0 <= n < A && 0 <= i < C ==> r.e()[#[trigger] idx2(n, i, C)] == g(lane(t.e(), n, i, B, C))
}
pub proof fn lemma_redall<T, F: FnVV<T, T, T>>(f: F, g: spec_fn(T, T) -> T, t: Tensor<T>, ax: Option<isize>, r: Tensor<T>)
    requires forall|x: T, y: T, r: T| #[trigger] F::rel(f.env(), x, y, r) ==> r == g(x, y), r.l() =~= red_l(ax, t.l()), ({ let A = red_outer(ax, t.l()) as int; let B = red_len(ax, t.l()); let C = red_inner(ax, t.l()) as int;
        r.n() == A * C && forall|n: int, i: int| 0 <= n < A && 0 <= i < C ==> redV::<T, F>(f.env(), lane(t.e(), n, i, B, C), r.e()[#[trigger] idx2(n, i, C)]) })
    ensures red_of(t, ax, |a: Seq<T>| rdl(g, a), r)
{
    let A = red_outer(ax, t.l()) as int; let B = red_len(ax, t.l()); let C = red_inner(ax, t.l()) as int;
    assert forall|n: int, i: int| 0 <= n < A && 0 <= i < C implies r.e()[#[trigger] idx2(n, i, C)] == rdl(g, lane(t.e(), n, i, B, C)) by { let a = lane(t.e(), n, i, B, C); let v = r.e()[idx2(n, i, C)]; assert(redV::<T, F>(f.env(), a, v)); lemma_flVV::<T, F>(f, g, a[0], a.subrange(1, a.len() as int), v); }
}
@template red(name | op)
@fn Tensor::reduce_%name%(self_) -> r
@prop C26
@valid self_.n() > 0
@ens r.l() =~= Seq::<nat>::empty();; r.e()[0] == rdl(|_x: T, _y: T| s2_%op%::<T, T, T>(_x, _y), self_.e())
@ret Tensor::reduce
lemma_flVV($1, |_x: T, _y: T| s2_%op%::<T, T, T>(_x, _y), self_.e()[0], self_.e().subrange(1, self_.n() as int), $r.e()[0]);
@fn Tensor::reduce_%name%_axis(self_, axis) -> r
@prop C26
@req axis.axis.is_some() ==> self_.shape.rank > 0 && okax(axis.axis.unwrap() as int, self_.shape.rank as int)
@valid axis.axis.is_some() && self_.shape.rank > 1 ==> pos(self_.l().remove(nax(axis.axis.unwrap() as int, self_.shape.rank as int)))
@treq self_.n() > 0
@ens red_of(*self_, axis.axis, |_a: Seq<T>| rdl(|_x: T, _y: T| s2_%op%::<T, T, T>(_x, _y), _a), r)
@ret Tensor::reduce_axis
lemma_redall($2, |_x: T, _y: T| s2_%op%::<T, T, T>(_x, _y), *self_, axis.axis, $r);
@endtemplate
@use red(min | min)
@use red(max | max)
@use red(sum | add)
@use red(product | mul)

@spec
// ---- reductions with a state
pub proof fn lemma_fold1<S, A, V, F: FnVR<S, A, S>>(f: F, g: spec_fn(S, A) -> S, init: S, a: Seq<A>, v: V)
    requires foldedVR::<S, A, V, F>(f.env(), init, a, v), forall|x: S, y: A, r: S| #[trigger] F::rel(f.env(), x, y, r) ==> r == g(x, y)
    ensures v == s1_into_result::<S, V>(fl(g, init, a))
{ let s = choose|s: S| #[trigger] foldVR::<S, A, F>(f.env(), init, a, s) && v == s1_into_result::<S, V>(s); lemma_flVR::<S, A, F>(f, g, init, a, s); }
pub open spec fn fold_of<T, V>(t: Tensor<T>, ax: Option<isize>, g: spec_fn(Seq<T>) -> V, r: Tensor<V>) -> bool {
    let A = red_outer(ax, t.l()) as int; let B = red_len(ax, t.l()); let C = red_inner(ax, t.l()) as int;
    &&& r.l() =~= red_l(ax, t.l())
    &&& r.n() == A * C
    &&& forall|n: int, i: int| 0 <= n < A && 0 <= i < C ==> r.e()[#[trigger] idx2(n, i, C)] == g(lane(t.e(), n, i, B, C))
}
pub proof fn lemma_foldall<S, A, V, F: FnVR<S, A, S>>(f: F, g: spec_fn(S, A) -> S, init: S, t: Tensor<A>, ax: Option<isize>, r: Tensor<V>)
    requires forall|x: S, y: A, r: S| #[trigger] F::rel(f.env(), x, y, r) ==> r == g(x, y), r.l() =~= red_l(ax, t.l()), ({ let A = red_outer(ax, t.l()) as int; let B = red_len(ax, t.l()); let C = red_inner(ax, t.l()) as int;
        r.n() == A * C && forall|n: int, i: int| 0 <= n < A && 0 <= i < C ==> foldedVR::<S, A, V, F>(f.env(), init, lane(t.e(), n, i, B, C), r.e()[#[trigger] idx2(n, i, C)]) })
    ensures fold_of(t, ax, |a: Seq<A>| s1_into_result::<S, V>(fl(g, init, a)), r)
{
    let A = red_outer(ax, t.l()) as int; let B = red_len(ax, t.l()); let C = red_inner(ax, t.l()) as int;
    assert forall|n: int, i: int| 0 <= n < A && 0 <= i < C implies r.e()[#[trigger] idx2(n, i, C)] == s1_into_result::<S, V>(fl(g, init, lane(t.e(), n, i, B, C))) by { lemma_fold1::<S, A, V, F>(f, g, init, lane(t.e(), n, i, B, C), r.e()[idx2(n, i, C)]); }
}
// mean
pub open spec fn fadd(a: f32, b: f32) -> f32 { s2_add::<f32, f32, f32>(a, b) }
pub open spec fn fsub(a: f32, b: f32) -> f32 { s2_sub::<f32, f32, f32>(a, b) }
pub open spec fn fmul(a: f32, b: f32) -> f32 { s2_mul::<f32, f32, f32>(a, b) }
pub open spec fn fdiv(a: f32, b: f32) -> f32 { s2_div::<f32, f32, f32>(a, b) }
pub open spec fn ucast(n: int) -> f32 { s1_cast::<usize, f32>(n as usize) }
pub open spec fn mean_up(s: Mean, v: f32) -> Mean { Mean { n: (s.n + 1) as usize, sum: fadd(s.sum, v) } }
pub open spec fn mean_0() -> Mean { Mean { n: 0, sum: sfl_0p0_f32() } }
pub open spec fn fsum(a: Seq<f32>) -> f32 decreases a.len() { if a.len() == 0 { sfl_0p0_f32() } else { fadd(fsum(a.drop_last()), a.last()) } }
pub open spec fn mean_of(a: Seq<f32>) -> f32 { fdiv(fsum(a), ucast(smax(a.len() as int, 1))) }
pub open spec fn mean_res(s: Mean) -> f32 { fdiv(s.sum, ucast(smax(s.n as int, 1))) }
pub proof fn lemma_mean(a: Seq<f32>) requires a.len() <= usize::MAX ensures ({ let s = fl(|_s: Mean, _v: f32| mean_up(_s, _v), mean_0(), a); s.n == a.len() && s.sum == fsum(a) }) decreases a.len()
{ if a.len() > 0 { lemma_mean(a.drop_last()); } }
#[verifier::external_body]
pub proof fn axiom_ir_mean(s: Mean) ensures s1_into_result::<Mean, f32>(s) == mean_res(s) { unimplemented!() }
// Welford: the running mean and the sum of squared deviations after each element
pub open spec fn wf_m(a: Seq<f32>) -> f32 decreases a.len() { if a.len() <= 0 { sfl_0p0_f32() } else if a.len() == 1 { a[0] } else { let m = wf_m(a.drop_last()); fadd(m, fdiv(fsub(a.last(), m), ucast(a.len() as int))) } }
pub open spec fn wf_s(a: Seq<f32>) -> f32 decreases a.len() { if a.len() <= 1 { sfl_0p0_f32() } else { fadd(wf_s(a.drop_last()), fmul(fsub(a.last(), wf_m(a.drop_last())), fsub(a.last(), wf_m(a)))) } }
pub open spec fn var_of(a: Seq<f32>) -> f32 { if a.len() > 1 { fdiv(wf_s(a), ucast(a.len() as int)) } else { sfl_0p0_f32() } }
pub open spec fn std_of(a: Seq<f32>) -> f32 { if a.len() > 1 { s1_sqrt::<f32, f32>(fdiv(wf_s(a), ucast(a.len() as int))) } else { sfl_0p0_f32() } }
pub open spec fn hyp_sq<T>(a: Seq<T>) -> T decreases a.len() { if a.len() == 0 { s0_zero::<T>() } else { s2_add::<T, T, T>(hyp_sq(a.drop_last()), s2_mul::<T, T, T>(a.last(), a.last())) } }
pub open spec fn hyp_up<T>(s: Hypot<T>, v: T) -> Hypot<T> { Hypot { 0: s2_add::<T, T, T>(s.0, s2_mul::<T, T, T>(v, v)) } }
pub open spec fn hyp_0<T>() -> Hypot<T> { Hypot { 0: s0_zero::<T>() } }
pub proof fn lemma_hyp<T>(a: Seq<T>) ensures fl(|_s: Hypot<T>, _v: T| hyp_up(_s, _v), hyp_0::<T>(), a).0 == hyp_sq(a) decreases a.len() { if a.len() > 0 { lemma_hyp(a.drop_last()); } }
#[verifier::external_body]
pub proof fn axiom_ir_hyp<T>(s: Hypot<T>) ensures s1_into_result::<Hypot<T>, T>(s) == s1_sqrt::<T, T>(s.0) { unimplemented!() }

@fn Default for Mean::default() -> r
@prop C26
@pure mean_0()
@ens r == mean_0()
@fn Mean::update(self_, value) -> r
@prop C26
@count
@pure mean_up(self_, value)
@ens r == mean_up(self_, value)
@fn FoldState for Mean::into_result(self_) -> r
@prop C26
@ens r == mean_res(self_)
@fn Tensor<f32>::reduce_mean(self_) -> r
@prop C26
@ens r.l() =~= Seq::<nat>::empty();; r.e()[0] == mean_of(self_.e())
@ret Tensor::fold
lemma_fold1($2, |_s: Mean, _v: f32| mean_up(_s, _v), mean_0(), self_.e(), $r.e()[0]); lemma_mean(self_.e()); axiom_ir_mean(fl(|_s: Mean, _v: f32| mean_up(_s, _v), mean_0(), self_.e()));
@fn Tensor<f32>::reduce_mean_axis(self_, axis) -> r
@prop C26
@req axis.axis.is_some() ==> self_.shape.rank > 0 && okax(axis.axis.unwrap() as int, self_.shape.rank as int)
@valid axis.axis.is_some() && self_.shape.rank > 1 ==> pos(self_.l().remove(nax(axis.axis.unwrap() as int, self_.shape.rank as int)))
@ens fold_of(*self_, axis.axis, |_a: Seq<f32>| mean_of(_a), r)
@ret Tensor::fold_axis
lemma_foldall($3, |_s: Mean, _v: f32| mean_up(_s, _v), mean_0(), *self_, axis.axis, $r);
  assert forall|n: int, i: int| 0 <= n < red_outer(axis.axis, self_.l()) && 0 <= i < red_inner(axis.axis, self_.l()) implies $r.e()[#[trigger] idx2(n, i, red_inner(axis.axis, self_.l()) as int)] == mean_of(lane(self_.e(), n, i, red_len(axis.axis, self_.l()), red_inner(axis.axis, self_.l()) as int)) by { let a = lane(self_.e(), n, i, red_len(axis.axis, self_.l()), red_inner(axis.axis, self_.l()) as int); lemma_mean(a); axiom_ir_mean(fl(|_s: Mean, _v: f32| mean_up(_s, _v), mean_0(), a)); }

@template wel(N | n)
@spec
pub open spec fn %n%_up(s: %N%, x: f32) -> %N% { if s.k == 0 { %N% { k: 1, m: x, s: sfl_0p0_f32() } } else { let k = (s.k + 1) as usize; let m = fadd(s.m, fdiv(fsub(x, s.m), s1_cast::<usize, f32>(k))); %N% { k: k, m: m, s: fadd(s.s, fmul(fsub(x, s.m), fsub(x, m))) } } }
pub open spec fn %n%_0() -> %N% { %N% { k: 0, m: sfl_0p0_f32(), s: sfl_0p0_f32() } }
pub proof fn lemma_%n%(a: Seq<f32>) requires a.len() <= usize::MAX ensures ({ let s = fl(|_s: %N%, _v: f32| %n%_up(_s, _v), %n%_0(), a); s.k == a.len() && s.m == wf_m(a) && s.s == wf_s(a) }) decreases a.len()
{ if a.len() > 0 { lemma_%n%(a.drop_last()); } }
pub open spec fn %n%_res(s: %N%) -> f32 { if s.k > 1 { %n%_fin(fdiv(s.s, s1_cast::<usize, f32>(s.k))) } else { sfl_0p0_f32() } }
#[verifier::external_body]
pub proof fn axiom_ir_%n%(s: %N%) ensures s1_into_result::<%N%, f32>(s) == %n%_res(s) { unimplemented!() }
@fn Default for %N%::default() -> r
@prop C26
@pure %n%_0()
@ens r == %n%_0()
@fn %N%::update(self_, x) -> r
@prop C26
@count
@pure %n%_up(self_, x)
@ens r == %n%_up(self_, x)
@fn FoldState for %N%::into_result(self_) -> r
@prop C26
@ens r == %n%_res(self_)
@endtemplate
@template welf(N | n | fn)
@fn Tensor<f32>::reduce_%fn%(self_) -> r
@prop C26
@ens r.l() =~= Seq::<nat>::empty();; r.e()[0] == %n%_of(self_.e())
@ret Tensor::fold
lemma_fold1($2, |_s: %N%, _v: f32| %n%_up(_s, _v), %n%_0(), self_.e(), $r.e()[0]); lemma_%n%(self_.e()); axiom_ir_%n%(fl(|_s: %N%, _v: f32| %n%_up(_s, _v), %n%_0(), self_.e()));
@fn Tensor<f32>::reduce_%fn%_axis(self_, axis) -> r
@prop C26
@req axis.axis.is_some() ==> self_.shape.rank > 0 && okax(axis.axis.unwrap() as int, self_.shape.rank as int)
@valid axis.axis.is_some() && self_.shape.rank > 1 ==> pos(self_.l().remove(nax(axis.axis.unwrap() as int, self_.shape.rank as int)))
@ens fold_of(*self_, axis.axis, |_a: Seq<f32>| %n%_of(_a), r)
@ret Tensor::fold_axis
lemma_foldall($3, |_s: %N%, _v: f32| %n%_up(_s, _v), %n%_0(), *self_, axis.axis, $r);
  assert forall|n: int, i: int| 0 <= n < red_outer(axis.axis, self_.l()) && 0 <= i < red_inner(axis.axis, self_.l()) implies $r.e()[#[trigger] idx2(n, i, red_inner(axis.axis, self_.l()) as int)] == %n%_of(lane(self_.e(), n, i, red_len(axis.axis, self_.l()), red_inner(axis.axis, self_.l()) as int)) by { let a = lane(self_.e(), n, i, red_len(axis.axis, self_.l()), red_inner(axis.axis, self_.l()) as int); lemma_%n%(a); axiom_ir_%n%(fl(|_s: %N%, _v: f32| %n%_up(_s, _v), %n%_0(), a)); }
@endtemplate
@spec
pub open spec fn std_fin(x: f32) -> f32 { s1_sqrt::<f32, f32>(x) }
pub open spec fn var_fin(x: f32) -> f32 { x }
@use wel(Std | std)
@use wel(Var | var)
@use welf(Std | std | std)
@use welf(Var | var | variance)
@fn Default for Hypot<T>::default() -> r
@prop C26
@pure hyp_0()
@ens r == hyp_0::<T>()
@fn Hypot::update(self_, v) -> r
@prop C26
@pure hyp_up(self_, v)
@ens r == hyp_up(self_, v)
@fn FoldState for Hypot<T>::into_result(self_) -> r
@prop C26
@ens r == s1_sqrt::<T, T>(self_.0)
@fn Tensor::reduce_hypot(self_) -> r
@prop C26
@ens r.l() =~= Seq::<nat>::empty();; r.e()[0] == s1_sqrt::<T, T>(hyp_sq(self_.e()))
@ret Tensor::fold
lemma_fold1($2, |_s: Hypot<T>, _v: T| hyp_up(_s, _v), hyp_0::<T>(), self_.e(), $r.e()[0]); lemma_hyp(self_.e()); axiom_ir_hyp(fl(|_s: Hypot<T>, _v: T| hyp_up(_s, _v), hyp_0::<T>(), self_.e()));
