@spec
// ---- unit normalisation: the smallest and largest element of the whole tensor
pub open spec fn nu_up<T>(s: NormalizeUnit<T>, v: T) -> NormalizeUnit<T> { NormalizeUnit { min: s2_min::<T, T, T>(s.min, v), max: s2_max::<T, T, T>(s.max, v) } }
pub open spec fn nu_norm<T>(s: NormalizeUnit<T>, v: T) -> T { s2_div::<T, T, T>(s2_sub::<T, T, T>(v, s.min), s2_sub::<T, T, T>(s.max, s.min)) }
pub open spec fn nu_0<T>() -> NormalizeUnit<T> { NormalizeUnit { min: s0_max_value::<T>(), max: s0_min_value::<T>() } }
// the only lane when no axis is given
pub proof fn lemma_lane1<T>(e: Seq<T>) ensures lane(e, 0, 0, e.len(), 1) == e
{
    assert forall|k: int| 0 <= k < e.len() implies #[trigger] idx3(0, k, 0, e.len() as int, 1) == k by { assert(0 * e.len() == 0 && k * 1 == k) by(nonlinear_arith); }
    assert(lane(e, 0, 0, e.len(), 1) =~= e);
}
// a fold whose step is the function g
pub open spec fn fl<S, A>(g: spec_fn(S, A) -> S, init: S, a: Seq<A>) -> S decreases a.len() { if a.len() == 0 { init } else { g(fl(g, init, a.drop_last()), a.last()) } }
pub proof fn lemma_flVR<S, A, F: FnVR<S, A, S>>(f: F, g: spec_fn(S, A) -> S, init: S, a: Seq<A>, s: S)
    requires foldVR::<S, A, F>(f.env(), init, a, s), forall|x: S, y: A, r: S| #[trigger] F::rel(f.env(), x, y, r) ==> r == g(x, y)
    ensures s == fl(g, init, a)
    decreases a.len()
{
    if a.len() > 0 { let m = choose|m: S| foldVR::<S, A, F>(f.env(), init, a.drop_last(), m) && #[trigger] F::rel(f.env(), m, a.last(), s); lemma_flVR::<S, A, F>(f, g, init, a.drop_last(), m); }
}
pub proof fn lemma_normed<S, S1, A, V, F: FnVR<S, A, S>, G: FnV<S, S1>, H: FnRR<S1, A, V>>(f: F, c: G, h: H, gf: spec_fn(S, A) -> S, gc: spec_fn(S) -> S1, gh: spec_fn(S1, A) -> V, init: S, a: Seq<A>, o: Seq<V>)
    requires normed::<S, S1, A, V, F, G, H>(f.env(), c.env(), h.env(), init, a, o), forall|x: S, y: A, r: S| #[trigger] F::rel(f.env(), x, y, r) ==> r == gf(x, y), forall|x: S, r: S1| #[trigger] G::rel(c.env(), x, r) ==> r == gc(x), forall|x: S1, y: A, r: V| #[trigger] H::rel(h.env(), x, y, r) ==> r == gh(x, y)
    ensures o.len() == a.len(), forall|k: int| 0 <= k < a.len() ==> #[trigger] o[k] == gh(gc(fl(gf, init, a)), a[k])
{
    let v = choose|v: S1| #[trigger] summed::<S, S1, A, F, G>(f.env(), c.env(), init, a, v) && forall|k: int| 0 <= k < a.len() ==> H::rel(h.env(), v, a[k], #[trigger] o[k]);
    let s = choose|s: S| #[trigger] foldVR::<S, A, F>(f.env(), init, a, s) && G::rel(c.env(), s, v); lemma_flVR::<S, A, F>(f, gf, init, a, s);
}
@fn NormalizeUnit::update(self_, v) -> r
@prop C09
@pure nu_up(self_, v)
@ens r == nu_up(self_, v)
@fn NormalizeUnit::norm(self_, v) -> r
@prop C09
@pure nu_norm(self_, v)
@ens r == nu_norm(*self_, v)
@fn Default for NormalizeUnit<T>::default() -> r
@prop C09
@pure nu_0()
@ens r == nu_0::<T>()
@fn Tensor::normalize_unit(self_) -> r
@prop C09
@ens r.shape == self_.shape;; forall|k: int| 0 <= k < self_.n() ==> #[trigger] r.e()[k] == nu_norm(fl(|_u: NormalizeUnit<T>, _v: T| nu_up(_u, _v), nu_0::<T>(), self_.e()), self_.e()[k])
@ret Tensor::normalize
assert(lane_ok(0, 0)); lemma_lane1(self_.e()); lemma_lane1($r.e());
  lemma_normed($3, $4, $5, |_u: NormalizeUnit<T>, _v: T| nu_up(_u, _v), |_u: NormalizeUnit<T>| _u, |_u: NormalizeUnit<T>, _v: T| nu_norm(_u, _v), nu_0::<T>(), self_.e(), $r.e());
